// Network files
#include "common.hpp"
using namespace H;

PBT_PROPERTY( "P03", "a case is a network (or a text written by an independent writer of the format); non-trivial: at least one edge, "
                     "and for foreign files at least one variation of the layout" );

using Net = Seldon::Network<Seldon::SimpleAgent>;

namespace
{
void same_network( Ctx & c, const Net & net, const RawNet & r, const std::string & what )
{
    PBT_CHECK( c, net.n_agents() == r.nbr.size(), "{}: {} agents, expected {}", what, net.n_agents(), r.nbr.size() );
    c.check( net.direction() == Net::EdgeDirection::Incoming, what + ": the edges are not incoming ones" );
    for( size_t i = 0; i < r.nbr.size(); i++ )
    {
        auto nb = net.get_neighbours( i );
        auto w  = net.get_weights( i );
        PBT_CHECK( c, nb.size() == r.nbr[i].size() && w.size() == r.w[i].size(), "{}: agent {} has {} neighbours and {} weights, expected {}", what, i,
                   nb.size(), w.size(), r.nbr[i].size() );
        for( size_t k = 0; k < nb.size(); k++ )
        {
            PBT_CHECK( c, nb[k] == r.nbr[i][k], "{}: neighbour {} of agent {} is {}, expected {}", what, k, i, nb[k], r.nbr[i][k] );
            PBT_CHECK( c, same_bits( w[k], r.w[i][k] ), "{}: weight {} of agent {} is {:.17g}, expected {:.17g}", what, k, i, w[k], r.w[i][k] );
        }
    }
}
size_t n_edges( const RawNet & r )
{
    size_t e = 0;
    for( auto & x : r.nbr )
        e += x.size();
    return e;
}
RawNet any_net( Src & s )
{
    if( pbt::large_max() )
    {
        size_t kind = s.draw( 2 ); // wide rows, many rows, both
        size_t n = kind == 0 ? s.range( 1, 5 ) : s.big( 200, kind == 1 ? 40000 : 1500 ), width = kind == 1 ? s.range( 1, 8 ) : s.big( 200, kind == 0 ? 20000 : 1500 );
        auto r   = random_net( s, n, width, true );
        if( kind == 0 && s.flip() ) // an exact width
            for( size_t k = 0; k < width; k++ )
            {
                if( k == 0 )
                    r.nbr[0].clear(), r.w[0].clear();
                r.nbr[0].push_back( k % n );
                r.w[0].push_back( 1.0 / double( k + 3 ) );
            }
        return r;
    }
    if( s.chance( 1, 200 ) )
        return random_net( s, s.range( 500, 3000 ), 3, true );
    if( s.chance( 1, 200 ) )
        return random_net( s, s.range( 20, 60 ), 300, true );
    if( s.chance( 1, 8000 ) )
        return random_net( s, s.range( 99998, 100003 ), 2, true ); // indices of more digits than the columns are wide
    size_t n = s.size( 0, 25 );
    return random_net( s, n, s.chance( 1, 2 ) ? 6 : 2, true );
}
} // namespace

PBT_FACET( roundtrip, 60000, 1200000 )
{
    RawNet r = any_net( s );
    c.show( show_net( r ) );
    TempDir d( c, "f" );
    Net net = make_network<Seldon::SimpleAgent>( r );
    if( s.chance( 1, 8 ) ) // there is something in the file already
        spit( d / "net", std::string( 5000, 'x' ) );
    Seldon::network_to_file( net, d / "net" );
    same_network( c, net, r, "writing changed the network" );
    auto text   = slurp( d / "net" );
    auto parsed = parse_network_text( text, c );
    PBT_CHECK( c, parsed.nbr.size() == r.nbr.size(), "{} rows for {} agents", parsed.nbr.size(), r.nbr.size() );
    for( size_t i = 0; i < r.nbr.size(); i++ )
    {
        c.check( parsed.nbr[i] == r.nbr[i], "row " + std::to_string( i ) + " has other neighbours" );
        for( size_t k = 0; k < r.w[i].size(); k++ )
            PBT_CHECK( c, same_bits( parsed.w[i][k], r.w[i][k] ), "weight {} of row {} is written as {:.17g}, it is {:.17g}", k, i, parsed.w[i][k], r.w[i][k] );
    }
    auto back = Seldon::NetworkGeneration::generate_from_file<Seldon::SimpleAgent>( d / "net" );
    same_network( c, back, r, "read back" );
    // writing what was read gives the same bytes
    Seldon::network_to_file( back, d / "net2" );
    c.check( slurp( d / "net2" ) == text, "writing the network that was read gives another file" );
    c.nontrivial( n_edges( r ) > 0 );
    c.label( "isolated last agent", !r.nbr.empty() && r.nbr.back().empty() );
    c.label( "isolated agent inside", r.nbr.size() > 1 && std::any_of( r.nbr.begin(), r.nbr.end() - 1, []( auto & x ) { return x.empty(); } ) );
    c.label( "no agents", r.nbr.empty() );
}

PBT_LARGE( roundtrip, 5000, 80, 2000 );

// Files of other origin: comments anywhere, other spacing, other notation of the same numbers
PBT_FACET( foreign, 60000, 1200000 )
{
    RawNet r = any_net( s );
    TempDir d( c, "f" );
    bool varied    = false;
    auto space     = [&]() -> std::string {
        size_t k = s.draw( 7 );
        varied   = varied || k >= 4;
        return k < 4 ? "" : k == 4 ? " " : k == 5 ? "  " : k == 6 ? "          " : "\t";
    };
    auto comment = [&]( std::string & t ) {
        static const std::vector<std::string> cs = { "#", "# idx_agent, n_neighbours_in, x", "#1, 1, 0, 0.5", "# ###, ,,,", "#\t", "##", "# 0, 2, 0, 1, 1.0, nan" };
        while( s.chance( 1, 5 ) )
        {
            t += s.pick( cs ) + "\n";
            varied = true;
        }
    };
    auto number = [&]( double x ) -> std::string {
        switch( s.draw( 3 ) )
        {
            case 0:
                return fmt::format( "{:.17g}", x );
            case 1:
                return fmt::format( "{:.16e}", x );
            case 2:
                return fmt::format( "{}", x );
            default:
                return ( x >= 0 && !std::signbit( x ) ? "+" : "" ) + fmt::format( "{:.20g}", x );
        }
    };
    std::string t;
    if( s.chance( 7, 8 ) )
        t += "# header\n";
    for( size_t i = 0; i < r.nbr.size(); i++ )
    {
        comment( t );
        t += fmt::format( "{}{},{}{}", i, space(), space(), r.nbr[i].size() );
        for( auto j : r.nbr[i] )
            t += "," + space() + std::to_string( j ) + space();
        for( auto x : r.w[i] )
            t += "," + space() + number( x ) + space();
        if( i + 1 < r.nbr.size() )
            t += "\n";
    }
    if( s.flip() )
        t += "\n";
    if( s.chance( 1, 5 ) )
        t += "\n# the end\n";
    c.show( t );
    spit( d / "net", t );
    auto net = Seldon::NetworkGeneration::generate_from_file<Seldon::SimpleAgent>( d / "net" );
    same_network( c, net, r, "read" );
    c.nontrivial( varied && n_edges( r ) > 0 );
}

PBT_LARGE( foreign, 5000, 80, 2000 );

// The agents do not influence the file, and other agent types read the same network
PBT_FACET( agent_types, 6000, 100000 )
{
    RawNet r = random_net( s, s.size( 1, 12 ), 5, true );
    c.show( show_net( r ) );
    TempDir d( c, "f" );
    auto a = make_network<Seldon::SimpleAgent>( r );
    auto b = make_network<Seldon::InertialAgent>( r );
    auto e = make_network<Seldon::DiscreteVectorAgent>( r );
    for( auto & x : a.agents )
        x.data.opinion = s.finite();
    for( auto & x : b.agents )
        x.data.velocity = s.finite();
    Seldon::network_to_file( a, d / "a" );
    Seldon::network_to_file( b, d / "b" );
    Seldon::network_to_file( e, d / "e" );
    c.check( slurp( d / "a" ) == slurp( d / "b" ) && slurp( d / "a" ) == slurp( d / "e" ), "the network file depends on the agents" );
    auto back = Seldon::NetworkGeneration::generate_from_file<Seldon::InertialAgent>( d / "a" );
    c.check( all_edges( back ) == all_edges( b ), "read back for another agent type: other edges" );
    c.nontrivial( n_edges( r ) > 0 );
}
