// Network: every history of operations agrees with a model that keeps plain edge lists.
#include "common.hpp"
using namespace H;
using Agent = Seldon::SimpleAgent;
using Net   = Seldon::Network<Agent>;
using Dir   = Net::EdgeDirection;

PBT_PROPERTY(
    "P06", "a case is a random history of up to 40 network operations with all observers compared to a model after each; "
           "non-trivial: at least three mutating operations and at least one edge at some point" );

namespace
{
struct Model
{
    std::vector<std::vector<size_t>> nbr;
    std::vector<std::vector<double>> w;
    bool incoming = true;

    void flip_lists()
    {
        std::vector<std::vector<size_t>> n2( nbr.size() );
        std::vector<std::vector<double>> w2( nbr.size() );
        for( size_t i = 0; i < nbr.size(); i++ )
            for( size_t k = 0; k < nbr[i].size(); k++ )
            {
                n2[nbr[i][k]].push_back( i );
                w2[nbr[i][k]].push_back( w[i][k] );
            }
        nbr = n2;
        w   = w2;
    }
};

void compare( const Net & net, Net & mut, const Model & m, const std::vector<double> & opinions, Ctx & c, const std::string & after )
{
    PBT_CHECK( c, net.n_agents() == m.nbr.size(), "{}: n_agents {} != {}", after, net.n_agents(), m.nbr.size() );
    size_t total = 0;
    for( size_t i = 0; i < m.nbr.size(); i++ )
    {
        auto got  = edges_of( net, i );
        auto want = sorted_edges( m.nbr[i], m.w[i] );
        PBT_CHECK( c, net.get_neighbours( i ).size() == net.get_weights( i ).size(), "{}: agent {} has {} neighbours but {} weights",
                   after, i, net.get_neighbours( i ).size(), net.get_weights( i ).size() );
        PBT_CHECK( c, got.size() == want.size(), "{}: agent {} has {} edges, expected {}", after, i, got.size(), want.size() );
        for( size_t k = 0; k < got.size(); k++ )
            PBT_CHECK( c, got[k] == want[k], "{}: agent {}: edge ({}, {}) instead of ({}, {})", after, i, got[k].first,
                       got[k].second, want[k].first, want[k].second );
        PBT_CHECK( c, net.n_edges( i ) == want.size(), "{}: n_edges({}) = {}, expected {}", after, i, net.n_edges( i ), want.size() );
        auto mm = mut.get_neighbours( i );
        PBT_CHECK( c, std::equal( mm.begin(), mm.end(), net.get_neighbours( i ).begin(), net.get_neighbours( i ).end() ),
                   "{}: const and mutable views differ", after );
        total += want.size();
    }
    PBT_CHECK( c, net.n_edges() == total, "{}: n_edges() = {}, expected {}", after, net.n_edges(), total );
    PBT_CHECK( c, ( net.direction() == Dir::Incoming ) == m.incoming, "{}: wrong edge direction flag", after );
    for( size_t i = 0; i < opinions.size(); i++ )
        PBT_CHECK( c, net.agents[i].data.opinion == opinions[i], "{}: agent data {} changed", after, i );
}

// integers, so that sums of weights are exact in any order
double weight( Src & s )
{
    return double( s.range( -1000, 1000 ) );
}
void weights( Src & s, std::vector<double> & v )
{
    if( v.size() > 60 )
    {
        std::mt19937_64 g( s.seed32() );
        for( auto & x : v )
            x = double( g() % 2001 ) - 1000;
        return;
    }
    for( auto & x : v )
        x = weight( s );
}
} // namespace

PBT_FACET( histories, 150000, 4000000 )
{
    bool big     = pbt::large_max();
    size_t n     = big ? ( s.flip() ? s.range( 1, 300 ) : s.big( 300, 70000 ) ) : s.chance( 1, 300 ) ? s.range( 60, 250 ) : s.size( 0, 40 );
    size_t width = big ? s.big( 60, 5000 ) : 8; // of the rows that are set at once
    Model m;
    m.nbr.resize( n );
    m.w.resize( n );
    std::vector<double> opinions( n );
    for( size_t i = 0; i < n; i++ )
        opinions[i] = double( i ) + 0.5;

    std::unique_ptr<Net> net;
    switch( s.draw( 2 ) )
    {
        case 0:
            net = std::make_unique<Net>( n );
            c.show( fmt::format( "Network({})\n", n ) );
            break;
        case 1:
        {
            net = std::make_unique<Net>( std::vector<Agent>( n ) );
            c.show( fmt::format( "Network(vector of {} agents)\n", n ) );
            break;
        }
        default:
        {
            RawNet r;
            r.nbr.resize( n );
            r.w.resize( n );
            if( big )
            {
                r = random_net( s, n, n < 300 ? std::max<size_t>( 6, width / 8 ) : 6, false );
                for( auto & row : r.w )
                    for( auto & x : row )
                        x = std::floor( 1000 * x );
            }
            else for( size_t i = 0; i < n; i++ )
                for( size_t k = s.size( 0, 6 ); k > 0; k-- )
                {
                    r.nbr[i].push_back( s.draw( n - 1 ) );
                    r.w[i].push_back( weight( s ) );
                }
            m.nbr      = r.nbr;
            m.w        = r.w;
            m.incoming = s.flip();
            auto a     = r.nbr;
            auto b     = r.w;
            net        = std::make_unique<Net>( std::move( a ), std::move( b ), m.incoming ? Dir::Incoming : Dir::Outgoing );
            c.show( fmt::format( "Network(lists, {})\n{}", m.incoming ? "in" : "out", show_net( r ) ) );
        }
    }
    for( size_t i = 0; i < n; i++ )
        net->agents[i].data.opinion = opinions[i];
    compare( *net, *net, m, opinions, c, "construction" );

    struct Kept
    {
        std::unique_ptr<Net> net;
        Model m;
        std::vector<double> opinions;
    };
    std::vector<Kept> kept;
    size_t steps = big ? s.range( 3, 12 ) : s.chance( 1, 100 ) ? s.range( 60, 200 ) : s.size( 0, 40 );
    size_t muts  = 0;
    bool edges   = false;
    for( size_t t = 0; t < steps; t++ )
    {
        std::string op;
        size_t k = n ? s.draw( 10 ) : 6 + s.draw( 4 );
        switch( k )
        {
            case 0:
            {
                size_t i = s.draw( n - 1 ), j = s.draw( n - 1 );
                double w = weight( s );
                op       = fmt::format( "push_back({}, {}, {})", i, j, w );
                net->push_back_neighbour_and_weight( i, j, w );
                m.nbr[i].push_back( j );
                m.w[i].push_back( w );
                break;
            }
            case 1:
            {
                size_t i = s.draw( n - 1 );
                std::vector<size_t> nb( s.size( 0, width ) );
                fill( s, nb, n );
                double w = weight( s );
                op       = fmt::format( "set_neighbours_and_weights({}, [{}], {})", i, fmt::join( nb, " " ), w );
                net->set_neighbours_and_weights( i, nb, w );
                m.nbr[i] = nb;
                m.w[i]   = std::vector<double>( nb.size(), w );
                break;
            }
            case 2:
            {
                size_t i = s.draw( n - 1 );
                std::vector<size_t> nb( s.size( 0, width ) );
                std::vector<double> ws( nb.size() );
                fill( s, nb, n );
                weights( s, ws );
                op = fmt::format( "set_neighbours_and_weights({}, [{}], [{}])", i, fmt::join( nb, " " ), fmt::join( ws, " " ) );
                net->set_neighbours_and_weights( i, nb, std::span<const double>( ws ) );
                m.nbr[i] = nb;
                m.w[i]   = ws;
                break;
            }
            case 3:
            {
                size_t i = s.draw( n - 1 );
                std::vector<double> ws( m.nbr[i].size() );
                weights( s, ws );
                // position k of the list keeps its neighbour: read the order from the network itself
                auto cur = net->get_neighbours( i );
                m.nbr[i].assign( cur.begin(), cur.end() );
                op = fmt::format( "set_weights({}, [{}])", i, fmt::join( ws, " " ) );
                net->set_weights( i, ws );
                m.w[i] = ws;
                break;
            }
            case 4:
            {
                // wrong sizes are refused, and nothing changes
                size_t i     = s.draw( n - 1 );
                size_t wrong = s.size( 0, 8 );
                if( wrong == m.nbr[i].size() )
                    wrong++;
                std::vector<double> ws( wrong, 7.0 );
                bool threw = false;
                if( s.flip() )
                {
                    op = fmt::format( "set_weights({}, {} weights for {} edges)", i, wrong, m.nbr[i].size() );
                    try
                    {
                        net->set_weights( i, ws );
                    }
                    catch( const std::exception & )
                    {
                        threw = true;
                    }
                }
                else
                {
                    std::vector<size_t> nb( s.size( 0, 8 ), i );
                    if( nb.size() == wrong )
                        nb.push_back( i );
                    op = fmt::format( "set_neighbours_and_weights({}, {} neighbours, {} weights)", i, nb.size(), wrong );
                    try
                    {
                        net->set_neighbours_and_weights( i, nb, std::span<const double>( ws ) );
                    }
                    catch( const std::exception & )
                    {
                        threw = true;
                    }
                }
                PBT_CHECK( c, threw, "{} did not throw", op );
                c.label( "refused" );
                break;
            }
            case 5:
            {
                // write through the mutable view
                size_t i = s.draw( n - 1 );
                auto ws  = net->get_weights( i );
                auto nb  = net->get_neighbours( i );
                m.nbr[i].assign( nb.begin(), nb.end() );
                m.w[i].assign( ws.begin(), ws.end() );
                op = fmt::format( "write through views of {}", i );
                if( !ws.empty() )
                {
                    size_t p = s.draw( ws.size() - 1 );
                    double w = weight( s );
                    ws[p]    = w;
                    m.w[i][p] = w;
                    if( s.flip() )
                    {
                        size_t j  = s.draw( n - 1 );
                        nb[p]     = j;
                        m.nbr[i][p] = j;
                    }
                }
                break;
            }
            case 6:
                op = "toggle_incoming_outgoing";
                net->toggle_incoming_outgoing();
                m.flip_lists();
                m.incoming = !m.incoming;
                break;
            case 7:
                op = "transpose";
                net->transpose();
                m.flip_lists();
                break;
            case 8:
                op = "switch_direction_flag";
                net->switch_direction_flag();
                m.incoming = !m.incoming;
                break;
            case 9:
            {
                op = "remove_double_counting";
                net->remove_double_counting();
                for( size_t i = 0; i < n; i++ )
                {
                    std::map<size_t, double> sum;
                    for( size_t q = 0; q < m.nbr[i].size(); q++ )
                        sum[m.nbr[i][q]] += m.w[i][q];
                    c.label( "doubles-removed", sum.size() < m.nbr[i].size() );
                    m.nbr[i].clear();
                    m.w[i].clear();
                    for( auto & [j, w] : sum )
                    {
                        m.nbr[i].push_back( j );
                        m.w[i].push_back( w );
                    }
                    // documented: sorted by index
                    auto nb = net->get_neighbours( i );
                    PBT_CHECK( c, std::is_sorted( nb.begin(), nb.end() ), "remove_double_counting: neighbours of {} not sorted", i );
                }
                break;
            }
            default:
                op = "clear";
                switch( s.draw( 6 ) )
                {
                    case 0:
                    case 1:
                        net->clear();
                        for( auto & x : m.nbr )
                            x.clear();
                        for( auto & x : m.w )
                            x.clear();
                        break;
                    case 2: // go on with a copy; the original stays and must keep its state
                    case 3:
                    {
                        op       = "copy";
                        auto cpy = std::make_unique<Net>( *net );
                        kept.push_back( { std::move( net ), m, opinions } );
                        net = std::move( cpy );
                        break;
                    }
                    case 4:
                        op = "move";
                        net = std::make_unique<Net>( std::move( *net ) );
                        break;
                    case 5: // over another network
                    {
                        op = "assign";
                        auto other = kept.empty() || s.flip() ? std::make_unique<Net>( s.size( 0, 50 ) ) : std::make_unique<Net>( *kept.back().net );
                        *other     = *net;
                        if( s.flip() )
                            kept.push_back( { std::move( net ), m, opinions } );
                        net = std::move( other );
                        break;
                    }
                    default:
                        op = "set agents";
                        for( size_t i = 0; i < std::min<size_t>( n, 300 ); i++ )
                            if( s.chance( 1, 4 ) )
                                net->agents[i].data.opinion = opinions[i] = weight( s );
                }
        }
        c.show( op + "\n" );
        c.label( op.substr( 0, op.find_first_of( "( " ) ) );
        muts += k != 4;
        compare( *net, *net, m, opinions, c, op );
        for( auto & x : m.nbr )
            edges = edges || !x.empty();
        if( kept.size() > 3 )
            kept.erase( kept.begin() );
        if( !kept.empty() )
            compare( *kept.back().net, *kept.back().net, kept.back().m, kept.back().opinions, c, op + ", on a copy; the original" );
    }
    for( auto & k : kept )
        compare( *k.net, *k.net, k.m, k.opinions, c, "at the end, of an earlier original" );
    c.nontrivial( muts >= 3 && edges );
}

PBT_LARGE( histories, 5000, 160, 6000 );

// Algebra of the table in the documentation: toggle, transpose and switch compose as an abelian group of involutions
PBT_FACET( algebra, 30000, 600000 )
{
    size_t n = s.count( 1, 60 );
    RawNet r = random_net( s, n, pbt::large_max() && s.flip() ? s.big( 10, 1000000 / n ) : 10, false );
    auto a   = make_network<Agent>( r );
    auto ref = all_edges( a );
    auto dir = a.direction();
    size_t t = s.size( 1, 12 );
    int tog = 0, tra = 0, swi = 0;
    for( size_t i = 0; i < t; i++ )
        switch( s.draw( 2 ) )
        {
            case 0:
                a.toggle_incoming_outgoing();
                tog++;
                break;
            case 1:
                a.transpose();
                tra++;
                break;
            default:
                a.switch_direction_flag();
                swi++;
        }
    c.show( fmt::format( "{} toggles, {} transposes, {} switches on n={}\n", tog, tra, swi, n ) );
    c.nontrivial( t >= 2 && a.n_edges() > 0 );
    // undo by the parities
    if( tog % 2 )
        a.toggle_incoming_outgoing();
    if( tra % 2 )
        a.transpose();
    if( swi % 2 )
        a.switch_direction_flag();
    c.check( a.direction() == dir, "direction flag not restored" );
    c.check( all_edges( a ) == ref, "edges not restored" );
    // toggle = transpose + switch
    auto x = a, y = a;
    x.toggle_incoming_outgoing();
    y.transpose();
    y.switch_direction_flag();
    c.check( all_edges( x ) == all_edges( y ) && x.direction() == y.direction(), "toggle differs from transpose + switch" );
    // an edge i<-j of weight w becomes j<-i of weight w
    std::multiset<std::tuple<size_t, size_t, double>> fwd, bwd;
    for( size_t i = 0; i < n; i++ )
    {
        for( auto & [j, w] : edges_of( a, i ) )
            fwd.insert( { i, j, w } );
        for( auto & [j, w] : edges_of( x, i ) )
            bwd.insert( { j, i, w } );
    }
    c.check( fwd == bwd, "toggled edges are not the reversed edges" );
}
PBT_LARGE( algebra, 70000, 40, 2000 );
