// DOT export
#include "common.hpp"
using namespace H;

PBT_PROPERTY( "P30", "a case is a network; non-trivial: at least one edge" );

PBT_FACET( dot, 60000, 1200000 )
{
    size_t n = s.chance( 1, 200 ) ? s.range( 500, 3000 ) : s.count( 0, 25 );
    RawNet r = random_net( s, n, pbt::large_max() && s.flip() ? s.big( 10, 1000000 / n ) : n < 100 && s.chance( 1, 100 ) ? 700 : s.chance( 1, 20 ) ? 40 : 4, true );
    c.show( show_net( r ) );
    TempDir d( c, "f" );
    auto net = make_network<Seldon::SimpleAgent>( r );
    if( s.flip() )
        net.toggle_incoming_outgoing();
    if( s.chance( 1, 8 ) )
        spit( d / "net.dot", std::string( 20000, 'y' ) );
    Seldon::network_to_dot_file( net, d / "net.dot" );
    auto ls = lines_of( slurp( d / "net.dot" ) );
    PBT_CHECK( c, ls.size() == n + 2, "{} lines for {} agents", ls.size(), n );
    c.check( trim( ls.front() ) == "digraph G {", "the first line is not 'digraph G {'" );
    c.check( trim( ls.back() ) == "}", "the last line is not '}'" );
    size_t edges = 0;
    for( size_t i = 0; i < n; i++ )
    {
        const auto & l = ls[i + 1];
        auto arrow     = l.find( "<-" );
        c.check( arrow != std::string::npos, "no arrow in line: " + l );
        PBT_CHECK( c, to_index( l.substr( 0, arrow ), c ) == i, "line {} is for agent {}", i, l );
        auto rest = trim( l.substr( arrow + 2 ) );
        c.check( rest.size() >= 2 && rest.front() == '{' && rest.back() == '}', "no list in braces: " + l );
        auto inner = trim( rest.substr( 1, rest.size() - 2 ) );
        std::vector<size_t> got;
        if( !inner.empty() )
            for( auto & f : split( inner, ',' ) )
                got.push_back( to_index( f, c ) );
        auto nb = net.get_neighbours( i );
        c.check( got == std::vector<size_t>( nb.begin(), nb.end() ), "agent " + std::to_string( i ) + " is written as: " + l );
        edges += got.size();
    }
    c.nontrivial( edges > 0 );
    c.label( edges ? "edges" : "no edges" );
    c.label( "isolated agent", std::any_of( r.nbr.begin(), r.nbr.end(), []( auto & x ) { return x.empty(); } ) );
}
PBT_LARGE( dot, 40000, 60, 2000 );
