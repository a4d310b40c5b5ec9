// Fully connected networks and the periodic square lattice.
#include "common.hpp"
using namespace H;
using Agent = Seldon::SimpleAgent;
namespace NG = Seldon::NetworkGeneration;

PBT_PROPERTY( "P09", "a case is a topology with its size, weight and seed; non-trivial: at least two agents (four for the lattice)" );

PBT_FACET( fully_connected, 6000, 100000 )
{
    size_t n = s.chance( 1, 500 ) ? s.range( 200, 900 ) : s.size( 0, 60 );
    double w = s.finite();
    c.show( fmt::format( "n={} weight={}\n", n, w ) );
    bool dflt = s.chance( 1, 4 );
    auto net  = dflt ? NG::generate_fully_connected<Agent>( n ) : NG::generate_fully_connected<Agent>( n, w );
    if( dflt )
        w = 0.0;
    PBT_CHECK( c, net.n_agents() == n, "{} agents instead of {}", net.n_agents(), n );
    c.check( net.direction() == Seldon::Network<Agent>::EdgeDirection::Incoming, "not incoming" );
    for( size_t i = 0; i < n; i++ )
    {
        auto nb = net.get_neighbours( i );
        std::set<size_t> d( nb.begin(), nb.end() );
        PBT_CHECK( c, nb.size() == n && d.size() == n && *d.rbegin() == n - 1, "agent {}: neighbours [{}]", i, fmt::join( nb, " " ) );
        auto ws = net.get_weights( i );
        PBT_CHECK( c, ws.size() == n, "agent {}: {} weights", i, ws.size() );
        for( auto x : ws )
            PBT_CHECK( c, x == w, "agent {}: weight {} instead of {}", i, x, w );
    }
    c.nontrivial( n >= 2 );
}

PBT_FACET( fully_connected_random, 4000, 60000 )
{
    size_t n      = s.chance( 1, 400 ) ? s.range( 200, 900 ) : s.size( 0, 50 );
    uint32_t seed = s.seed32();
    c.show( fmt::format( "n={} seed={}\n", n, seed ) );
    std::mt19937 gen( seed );
    auto net = NG::generate_fully_connected<Agent>( n, gen );
    PBT_CHECK( c, net.n_agents() == n, "{} agents instead of {}", net.n_agents(), n );
    for( size_t i = 0; i < n; i++ )
    {
        auto nb = net.get_neighbours( i );
        std::set<size_t> d( nb.begin(), nb.end() );
        PBT_CHECK( c, nb.size() == n && d.size() == n && *d.rbegin() == n - 1, "agent {}: neighbours [{}]", i, fmt::join( nb, " " ) );
        auto ws = net.get_weights( i );
        PBT_CHECK( c, ws.size() == n, "agent {}: {} weights", i, ws.size() );
        double sum = 0;
        for( auto x : ws )
        {
            PBT_CHECK( c, x >= 0 && x <= 1, "agent {}: weight {}", i, x );
            sum += x;
        }
        PBT_CHECK( c, std::abs( sum - 1 ) < 1e-9, "agent {}: incoming weights sum to {}", i, sum );
        // a draw has 53 bits: equal ones come from a single draw
        std::vector<double> sorted( ws.begin(), ws.end() );
        std::sort( sorted.begin(), sorted.end() );
        PBT_CHECK( c, std::adjacent_find( sorted.begin(), sorted.end() ) == sorted.end(), "agent {}: two of its weights are the same", i );
        if( i > 0 && n >= 2 )
            PBT_CHECK( c, edges_of( net, i ) != edges_of( net, i - 1 ), "agents {} and {} got the same weights", i - 1, i );
    }
    c.nontrivial( n >= 2 );
    std::mt19937 gen2( seed );
    c.check( all_edges( NG::generate_fully_connected<Agent>( n, gen2 ) ) == all_edges( net ), "not a function of the generator's state" );
}

// The weights are uniform draws divided by their sum
PBT_FACET( random_weights, 40, 600 )
{
    size_t n      = s.chance( 1, 4 ) ? s.range( 9, 40 ) : s.range( 2, 8 );
    uint32_t seed = s.seed32();
    size_t a = s.chance( 1, 3 ) ? ( s.flip() ? 0 : n - 1 ) : s.draw( n - 1 ), b = ( a + 1 + s.draw( n - 2 ) ) % n, row = s.draw( n - 1 );
    c.show( fmt::format( "n={} seed={} ratio of weights {} and {} of agent {}\n", n, seed, a, b, row ) );
    c.nontrivial();
    stat_check( c, fmt::format( "weights {} and {} of agent {} of {}", a, b, row, n ), 6000, [&]( uint64_t N, uint64_t stream ) {
        std::mt19937 gen( seed + 7919 * stream );
        std::vector<double> r;
        for( uint64_t t = 0; t < N; t++ )
        {
            auto net = NG::generate_fully_connected<Agent>( n, gen );
            auto w   = net.get_weights( row );
            auto nb  = net.get_neighbours( row );
            double x = 0, y = 0;
            for( size_t q = 0; q < nb.size(); q++ )
            {
                x = nb[q] == a ? w[q] : x;
                y = nb[q] == b ? w[q] : y;
            }
            r.push_back( x / ( x + y ) );
        }
        return ks_p( r, []( double v ) { return v <= 0 ? 0.0 : v >= 1 ? 1.0 : v <= 0.5 ? v / ( 2 * ( 1 - v ) ) : 1 - ( 1 - v ) / ( 2 * v ); } );
    } );
}

// The same over all the agents of a network at once: deviations too small to show in single weights
PBT_FACET( random_weights_fine, 12, 150 )
{
    size_t n      = s.range( 10, 120 );
    uint32_t seed = s.seed32();
    size_t first  = s.draw( 1 );
    c.show( fmt::format( "n={} seed={} ratios of neighbouring weights from {}\n", n, seed, first ) );
    c.nontrivial();
    stat_check( c, fmt::format( "weights of {} agents", n ), 200000, [&]( uint64_t N, uint64_t stream ) {
        std::mt19937 gen( seed + 7919 * stream );
        std::vector<double> r;
        while( r.size() < N )
        {
            auto net = NG::generate_fully_connected<Agent>( n, gen );
            for( size_t i = 0; i < n; i++ )
            {
                auto w = net.get_weights( i );
                for( size_t q = first; q + 1 < w.size(); q += 2 )
                    r.push_back( w[q] / ( w[q] + w[q + 1] ) );
            }
        }
        return ks_p( r, []( double v ) { return v <= 0 ? 0.0 : v >= 1 ? 1.0 : v <= 0.5 ? v / ( 2 * ( 1 - v ) ) : 1 - ( 1 - v ) / ( 2 * v ); } );
    } );
}

PBT_FACET( lattice, 1500, 4000 )
{
    size_t L = s.chance( 1, 400 ) ? s.range( 100, 300 ) : s.size( 0, 40 );
    double w = s.finite();
    c.show( fmt::format( "edge length {} weight={}\n", L, w ) );
    bool dflt = s.chance( 1, 4 );
    auto net  = dflt ? NG::generate_square_lattice<Agent>( L ) : NG::generate_square_lattice<Agent>( L, w );
    if( dflt )
        w = 0;
    PBT_CHECK( c, net.n_agents() == L * L, "{} agents instead of {}", net.n_agents(), L * L );
    for( size_t y = 0; y < L; y++ )
        for( size_t x = 0; x < L; x++ )
        {
            // agent (x, y) has index x + L y
            std::vector<size_t> want{ ( x + 1 ) % L + L * y, ( x + L - 1 ) % L + L * y, x + L * ( ( y + 1 ) % L ), x + L * ( ( y + L - 1 ) % L ) };
            size_t i = x + L * y;
            auto nb  = net.get_neighbours( i );
            std::vector<size_t> got( nb.begin(), nb.end() );
            std::sort( got.begin(), got.end() );
            std::sort( want.begin(), want.end() );
            PBT_CHECK( c, got == want, "agent {} of the {}x{} lattice: neighbours [{}] instead of [{}]", i, L, L, fmt::join( got, " " ),
                       fmt::join( want, " " ) );
            auto ws = net.get_weights( i );
            PBT_CHECK( c, ws.size() == 4, "agent {}: {} weights", i, ws.size() );
            for( auto v : ws )
                PBT_CHECK( c, v == w, "agent {}: weight {} instead of {}", i, v, w );
        }
    // symmetric: transposing changes nothing
    auto e = all_edges( net );
    net.transpose();
    c.check( all_edges( net ) == e, "the lattice is not symmetric" );
    if( L >= 1 )
        c.check( net.strongly_connected_components().size() == 1, "the lattice is not connected" );
    c.nontrivial( L >= 2 );
    c.label( L == 1 ? "L=1" : L == 2 ? "L=2" : L == 0 ? "L=0" : "L>2" );
}

// A Deffuant simulation on a lattice has exactly this network, whatever the initial one was
PBT_FACET( deffuant_lattice, 1500, 20000 )
{
    size_t n = s.chance( 1, 30 ) ? s.range( 120, 700 ) : s.size( 1, 120 );
    Seldon::Config::DeffuantSettings d;
    d.use_network    = true;
    d.max_iterations = 0;
    auto o           = deffuant_options( s.seed32(), n, s.size( 0, 5 ), d );
    size_t L         = 0;
    while( ( L + 1 ) * ( L + 1 ) <= n )
        L++;
    c.show( fmt::format( "Deffuant on a lattice with {} agents\n", n ) );
    c.nontrivial( n >= 4 );
    try
    {
        Seldon::Simulation<Agent> sim( o, std::nullopt, std::nullopt );
        PBT_CHECK( c, L * L == n, "{} agents were accepted for a square lattice", n );
        auto want = NG::generate_square_lattice<Agent>( L );
        c.check( sim.network.n_agents() == n, "number of agents changed" );
        for( size_t i = 0; i < n; i++ )
        {
            std::multiset<size_t> a, b;
            for( auto j : sim.network.get_neighbours( i ) )
                a.insert( j );
            size_t x = i % L, y = i / L;
            for( size_t j : { ( x + 1 ) % L + L * y, ( x + L - 1 ) % L + L * y, x + L * ( ( y + 1 ) % L ), x + L * ( ( y + L - 1 ) % L ) } )
                b.insert( j );
            PBT_CHECK( c, a == b, "agent {}: neighbours [{}]", i, fmt::join( a, " " ) );
        }
        c.label( "square" );
    }
    catch( const std::runtime_error & e )
    {
        PBT_CHECK( c, L * L != n, "{} agents were refused: {}", n, e.what() );
        c.label( "not square" );
    }
}
