// Deffuant interactions
#include "pairs.hpp"
using namespace H;

PBT_PROPERTY( "P19", "a case is a Deffuant model with given opinions, watched over iterations; non-trivial: some pair of agents is within the threshold and differs" );

namespace
{
using State = std::vector<double>;

struct Setup
{
    Seldon::Config::DeffuantSettings d;
    size_t n;
    uint32_t seed;
    size_t k = 0;
};
Seldon::Simulation<Seldon::SimpleAgent> make( const Setup & u, const State & x )
{
    Seldon::Simulation<Seldon::SimpleAgent> sim( deffuant_options( u.seed, u.n, u.k, u.d ), std::nullopt, std::nullopt );
    for( size_t i = 0; i < u.n; i++ )
        sim.network.agents[i].data.opinion = x[i];
    sim.model->initialize_iterations();
    return sim;
}
State state( const Seldon::Network<Seldon::SimpleAgent> & net )
{
    State x;
    for( auto & a : net.agents )
        x.push_back( a.data.opinion );
    return x;
}
} // namespace

// All sequences of n pairs, with numbers for which the arithmetic is exact
PBT_FACET( reachable, 40000, 1500000 )
{
    Setup u;
    u.d.use_network = s.chance( 1, 3 );
    u.n             = u.d.use_network ? 4 : s.chance( 1, 10 ) ? 5 : s.range( 1, 4 );
    u.d.mu          = s.pick( std::vector<double>{ 0.5, 0.25, 0.125, 0.375 } );
    // multiples of 1/16, so that differences equal to the threshold are common
    u.d.homophily_threshold = s.chance( 1, 3 ) ? 100.0 : double( s.range( 1, 20 ) ) / 16;
    u.seed                  = s.seed32();
    u.k                     = any_connections( s, u.n );
    State x( u.n );
    for( auto & v : x )
        v = double( s.range( -16, 16 ) ) / 16;
    c.show( fmt::format( "n={} lattice={} connections={} mu={} threshold={} seed={} x=[{}]\n", u.n, u.d.use_network, u.k, u.d.mu, u.d.homophily_threshold, u.seed, fmt::join( x, " " ) ) );
    std::vector<std::pair<size_t, size_t>> pairs;
    for( size_t i = 0; i < u.n; i++ )
        for( size_t j = i + 1; j < u.n; j++ )
            if( !u.d.use_network || ( i ^ j ) != 3 ) // on the 2x2 lattice the diagonals never meet
                pairs.push_back( { i, j } );
    auto sim     = make( u, x );
    warm_up( s, c, sim.network, *sim.model );
    size_t T     = s.size( 1, u.n > 4 ? 1 : 3 );
    bool nontriv = false;
    for( size_t t = 0; t < T; t++ )
    {
        std::set<State> cur{ x };
        for( size_t k = 0; k < u.n && !pairs.empty(); k++ )
        {
            std::set<State> next;
            for( auto & y : cur )
                for( auto [i, j] : pairs )
                {
                    auto z      = y;
                    double diff = y[i] - y[j];
                    if( std::abs( diff ) < u.d.homophily_threshold )
                    {
                        z[i] -= u.d.mu * diff;
                        z[j] += u.d.mu * diff;
                        nontriv = nontriv || diff != 0;
                    }
                    next.insert( z );
                }
            cur = std::move( next );
        }
        sim.model->iteration();
        auto got = state( sim.network );
        PBT_CHECK( c, cur.count( got ), "iteration {}: from [{}] to [{}], which no sequence of {} pairs reaches ({} states are reachable)", t, fmt::join( x, " " ), fmt::join( got, " " ), u.n, cur.size() );
        x = got;
    }
    c.nontrivial( nontriv );
    c.label( u.d.use_network ? "lattice" : fmt::format( "{} agents", u.n ) );
    c.label( "all within the threshold", u.d.homophily_threshold > 50 );
}

// Groups separated by gaps of at least the threshold never meet: each keeps its mean, range and order relative to the others
PBT_FACET( groups, 40000, 600000 )
{
    Setup u;
    u.d.use_network = s.chance( 1, 3 );
    if( u.d.use_network )
    {
        size_t L = pbt::large_max() ? s.range( 15, 140 ) : s.chance( 1, 12 ) ? s.range( 10, 20 ) : s.range( 2, 7 );
        u.n      = L * L;
    }
    else
        u.n = s.chance( 1, 12 ) ? s.range( 50, 400 ) : s.count( 2, 40 );
    u.d.mu                  = s.chance( 1, 3 ) ? 0.5 : s.real( 1e-3, 0.5 );
    u.d.homophily_threshold = s.logreal( 1e-2, 2 );
    u.seed                  = s.seed32();
    u.k                     = any_connections( s, u.n );
    State x( u.n );
    double range = s.logreal( 0.1, 100 );
    for( auto & v : x )
        v = s.real( -range, range );
    c.show( fmt::format( "n={} lattice={} connections={} mu={} threshold={} seed={} range={}\n", u.n, u.d.use_network, u.k, u.d.mu, u.d.homophily_threshold, u.seed, range ) );
    std::vector<size_t> order( u.n );
    std::iota( order.begin(), order.end(), 0 );
    std::sort( order.begin(), order.end(), [&]( size_t a, size_t b ) { return x[a] < x[b]; } );
    std::vector<size_t> group( u.n );
    size_t g = 0;
    for( size_t k = 1; k < u.n; k++ )
    {
        // a rounding error of the difference must not matter
        if( x[order[k]] - x[order[k - 1]] > u.d.homophily_threshold * ( 1 + 1e-9 ) )
            g++;
        group[order[k]] = g;
    }
    struct Range
    {
        double lo = 1e300, hi = -1e300, sum = 0, sq = 0;
        size_t size = 0;
    };
    auto ranges = [&]( const State & y ) {
        std::vector<Range> r( g + 1 );
        for( size_t i = 0; i < u.n; i++ )
        {
            auto & q = r[group[i]];
            q.lo     = std::min( q.lo, y[i] );
            q.hi     = std::max( q.hi, y[i] );
            q.sum += y[i];
            q.sq += y[i] * y[i];
            q.size++;
        }
        return r;
    };
    std::unique_ptr<Seldon::Simulation<Seldon::SimpleAgent>> whole;
    std::optional<BareDeffuant> bare;
    if( pbt::large_max() )
    {
        bare.emplace( u.seed, u.n, u.d );
        for( size_t i = 0; i < u.n; i++ )
            bare->net->agents[i].data.opinion = x[i];
    }
    else
        whole.reset( new Seldon::Simulation<Seldon::SimpleAgent>( make( u, x ) ) ); // never moved: the model refers to it
    auto & net   = bare ? *bare->net : whole->network;
    auto & model = bare ? *bare->model : *whole->model;
    warm_up( s, c, net, model );
    auto first = ranges( x ), before = first;
    size_t T   = pbt::large_max() ? s.range( 1, 5 ) : s.chance( 1, 40 ) ? s.range( 20, 200 ) : s.size( 1, 12 );
    double tol = 1e-12 * range;
    bool moved = false;
    for( size_t t = 0; t < T; t++ )
    {
        model.iteration();
        auto y     = state( net );
        auto after = ranges( y );
        for( size_t k = 0; k <= g; k++ )
        {
            PBT_CHECK( c, after[k].lo >= before[k].lo - tol && after[k].hi <= before[k].hi + tol, "iteration {}: the range of a group of {} grew from [{},{}] to [{},{}]", t, after[k].size, before[k].lo,
                       before[k].hi, after[k].lo, after[k].hi );
            PBT_CHECK( c, std::abs( after[k].sum - first[k].sum ) <= tol * double( 8 * u.n * ( t + 1 ) ), "iteration {}: the sum of a group of {} went from {:.17g} to {:.17g}", t, after[k].size, first[k].sum,
                       after[k].sum );
            PBT_CHECK( c, after[k].sq <= before[k].sq + tol * range * double( 8 * u.n ), "iteration {}: the spread of a group of {} grew", t, after[k].size );
            if( after[k].size == 1 )
                PBT_CHECK( c, after[k].lo == first[k].lo, "iteration {}: an agent moved although every other is beyond the threshold", t );
        }
        moved  = moved || y != x;
        before = after;
    }
    c.nontrivial( moved );
    c.label( "several groups", g > 0 );
    c.label( "lattice", u.d.use_network );
}

PBT_LARGE( groups, 6000, 48, 2000 );

// Two agents: the distance shrinks by (1 - 2 mu) twice per iteration, for any mu and any numbers
PBT_FACET( two, 30000, 400000 )
{
    Setup u;
    u.n                     = 2;
    u.d.mu                  = s.real( 0.001, 0.5 );
    u.d.homophily_threshold = s.logreal( 1e-3, 10 );
    u.seed                  = s.seed32();
    State x{ s.real( -3, 3 ), s.real( -3, 3 ) };
    auto sim = make( u, x );
    c.show( fmt::format( "mu={} threshold={} x=[{}]\n", u.d.mu, u.d.homophily_threshold, fmt::join( x, " " ) ) );
    warm_up( s, c, sim.network, *sim.model );
    for( size_t t = 0, T = s.size( 1, 20 ); t < T; t++ )
    {
        sim.model->iteration();
        for( int k = 0; k < 2; k++ )
        {
            double d = x[0] - x[1];
            if( std::abs( std::abs( d ) - u.d.homophily_threshold ) < 1e-12 )
                return; // too close to call after rounding
            if( std::abs( d ) < u.d.homophily_threshold )
            {
                x[0] -= u.d.mu * d;
                x[1] += u.d.mu * d;
                c.nontrivial( d != 0 );
            }
        }
        auto y = state( sim.network );
        for( int i = 0; i < 2; i++ )
            PBT_CHECK( c, std::abs( y[i] - x[i] ) <= 1e-14 * double( t + 2 ) * 8, "iteration {}: opinion {} is {:.17g}, expected {:.17g}", t, i, y[i], x[i] );
    }
}

// Large systems: the number of interactions of an iteration is n
PBT_FACET( number, 16, 300 )
{
    large_deffuant( s, c, s.flip(), 50 );
}
