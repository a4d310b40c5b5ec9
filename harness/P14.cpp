// The Runge-Kutta step of the activity-driven model
// BUILD: archive
#include "activity.hpp"
using namespace H;

PBT_PROPERTY( "P14", "a case is a model with settings, agents and a number of iterations, each compared with an independent integrator on the network "
                     "that the iteration left; non-trivial: some agent that is not a bot has an incoming edge" );

namespace
{
// one step; `moving`: the bots' opinions move within the step, otherwise they are held
Bounded rk4( const std::vector<double> & x0, const std::vector<std::vector<Edge>> & in, const std::vector<double> & rel, LD K, LD alpha, LD dt, size_t n_bots, bool moving )
{
    size_t n   = x0.size();
    auto slope = [&]( const Bounded & x ) {
        auto k = drift( x, in, rel, K, alpha );
        for( size_t i = 0; i < n_bots && !moving; i++ )
            k.v[i] = k.err[i] = 0;
        return k;
    };
    auto step = [&]( const Bounded & k, LD h ) {
        Bounded x = k;
        for( size_t i = 0; i < n; i++ )
        {
            x.v[i]   = x0[i] + h * k.v[i];
            x.err[i] = h * k.err[i] + 0x1p-51L * ( std::abs( x0[i] ) + h * std::abs( k.v[i] ) );
        }
        return x;
    };
    Bounded start{ std::vector<LD>( x0.begin(), x0.end() ), std::vector<LD>( n, 0 ) };
    auto k1 = slope( start );
    auto k2 = slope( step( k1, dt / 2 ) );
    auto k3 = slope( step( k2, dt / 2 ) );
    auto k4 = slope( step( k3, dt ) );
    Bounded r = start;
    for( size_t i = 0; i < n; i++ )
    {
        r.v[i]   = x0[i] + dt / 6 * ( k1.v[i] + 2 * k2.v[i] + 2 * k3.v[i] + k4.v[i] );
        r.err[i] = dt / 6 * ( k1.err[i] + 2 * k2.err[i] + 2 * k3.err[i] + k4.err[i] )
                   + 0x1p-50L * ( std::abs( x0[i] ) + dt / 6 * ( std::abs( k1.v[i] ) + 2 * std::abs( k2.v[i] ) + 2 * std::abs( k3.v[i] ) + std::abs( k4.v[i] ) ) );
    }
    return r;
}
} // namespace

PBT_FACET( step, 60000, 1200000 )
{
    size_t n = s.chance( 1, 60 ) ? s.range( 40, 120 ) : s.count( 1, 20 );
    Seldon::Config::ActivityDrivenSettings a;
    if( pbt::large_max() )
        gen_big_activity( s, a, n );
    else
        gen_activity( s, a, n );
    a.dt          = s.flip() ? s.real( 0.01, 1.0 ) : s.logreal( 1e-4, 1.0 ); // large steps tell the integrators apart
    uint32_t seed = s.seed32();
    c.show( fmt::format( "n={} seed={} {}", n, seed, show_activity( a ) ) );
    auto sim = make_sim<Plain>( seed, n, a );
    sim.model->initialize_iterations();
    warm_up( s, c, sim.network, *sim.model );
    double range = s.chance( 1, 4 ) ? 20.0 : 2.0;
    bool edges   = false;
    auto & ag    = sim.network.agents;
    if( s.flip() )
        for( size_t i = 0; i < n; i++ )
        {
            ag[i].data.opinion  = s.real( -range, range );
            ag[i].data.activity = s.chance( 1, 3 ) ? 1.0 : s.real( 0, 1 );
            if( a.use_reluctances || s.flip() )
                ag[i].data.reluctance = s.logreal( 0.1, 10 );
        }
    size_t steps = pbt::large_max() ? s.range( 1, 3 ) : n < 10 && s.chance( 1, 40 ) ? s.range( 20, 200 ) : s.size( 1, 10 );
    bool ok[2]   = { true, true };
    for( size_t t = 0; t < steps; t++ )
    {
        auto before = agent_rows( sim.network );
        std::vector<double> x( n ), rel( n );
        for( size_t i = 0; i < n; i++ )
        {
            x[i]   = ag[i].data.opinion;
            rel[i] = ag[i].data.reluctance;
        }
        sim.model->iteration();
        std::vector<std::vector<Edge>> in( n );
        for( size_t i = 0; i < n; i++ )
        {
            auto nb = sim.network.get_neighbours( i );
            auto w  = sim.network.get_weights( i );
            PBT_CHECK( c, nb.size() == w.size(), "agent {} has {} neighbours and {} weights", i, nb.size(), w.size() );
            for( size_t k = 0; k < nb.size(); k++ )
                in[i].push_back( { nb[k], w[k] } );
            edges = edges || ( i >= a.n_bots && !in[i].empty() );
        }
        std::string msg;
        for( int v = 0; v < 2; v++ )
        {
            if( !ok[v] )
                continue;
            auto want = rk4( x, in, rel, a.K, a.alpha, a.dt, a.n_bots, v == 0 );
            for( size_t i = a.n_bots; i < n && ok[v]; i++ )
            {
                if( !( std::abs( LD( ag[i].data.opinion ) - want.v[i] ) <= 16 * want.err[i] + 1e-300L ) )
                {
                    ok[v] = false;
                    msg   = fmt::format( "iteration {}: agent {} moved from {:.17g} to {:.17g}, expected {:.17g}", t, i, x[i], ag[i].data.opinion, double( want.v[i] ) );
                }
            }
            if( a.n_bots == 0 )
            {
                ok[1] = ok[0];
                break;
            }
        }
        c.check( ok[0] || ok[1], msg );
        for( size_t i = 0; i < n; i++ )
            PBT_CHECK( c, same_bits( ag[i].data.activity, before[i][1] ) && same_bits( ag[i].data.reluctance, before[i][2] ),
                       "iteration {}: activity or reluctance of agent {} changed", t, i );
    }
    c.nontrivial( edges );
    c.label( a.mean_weights ? "mean weights" : "probabilistic" );
    c.label( "bots", a.n_bots > 0 );
    c.label( "reluctances", a.use_reluctances );
}

PBT_LARGE( step, 3000, 60, 3000 );

// Without contacts the opinions decay by the Runge-Kutta polynomial of exp(-dt)
PBT_FACET( decay, 10000, 200000 )
{
    size_t n = s.size( 1, 12 );
    Seldon::Config::ActivityDrivenSettings a;
    gen_activity( s, a, n, { .allow_mean_weights = false, .allow_bots = false } );
    a.dt     = s.real( 0.001, 1.5 );
    bool how = s.flip();
    if( how )
        a.m = 0;
    else
        a.K = 0;
    auto sim = make_sim<Plain>( s.seed32(), n, a );
    c.show( fmt::format( "n={} {}", n, show_activity( a ) ) );
    sim.model->initialize_iterations();
    double h = a.dt, poly = 1 - h + h * h / 2 - h * h * h / 6 + h * h * h * h / 24;
    std::vector<double> x( n );
    for( size_t i = 0; i < n; i++ )
        x[i] = sim.network.agents[i].data.opinion = s.real( -5, 5 );
    size_t steps = s.size( 1, 20 );
    for( size_t t = 0; t < steps; t++ )
    {
        sim.model->iteration();
        for( size_t i = 0; i < n; i++ )
        {
            x[i] *= poly;
            PBT_CHECK( c, close( sim.network.agents[i].data.opinion, x[i], 1e-11, 1e-300 ), "iteration {}: opinion {:.17g} without contacts, expected {:.17g}", t,
                       sim.network.agents[i].data.opinion, x[i] );
        }
    }
    c.nontrivial();
}
