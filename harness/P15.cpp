// The velocity-Verlet step of the inertial model
#include "activity.hpp"
using namespace H;

PBT_PROPERTY( "P15", "a case is a model with settings, agents and a number of iterations, each compared with an independent integrator on the network "
                     "that the iteration left; non-trivial: some agent that is not a bot has an incoming edge" );

PBT_FACET( step, 60000, 1200000 )
{
    size_t n = s.chance( 1, 60 ) ? s.range( 40, 120 ) : s.count( 1, 20 );
    Seldon::Config::ActivityDrivenInertialSettings a;
    if( pbt::large_max() )
        gen_big_activity( s, a, n );
    else
        gen_activity( s, a, n );
    a.dt                   = s.flip() ? s.real( 0.01, 1.0 ) : s.logreal( 1e-4, 1.0 );
    a.friction_coefficient = s.chance( 1, 5 ) ? 0.0 : s.logreal( 1e-2, s.chance( 1, 6 ) ? 1e4 : 10 );
    uint32_t seed          = s.seed32();
    c.show( fmt::format( "n={} seed={} friction={} {}", n, seed, a.friction_coefficient, show_activity( a ) ) );
    auto sim = make_sim<Inertial>( seed, n, a );
    sim.model->initialize_iterations();
    warm_up( s, c, sim.network, *sim.model );
    auto & ag    = sim.network.agents;
    double range = s.chance( 1, 4 ) ? 20.0 : 2.0;
    if( s.chance( 2, 3 ) )
        for( size_t i = 0; i < n; i++ )
        {
            ag[i].data.opinion  = s.real( -range, range );
            ag[i].data.velocity = s.real( -range, range );
            ag[i].data.activity = s.chance( 1, 3 ) ? 1.0 : s.real( 0, 1 );
            if( a.use_reluctances || s.flip() )
                ag[i].data.reluctance = s.logreal( 0.1, 10 );
        }
    size_t steps = pbt::large_max() ? s.range( 1, 3 ) : n < 10 && s.chance( 1, 40 ) ? s.range( 20, 200 ) : s.size( 1, 10 );
    bool edges = false, ok[2] = { true, true };
    LD dt = a.dt, fr = a.friction_coefficient, K = a.K, alpha = a.alpha;
    for( size_t t = 0; t < steps; t++ )
    {
        std::vector<LD> x( n ), v( n );
        std::vector<double> rel( n ), act( n );
        for( size_t i = 0; i < n; i++ )
        {
            x[i]   = ag[i].data.opinion;
            v[i]   = ag[i].data.velocity;
            rel[i] = ag[i].data.reluctance;
            act[i] = ag[i].data.activity;
        }
        sim.model->iteration();
        std::vector<std::vector<Edge>> in( n );
        for( size_t i = 0; i < n; i++ )
        {
            auto nb = sim.network.get_neighbours( i );
            auto w  = sim.network.get_weights( i );
            PBT_CHECK( c, nb.size() == w.size(), "agent {} has {} neighbours and {} weights", i, nb.size(), w.size() );
            for( size_t k = 0; k < nb.size(); k++ )
                in[i].push_back( { nb[k], w[k] } );
            edges = edges || ( i >= a.n_bots && !in[i].empty() );
        }
        auto f0 = drift( { x, std::vector<LD>( n, 0 ) }, in, rel, K, alpha );
        std::string msg;
        for( int var = 0; var < 2; var++ ) // 1: the bots' positions are held within the step
        {
            if( !ok[var] )
                continue;
            Bounded y{ x, std::vector<LD>( n, 0 ) };
            for( size_t i = var == 1 ? a.n_bots : 0; i < n; i++ )
            {
                y.v[i]   = x[i] + v[i] * dt + ( f0.v[i] - fr * v[i] ) * dt * dt / 2;
                y.err[i] = f0.err[i] * dt * dt / 2 + 0x1p-50L * ( std::abs( x[i] ) + std::abs( v[i] ) * dt + ( std::abs( f0.v[i] ) + fr * std::abs( v[i] ) ) * dt * dt / 2 );
            }
            auto f1 = drift( y, in, rel, K, alpha );
            for( size_t i = a.n_bots; i < n && ok[var]; i++ )
            {
                LD den   = 1 + fr * dt / 2;
                LD w     = ( v[i] + dt / 2 * ( f0.v[i] - fr * v[i] + f1.v[i] ) ) / den;
                LD werr  = ( dt / 2 * ( f0.err[i] + f1.err[i] ) + 0x1p-50L * ( std::abs( v[i] ) + dt / 2 * ( std::abs( f0.v[i] ) + fr * std::abs( v[i] ) + std::abs( f1.v[i] ) ) ) ) / den;
                bool okx = std::abs( LD( ag[i].data.opinion ) - y.v[i] ) <= 16 * y.err[i] + 1e-300L;
                bool okv = std::abs( LD( ag[i].data.velocity ) - w ) <= 16 * werr + 1e-300L;
                if( !okx || !okv )
                {
                    ok[var] = false;
                    msg     = fmt::format( "iteration {}: agent {} went from ({:.17g}, velocity {:.17g}) to ({:.17g}, {:.17g}), expected ({:.17g}, {:.17g})", t, i, double( x[i] ),
                                       double( v[i] ), ag[i].data.opinion, ag[i].data.velocity, double( y.v[i] ), double( w ) );
                }
            }
            if( a.n_bots == 0 )
            {
                ok[1] = ok[0];
                break;
            }
        }
        c.check( ok[0] || ok[1], msg );
        for( size_t i = 0; i < n; i++ )
            PBT_CHECK( c, same_bits( ag[i].data.activity, act[i] ) && same_bits( ag[i].data.reluctance, rel[i] ), "iteration {}: activity or reluctance of agent {} changed", t, i );
    }
    c.nontrivial( edges );
    c.label( a.mean_weights ? "mean weights" : "probabilistic" );
    c.label( "bots", a.n_bots > 0 );
    c.label( "no friction", a.friction_coefficient == 0 );
}

PBT_LARGE( step, 3000, 60, 3000 );

// Without contacts this is a damped oscillator: its energy decays with friction, and without friction it stays bounded
PBT_FACET( oscillator, 5000, 100000 )
{
    Seldon::Config::ActivityDrivenInertialSettings a;
    size_t n = s.size( 1, 5 );
    a.m      = 0;
    a.dt     = s.real( 0.001, 0.2 );
    a.friction_coefficient = s.flip() ? 0.0 : s.real( 0.1, 3 );
    auto sim               = make_sim<Inertial>( s.seed32(), n, a );
    sim.model->initialize_iterations();
    warm_up( s, c, sim.network, *sim.model );
    auto & ag = sim.network.agents;
    std::vector<double> e0( n );
    for( size_t i = 0; i < n; i++ )
    {
        ag[i].data.opinion  = s.real( -2, 2 );
        ag[i].data.velocity = s.real( -2, 2 );
        e0[i]               = ag[i].data.opinion * ag[i].data.opinion + ag[i].data.velocity * ag[i].data.velocity;
    }
    c.show( fmt::format( "n={} dt={} friction={}\n", n, a.dt, a.friction_coefficient ) );
    size_t steps = s.range( 20, 400 );
    for( size_t t = 0; t < steps; t++ )
        sim.model->iteration();
    for( size_t i = 0; i < n; i++ )
    {
        double e = ag[i].data.opinion * ag[i].data.opinion + ag[i].data.velocity * ag[i].data.velocity;
        if( a.friction_coefficient == 0 )
            PBT_CHECK( c, close( e, e0[i], 0.03, 1e-12 ), "without friction the energy went from {} to {} in {} steps of {}", e0[i], e, steps, a.dt );
        else
        {
            // overdamped or not, the energy never grows beyond the discretisation error
            PBT_CHECK( c, e <= e0[i] * 1.03 + 1e-12, "with friction the energy grew from {} to {}", e0[i], e );
        }
    }
    c.nontrivial();
}
