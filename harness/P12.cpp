// Contact networks of the probabilistic activity-driven models
#include "activity.hpp"
using namespace H;

PBT_PROPERTY( "P12", "a case is a model with settings, agents and a history of iterations; non-trivial: at least one edge was seen" );

namespace
{
template<typename M>
void contacts( Src & s, Ctx & c )
{
    size_t n = s.chance( 1, 40 ) ? s.range( 40, 200 ) : s.count( 1, 25 );
    typename M::Settings a;
    if( pbt::large_max() )
        gen_big_activity( s, a, n, false );
    else
        gen_activity( s, a, n, { .allow_mean_weights = false } );
    if constexpr( M::inertial )
        a.friction_coefficient = s.real( 0, 3 );
    if( s.chance( 1, pbt::large_max() ? 12 : 4 ) )
        a.m = int( n + s.draw( 5 ) ) - 1; // all others, or more than there are
    if( s.chance( 1, 2 ) )
        a.reciprocity = double( s.draw( 1 ) );
    uint32_t seed = s.seed32();
    c.show( fmt::format( "{} n={} seed={} {}", M::inertial ? "inertial" : "plain", n, seed, show_activity( a ) ) );
    auto sim = make_sim<M>( seed, n, a, s.size( 0, 5 ) );
    sim.model->initialize_iterations();
    warm_up( s, c, sim.network, *sim.model );
    size_t steps = pbt::large_max() ? s.range( 1, 2 ) : s.chance( 1, 40 ) ? s.range( 20, 150 ) : s.size( 1, 12 ), seen = 0;
    for( size_t t = 0; t < steps; t++ )
    {
        // the activities are set to the extremes now and then, and the opinions to anything
        for( size_t i = 0; i < n; i++ )
        {
            auto & d = sim.network.agents[i].data;
            if( s.chance( 1, 2 ) )
                d.activity = s.chance( 1, 3 ) ? s.real( 0, 1 ) : double( s.draw( 1 ) );
            if( i >= a.n_bots && s.chance( 1, 4 ) )
                d.opinion = s.chance( 1, 2 ) ? double( s.range( -2, 2 ) ) : s.real( -5, 5 );
        }
        std::vector<double> act( n );
        for( size_t i = 0; i < n; i++ )
            act[i] = sim.network.agents[i].data.activity;
        sim.model->iteration();
        auto & net = sim.network;
        PBT_CHECK( c, net.n_agents() == n, "iteration {}: {} agents, there were {}", t, net.n_agents(), n );
        c.check( net.direction() == std::decay_t<decltype( net )>::EdgeDirection::Incoming, "the network does not hold incoming edges" );
        size_t total = 0;
        for( size_t i = 0; i < n; i++ )
        {
            auto nb = net.get_neighbours( i );
            auto w  = net.get_weights( i );
            PBT_CHECK( c, nb.size() == w.size(), "iteration {}: agent {} has {} neighbours and {} weights", t, i, nb.size(), w.size() );
            std::set<size_t> distinct( nb.begin(), nb.end() );
            PBT_CHECK( c, distinct.size() == nb.size(), "iteration {}: agent {} has an edge twice: {}", t, i, fmt::join( nb, " " ) );
            PBT_CHECK( c, !distinct.count( i ), "iteration {}: agent {} has an edge to itself", t, i );
            for( auto j : nb )
                PBT_CHECK( c, j < n, "iteration {}: neighbour {} of {} agents", t, j, n );
            for( auto x : w )
                PBT_CHECK( c, x == 1.0, "iteration {}: an edge of weight {}", t, x );
            total += nb.size();
        }
        seen += total;
        auto adj = adjacency( net );
        size_t pairs = 0, possible = 0;
        for( size_t i = 0; i < n; i++ )
        {
            size_t m = std::min( m_of( a, i ), n - 1 ), out = 0, one_way = 0, partners = 0;
            for( size_t j = 0; j < n; j++ )
            {
                out += adj[i][j];
                one_way += adj[i][j] && !adj[j][i];
                partners += adj[i][j] || adj[j][i];
                pairs += j > i && ( adj[i][j] || adj[j][i] );
            }
            possible += act[i] > 0 ? m : 0;
            // a one-way edge i -> j means that i contacted j
            PBT_CHECK( c, one_way <= ( act[i] > 0 ? m : 0 ), "iteration {}: agent {} with activity {} and m={} has {} one-way contacts", t, i, act[i], m, one_way );
            if( act[i] >= 1 )
                PBT_CHECK( c, partners >= m, "iteration {}: agent {} is always active with m={} and has only {} partners", t, i, m, partners );
            if( a.reciprocity == 0.0 )
            {
                // the out-edges are exactly the contacts
                PBT_CHECK( c, out == m || ( out == 0 && act[i] < 1 ), "iteration {}: agent {} (activity {}) contacted {} agents, m={}", t, i, act[i], out, m );
                if( act[i] == 0 )
                    PBT_CHECK( c, out == 0, "iteration {}: agent {} has activity 0 and contacted {} agents", t, i, out );
            }
            if( a.reciprocity == 1.0 )
                PBT_CHECK( c, one_way == 0, "iteration {}: with reciprocity 1, {} contacts of agent {} are one-way", t, one_way, i );
        }
        PBT_CHECK( c, pairs <= possible, "iteration {}: {} pairs are in contact, but at most {} contacts were possible", t, pairs, possible );
    }
    c.nontrivial( seen > 0 );
    c.label( M::inertial ? "inertial" : "plain" );
    c.label( "bots", a.n_bots > 0 );
    c.label( "reciprocity 0", a.reciprocity == 0.0 );
    c.label( "reciprocity 1", a.reciprocity == 1.0 );
    c.label( "m >= n-1", size_t( a.m ) + 1 >= n );
}
} // namespace

PBT_FACET( contacts, 40000, 800000 )
{
    if( s.flip() )
        contacts<Inertial>( s, c );
    else
        contacts<Plain>( s, c );
}
PBT_LARGE( contacts, 1500, 80, 3000 );
