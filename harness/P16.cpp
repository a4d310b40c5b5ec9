// Mean-field weights
#include "activity.hpp"
using namespace H;

PBT_PROPERTY( "P16", "a case is a mean-field model (plain or inertial) with settings, agents and a number of iterations; non-trivial: at least two agents and m > 0" );

namespace
{

// The weights for given opinions; `raised`: activities below 1 count as 1 (finding mean-field-activity)
template<typename S>
std::vector<std::vector<LD>> mean_field( const S & a, const std::vector<double> & x, const std::vector<double> & act, bool raised )
{
    size_t n = x.size();
    std::vector<std::vector<LD>> p( n, std::vector<LD>( n, 0 ) ), w = p;
    for( size_t i = 0; i < n; i++ )
    {
        std::vector<LD> hw( n, 0 );
        LD norm = 0;
        for( size_t j = 0; j < n; j++ )
            if( j != i )
            {
                hw[j] = std::pow( std::max<LD>( 1e-10, std::abs( x[i] - x[j] ) ), LD( -homophily_of( a, i ) ) );
                norm += hw[j];
            }
        for( size_t j = 0; j < n; j++ )
        {
            if( j == i )
                continue;
            LD om = hw[j] / norm, q = 0;
            for( size_t k = 1; k <= m_of( a, i ); k++ )
            {
                LD sign = ( k % 2 ) ? -1 : 1;
                q += ( om - sign * std::pow( om, LD( k + 1 ) ) ) / ( 1 + om );
            }
            p[i][j] = ( raised ? std::max( 1.0, act[i] ) : act[i] ) * q;
        }
    }
    for( size_t i = 0; i < n; i++ )
        for( size_t j = 0; j < n; j++ )
            w[i][j] = p[j][i] + ( 1 - p[j][i] ) * a.reciprocity * p[i][j];
    return w;
}

bool matches( const std::vector<std::vector<LD>> & want, const std::vector<std::vector<double>> & got, std::string & msg )
{
    for( size_t i = 0; i < want.size(); i++ )
        for( size_t j = 0; j < want.size(); j++ )
            if( !( std::abs( LD( got[i][j] ) - want[i][j] ) <= 1e-10L * ( 1 + std::abs( want[i][j] ) ) ) )
            {
                msg = fmt::format( "incoming weight of {} from {} is {:.17g}, expected {:.17g}", i, j, got[i][j], double( want[i][j] ) );
                return false;
            }
    return true;
}

template<typename M>
void weights( Src & s, Ctx & c, size_t steps, std::function<void( int )> seen = {} )
{
    size_t n = s.chance( 1, 60 ) ? s.range( 30, 80 ) : s.count( 1, 15 );
    typename M::Settings a;
    if( pbt::large_max() )
        gen_big_activity( s, a, n );
    else
        gen_activity( s, a, n );
    a.mean_weights = true;
    if( pbt::large_max() )
        a.m = (int)std::min<size_t>( a.m, 4000000 / ( n * n ) );
    else if( s.chance( 1, 5 ) )
        a.m = (int)s.range( 0, n + 2 ); // more than there are others to contact
    uint32_t seed = s.seed32();
    c.show( fmt::format( "{} n={} seed={} {}", M::inertial ? "inertial" : "plain", n, seed, show_activity( a ) ) );
    auto sim  = make_sim<M>( seed, n, a );
    auto & ag = sim.network.agents;
    sim.model->initialize_iterations();
    warm_up( s, c, sim.network, *sim.model );
    if( s.flip() )
        for( size_t i = 0; i < n; i++ )
            ag[i].data.activity = s.chance( 1, 3 ) ? double( s.draw( 1 ) ) : s.real( 0, 1 );
    bool ok_raised = true, ok_plain = true;
    for( size_t t = 0; t < steps; t++ )
    {
        if( s.chance( 1, 2 ) )
            for( size_t i = a.n_bots; i < n; i++ )
                ag[i].data.opinion = s.chance( 1, 4 ) ? double( s.range( -2, 2 ) ) : s.real( -5, 5 );
        std::vector<double> x( n ), act( n );
        for( size_t i = 0; i < n; i++ )
        {
            x[i]   = ag[i].data.opinion;
            act[i] = ag[i].data.activity;
        }
        sim.model->iteration();
        auto & net = sim.network;
        c.check( net.direction() == std::decay_t<decltype( net )>::EdgeDirection::Incoming, "the network does not hold incoming edges" );
        std::vector<std::vector<double>> got( n, std::vector<double>( n, 0 ) );
        for( size_t i = 0; i < n; i++ )
        {
            auto nb = net.get_neighbours( i );
            auto w  = net.get_weights( i );
            PBT_CHECK( c, nb.size() == n && w.size() == n, "iteration {}: agent {} has {} neighbours and {} weights of {} agents", t, i, nb.size(), w.size(), n );
            std::set<size_t> d( nb.begin(), nb.end() );
            PBT_CHECK( c, d.size() == n && *d.rbegin() == n - 1, "iteration {}: agent {} is not linked to every agent once", t, i );
            for( size_t k = 0; k < n; k++ )
            {
                PBT_CHECK( c, std::isfinite( w[k] ), "iteration {}: incoming weight of {} from {} is {}", t, i, nb[k], w[k] );
                got[i][nb[k]] = w[k];
            }
        }
        std::string m1, m2;
        ok_plain  = ok_plain && matches( mean_field( a, x, act, false ), got, m1 );
        ok_raised = ok_raised && matches( mean_field( a, x, act, true ), got, m2 );
        PBT_CHECK( c, ok_plain || ok_raised, "iteration {}: {}", t, m1.empty() ? m2 : m1 );
        for( size_t i = 0; i < n; i++ )
            PBT_CHECK( c, std::isfinite( ag[i].data.opinion ), "iteration {}: opinion of {} is {}", t, i, ag[i].data.opinion );
    }
    c.nontrivial( n >= 2 && a.m > 0 );
    c.label( M::inertial ? "inertial" : "plain" );
    c.label( "bots", a.n_bots > 0 );
    c.label( "one agent", n == 1 );
}

// Nothing is random after the start: the seed does not matter once the agents are set
template<typename M>
void no_randomness( Src & s, Ctx & c )
{
    size_t n = s.size( 1, 12 );
    typename M::Settings a;
    gen_activity( s, a, n );
    a.mean_weights = true;
    uint32_t s1 = s.seed32(), s2 = s.seed32();
    c.show( fmt::format( "{} n={} seeds={},{} {}", M::inertial ? "inertial" : "plain", n, s1, s2, show_activity( a ) ) );
    auto one = make_sim<M>( s1, n, a ), two = make_sim<M>( s2, n, a );
    two.network.agents = one.network.agents;
    one.model->initialize_iterations();
    two.model->initialize_iterations();
    size_t steps = s.size( 1, 10 );
    for( size_t t = 0; t < steps; t++ )
    {
        one.model->iteration();
        two.model->iteration();
        auto r1 = agent_rows( one.network ), r2 = agent_rows( two.network );
        for( size_t i = 0; i < n; i++ )
            for( size_t k = 0; k < r1[i].size(); k++ )
                PBT_CHECK( c, same_value( r1[i][k], r2[i][k] ), "iteration {}: agent {} is {:.17g} with one seed and {:.17g} with another", t, i, r1[i][k], r2[i][k] );
        c.check( all_edges( one.network ) == all_edges( two.network ), "the weights depend on the seed" );
    }
    c.nontrivial( n >= 2 && a.m > 0 );
}
} // namespace

PBT_FACET( weights, 40000, 1000000 )
{
    size_t steps = pbt::large_max() ? 1 : s.chance( 1, 60 ) ? s.range( 20, 60 ) : s.size( 1, 6 );
    if( s.chance( 1, 3 ) )
        weights<Inertial>( s, c, steps );
    else
        weights<Plain>( s, c, steps );
}
PBT_LARGE( weights, 700, 24, 1000 );
PBT_FACET( no_randomness, 10000, 200000 )
{
    if( s.chance( 1, 3 ) )
        no_randomness<Inertial>( s, c );
    else
        no_randomness<Plain>( s, c );
}

// The finding is pinned to its input: two agents with activities 0.25 and 0.5, homophily 0, m = 1, reciprocity 0
PBT_KNOWN( mean_field_activity, "mean-field-activity" )
{
    Seldon::Config::ActivityDrivenSettings a;
    a.mean_weights = true;
    a.m            = 1;
    a.homophily    = 0;
    a.reciprocity  = 0;
    auto sim       = make_sim<Plain>( 1, 2, a );
    sim.network.agents[0].data.activity = 0.25;
    sim.network.agents[1].data.activity = 0.5;
    sim.model->initialize_iterations();
    sim.model->iteration();
    double w = sim.network.get_weights( 0 )[1];
    what     = fmt::format( "agent 1 (activity 0.5, always contacting agent 0 when active) has mean-field weight {} instead of 0.5", w );
    return std::abs( w - 0.5 ) > 1e-9;
}
