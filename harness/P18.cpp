// Initial states
#include "scenario.hpp"
// BUILD: plain
using namespace H;

PBT_PROPERTY( "P18", "a case is a model with settings whose initial state is looked at, exactly or as a sample of thousands of agents; non-trivial: at least two agents" );

namespace
{
double power_cdf( double x, double eps, double g )
{
    return ( std::pow( eps, 1 - g ) - std::pow( x, 1 - g ) ) / ( std::pow( eps, 1 - g ) - 1 );
}
double true_mean( double eps, double g )
{
    return ( 1 - g ) / ( 2 - g ) * ( 1 - std::pow( eps, 2 - g ) ) / ( 1 - std::pow( eps, 1 - g ) );
}
// the formula of the code, which is the recorded finding power-law-mean
double found_mean( double eps, double g )
{
    return -( 1 - g ) / ( 2 - g ) * std::pow( eps, 2 - g ) / ( 1 - std::pow( eps, 1 - g ) );
}
// acklam + one Newton step is enough for scores
double norm_inv( double p )
{
    double lo = -9, hi = 9;
    for( int k = 0; k < 60; k++ )
    {
        double mid = ( lo + hi ) / 2;
        ( norm_cdf( mid ) < p ? lo : hi ) = mid;
    }
    return ( lo + hi ) / 2;
}
// correlation of two samples that should have correlation rho (both standard): Fisher's z
double corr_p( const std::vector<double> & a, const std::vector<double> & b, double rho )
{
    double n = double( a.size() ), ma = 0, mb = 0, saa = 0, sbb = 0, sab = 0;
    for( size_t i = 0; i < a.size(); i++ )
    {
        ma += a[i] / n;
        mb += b[i] / n;
    }
    for( size_t i = 0; i < a.size(); i++ )
    {
        saa += ( a[i] - ma ) * ( a[i] - ma );
        sbb += ( b[i] - mb ) * ( b[i] - mb );
        sab += ( a[i] - ma ) * ( b[i] - mb );
    }
    double r = std::clamp( sab / std::sqrt( saa * sbb ), -1 + 1e-12, 1 - 1e-12 );
    return two_sided_z( ( std::atanh( r ) - std::atanh( rho ) ) * std::sqrt( n - 3 ) );
}
double lag_p( std::vector<double> a )
{
    std::vector<double> b( a.begin() + 1, a.end() );
    a.pop_back();
    return corr_p( a, b, 0 );
}

template<typename M>
void activity_sample( Src & s, Ctx & c )
{
    typename M::Settings a;
    size_t n = s.range( 1500, 3000 );
    gen_activity( s, a, 20 );
    a.mean_activities = s.chance( 1, 5 );
    a.mean_weights    = s.chance( 1, 4 );
    a.n_bots          = s.chance( 1, 4 ) ? a.n_bots : 0;
    a.eps             = s.logreal( 1e-3, 0.7 );
    a.use_reluctances = s.chance( 2, 3 );
    if( a.use_reluctances )
    {
        a.reluctance_mean  = s.real( 0.2, 2 );
        a.reluctance_sigma = s.real( 0.1, 1 );
        a.reluctance_eps   = std::min( s.logreal( 1e-2, 1.5 ), a.reluctance_mean + 1.5 * a.reluctance_sigma );
        if( s.chance( 1, 6 ) ) // a tail only
            a.reluctance_eps = a.reluctance_mean + s.real( 1.5, 12 ) * a.reluctance_sigma;
        a.covariance_factor = s.chance( 1, 4 ) ? 0.0 : s.real( -0.9, 0.9 );
    }
    uint32_t seed  = s.seed32();
    bool every_lag = s.chance( 1, 4 );
    c.show( fmt::format( "{} n={} seed={} {}", M::inertial ? "inertial" : "plain", n, seed, show_activity( a ) ) );
    c.label( M::inertial ? "inertial" : "plain" );
    c.label( "correlations at every distance", every_lag );
    c.label( "reluctances", a.use_reluctances );
    c.label( "mean activities", a.mean_activities );
    c.nontrivial();
    auto above = [&]( double x ) { return norm_cdf( -( x - a.reluctance_mean ) / a.reluctance_sigma ); };
    auto fx    = []( double x ) { return std::clamp( ( x + 1 ) / 2, 0.0, 1.0 ); };
    auto fa    = [&]( double x ) { return power_cdf( x, a.eps, a.gamma ); };
    auto fr    = [&]( double x ) { return std::clamp( 1 - above( x ) / above( a.reluctance_eps ), 0.0, 1.0 ); };
    stat_check( c, "initial agents", n, [&]( uint64_t N, uint64_t stream ) {
        std::vector<double> x, act, rel, zx, za, zr, bot_rel;
        // mean_weights makes the network fully connected, and bots are few: several smaller systems
        std::vector<Seldon::Network<typename M::AgentT>> nets;
        size_t each = a.mean_weights || a.n_bots > 0 ? 50 : N;
        for( size_t k = 0; k * each < N; k++ )
            nets.push_back( make_sim<M>( seed + uint32_t( 977 * stream + 31 * k ), each + a.n_bots, a, 0 ).network );
        // what a bot is not configured to have (its reluctance) is drawn as for everybody else
        for( auto & net : nets )
            for( size_t b = 0; b < a.n_bots; b++ )
                bot_rel.push_back( net.agents[b].data.reluctance );
        for( size_t k = 0; k < nets.size() * each; k++ )
        {
            auto & d = nets[k / each].agents[a.n_bots + k % each].data;
            PBT_CHECK( c, d.opinion >= -1 && d.opinion <= 1, "initial opinion {}", d.opinion );
            if( !a.mean_activities )
                PBT_CHECK( c, d.activity >= a.eps * ( 1 - 1e-9 ) && d.activity <= 1 + 1e-9, "initial activity {} is not in [{},1]", d.activity, a.eps );
            if( a.use_reluctances )
                PBT_CHECK( c, d.reluctance >= a.reluctance_eps - 1e-6 && std::isfinite( d.reluctance ), "initial reluctance {} below {}", d.reluctance, a.reluctance_eps );
            else
                PBT_CHECK( c, d.reluctance == 1.0, "initial reluctance {} without reluctances", d.reluctance );
            x.push_back( d.opinion );
            act.push_back( d.activity );
            rel.push_back( d.reluctance );
            zx.push_back( d.opinion );
            za.push_back( norm_inv( fa( d.activity ) ) );
            zr.push_back( norm_inv( fr( d.reluctance ) ) );
        }
        std::vector<double> ps{ ks_p( x, fx ), lag_p( x ) };
        if( every_lag )
        {
            auto uniform = [&]( std::vector<double> z ) {
                for( auto & v : z )
                    v = ( v - 0.5 ) * std::sqrt( 12.0 );
                independence_ps( ps, z );
            };
            std::vector<double> ux, ua, ur;
            for( size_t i = 0; i < x.size(); i++ )
            {
                ux.push_back( fx( x[i] ) );
                ua.push_back( fa( act[i] ) );
                ur.push_back( fr( rel[i] ) );
            }
            uniform( ux );
            if( !a.mean_activities )
                uniform( ua );
            if( a.use_reluctances )
                uniform( ur );
        }
        if( !a.mean_activities )
        {
            ps.push_back( ks_p( act, fa ) );
            ps.push_back( corr_p( zx, za, 0 ) );
            ps.push_back( lag_p( za ) );
        }
        if( a.use_reluctances )
        {
            ps.push_back( ks_p( rel, fr ) );
            if( bot_rel.size() >= 40 )
                ps.push_back( ks_p( bot_rel, fr ) );
            if( !a.mean_activities )
                ps.push_back( corr_p( za, zr, a.covariance_factor ) );
            ps.push_back( corr_p( zx, zr, 0 ) );
            ps.push_back( lag_p( zr ) );
        }
        return bonferroni( ps );
    } );
}

template<typename M>
void activity_exact( Src & s, Ctx & c )
{
    typename M::Settings a;
    size_t n = s.size( 1, 20 );
    gen_activity( s, a, n );
    c.show( fmt::format( "{} n={} {}", M::inertial ? "inertial" : "plain", n, show_activity( a ) ) );
    auto sim  = make_sim<M>( s.seed32(), n, a );
    auto & ag = sim.network.agents;
    for( size_t i = 0; i < n; i++ )
    {
        auto & d = ag[i].data;
        if constexpr( M::inertial )
            PBT_CHECK( c, d.velocity == 0.0, "initial velocity {}", d.velocity );
        if( !a.use_reluctances )
            PBT_CHECK( c, d.reluctance == 1.0, "initial reluctance {} without reluctances", d.reluctance );
        else
            PBT_CHECK( c, d.reluctance >= a.reluctance_eps - 1e-6 && std::isfinite( d.reluctance ), "initial reluctance {} below {}", d.reluctance, a.reluctance_eps );
        if( i < a.n_bots )
            continue;
        PBT_CHECK( c, d.opinion >= -1 && d.opinion <= 1, "initial opinion {}", d.opinion );
        if( a.mean_activities )
        {
            double e = true_mean( a.eps, a.gamma ), f = found_mean( a.eps, a.gamma );
            PBT_CHECK( c, d.activity == ag[a.n_bots].data.activity, "mean_activities: agents {} and {} start with activities {} and {}", a.n_bots, i, ag[a.n_bots].data.activity, d.activity );
            PBT_CHECK( c, close( d.activity, e, 1e-9 ) || close( d.activity, f, 1e-9 ), "mean_activities: initial activity {:.17g}, the mean is {:.17g}", d.activity, e );
        }
        else
            PBT_CHECK( c, d.activity >= a.eps * ( 1 - 1e-9 ) && d.activity <= 1 + 1e-9, "initial activity {} is not in [{},1]", d.activity, a.eps );
    }
    c.nontrivial( n > 1 );
    c.label( "mean activities", a.mean_activities );
}
} // namespace

PBT_FACET( activity_sample, 5000, 60000 )
{
    if( s.flip() )
        activity_sample<Inertial>( s, c );
    else
        activity_sample<Plain>( s, c );
}
PBT_FACET( activity_exact, 40000, 500000 )
{
    if( s.flip() )
        activity_exact<Inertial>( s, c );
    else
        activity_exact<Plain>( s, c );
}
// DeGroot and scalar Deffuant: i/n
PBT_FACET( spread, 20000, 300000 )
{
    ScenarioGen g;
    g.kinds      = { DeGroot, DeffuantScalar };
    g.max_agents = s.chance( 1, 10 ) ? 300 : 20;
    auto sc      = gen_scenario( s, g );
    c.show( sc.text );
    Seldon::Simulation<Seldon::SimpleAgent> sim( sc.opt, std::nullopt, std::nullopt );
    size_t n = sc.opt.network_settings.n_agents;
    PBT_CHECK( c, sim.network.n_agents() == n, "{} agents, configured are {}", sim.network.n_agents(), n );
    for( size_t i = 0; i < n; i++ )
        PBT_CHECK( c, sim.network.agents[i].data.opinion == double( i ) / double( n ), "initial opinion of agent {} of {} is {}", i, n, sim.network.agents[i].data.opinion );
    c.nontrivial( n > 1 );
    c.label( kind_name( sc.kind ) );
}
PBT_FACET( vectors, 8000, 100000 )
{
    Seldon::Config::DeffuantSettings d;
    d.use_binary_vector = true;
    d.use_network       = s.flip();
    bool long_vector    = s.chance( 1, 8 );
    d.dim               = long_vector ? s.range( 33, 300 ) : s.size( 1, 40 );
    size_t L            = long_vector ? s.range( 4, 12 ) : s.range( 10, 30 ), n = L * L;
    uint32_t seed       = s.seed32();
    bool every_lag      = s.chance( 1, 6 );
    c.show( fmt::format( "n={} dim={} lattice={} seed={}\n", n, d.dim, d.use_network, seed ) );
    stat_check( c, "initial vectors", n, [&]( uint64_t N, uint64_t stream ) {
        size_t edge = size_t( std::ceil( std::sqrt( double( N ) ) ) ), cnt = edge * edge;
        Seldon::Simulation<Seldon::DiscreteVectorAgent> sim( deffuant_options( seed + uint32_t( 977 * stream ), cnt, 0, d ), std::nullopt, std::nullopt );
        std::vector<uint64_t> ones( d.dim, 0 ), pairs( 4, 0 ), lag( 4, 0 );
        uint64_t all = 0;
        std::vector<double> ps;
        for( size_t i = 0; i < cnt; i++ )
        {
            auto & o = sim.network.agents[i].data.opinion;
            PBT_CHECK( c, o.size() == d.dim, "vector of length {}, configured is {}", o.size(), d.dim );
            for( size_t k = 0; k < d.dim; k++ )
            {
                PBT_CHECK( c, o[k] == 0 || o[k] == 1, "entry {}", o[k] );
                ones[k] += uint64_t( o[k] );
                all += uint64_t( o[k] );
                if( k > 0 )
                    pairs[size_t( 2 * o[k - 1] + o[k] )]++;
                if( i > 0 )
                    lag[size_t( 2 * sim.network.agents[i - 1].data.opinion[k] + o[k] )]++;
            }
        }
        for( auto k : ones )
            ps.push_back( binom_p( k, cnt, 0.5 ) );
        ps.push_back( binom_p( all, cnt * d.dim, 0.5 ) );
        if( d.dim > 1 )
            ps.push_back( binom_p( pairs[0] + pairs[3], pairs[0] + pairs[1] + pairs[2] + pairs[3], 0.5 ) );
        ps.push_back( binom_p( lag[0] + lag[3], lag[0] + lag[1] + lag[2] + lag[3], 0.5 ) );
        if( every_lag || long_vector )
        {
            // all entries, agent by agent, from somewhere on
            std::vector<double> z;
            for( size_t i = seed % ( cnt / 2 + 1 ); i < cnt && z.size() < 6000; i++ )
                for( auto b : sim.network.agents[i].data.opinion )
                    z.push_back( 2.0 * double( b ) - 1.0 );
            independence_ps( ps, z );
        }
        return bonferroni( ps );
    } );
    c.nontrivial();
}

// The finding is pinned to its input
PBT_KNOWN( power_law_mean, "power-law-mean" )
{
    Seldon::Config::ActivityDrivenSettings a;
    a.mean_activities = true;
    a.eps             = 0.5;
    a.gamma           = 3;
    auto sim          = make_sim<Plain>( 1, 2, a );
    double got        = sim.network.agents[0].data.activity, want = true_mean( 0.5, 3 );
    what              = fmt::format( "eps 0.5, gamma 3: the common activity is {} instead of the mean {} of the power law on [0.5,1]", got, want );
    return !close( got, want, 1e-9 );
}
