// DeGroot: one iteration is the synchronous linear map of the weighted network.
#include "common.hpp"
using namespace H;
using Agent = Seldon::SimpleAgent;
using Net   = Seldon::Network<Agent>;

PBT_PROPERTY( "P10", "a case is a weighted network (file-like, arbitrary real weights or row-stochastic), opinions and a number "
                     "of iterations; non-trivial: an agent with a neighbour other than itself and at least one iteration" );

namespace
{
Seldon::Config::DeGrootSettings settings( int max_it, double tol )
{
    Seldon::Config::DeGrootSettings d;
    d.max_iterations  = max_it;
    d.convergence_tol = tol;
    return d;
}
bool has_neighbour( const RawNet & r )
{
    for( size_t i = 0; i < r.nbr.size(); i++ )
        for( auto j : r.nbr[i] )
            if( j != i )
                return true;
    return false;
}
} // namespace

PBT_FACET( linear_map, 60000, 1500000 )
{
    size_t n   = s.chance( 1, 80 ) ? s.range( 60, 300 ) : s.count( 1, 40 );
    size_t deg = pbt::large_max() && s.flip() ? s.big( 10, 1000000 / n ) : 10;
    bool st    = s.flip();
    RawNet r   = st ? stochastic_net( s, n, deg ) : random_net( s, n, deg, false );
    auto net = make_network<Agent>( r );
    // the agents may come from anywhere: the model gives them their initial opinions
    if( s.flip() )
        for( auto & a : net.agents )
            a.data.opinion = s.real( -5, 5 );
    Seldon::DeGrootModel model( settings( 1000, 0.0 ), net );
    std::vector<long double> x( n );
    // some start from the model's own initial opinions, some from others
    bool own = s.chance( 1, 4 );
    for( size_t i = 0; i < n; i++ )
    {
        if( own )
            PBT_CHECK( c, close( net.agents[i].data.opinion, double( i ) / double( n ), 1e-15 ), "initial opinion {} of agent {} of {}",
                       net.agents[i].data.opinion, i, n );
        else
            net.agents[i].data.opinion = s.real( -5, 5 );
        x[i] = net.agents[i].data.opinion;
    }
    model.initialize_iterations();
    warm_up( s, c, net, model );
    size_t made  = model.n_iterations();
    size_t steps = pbt::large_max() ? s.range( 1, 4 ) : s.chance( 1, 60 ) ? s.range( 20, 120 ) : s.size( 0, 12 );
    c.show( fmt::format( "n={} {} steps={} own={}\n{}", n, st ? "stochastic" : "arbitrary weights", steps, own, show_net( r ) ) );
    auto ref_edges = all_edges( net );
    for( size_t t = 0; t < steps; t++ )
    {
        std::vector<double> before( n );
        double scale = 0, lo = 1e300, hi = -1e300;
        for( size_t i = 0; i < n; i++ )
        {
            before[i] = net.agents[i].data.opinion;
            lo        = std::min( lo, before[i] );
            hi        = std::max( hi, before[i] );
        }
        model.iteration();
        PBT_CHECK( c, model.n_iterations() == made + t + 1, "n_iterations() = {} after {} iterations", model.n_iterations(), made + t + 1 );
        for( size_t i = 0; i < n; i++ )
        {
            long double want = 0, mag = 0;
            for( size_t k = 0; k < r.nbr[i].size(); k++ )
            {
                want += (long double)r.w[i][k] * before[r.nbr[i][k]];
                mag += std::abs( (long double)r.w[i][k] * before[r.nbr[i][k]] );
            }
            double got = net.agents[i].data.opinion;
            PBT_CHECK( c, std::abs( (long double)got - want ) <= ( 1e-13L + 0x1p-52L * (long double)r.nbr[i].size() ) * mag + 1e-300L,
                       "iteration {}: opinion of agent {} is {}, the weighted sum over its neighbours is {}", t + 1, i, got, (double)want );
            if( st )
                PBT_CHECK( c, got >= lo - 1e-12 * ( 1 + std::abs( lo ) ) && got <= hi + 1e-12 * ( 1 + std::abs( hi ) ),
                           "iteration {}: opinion {} of agent {} is outside [{}, {}] although the weights are averages", t + 1, got, i, lo, hi );
            scale = std::max( scale, std::abs( got ) );
        }
        if( scale > 1e200 )
            break;
    }
    c.check( all_edges( net ) == ref_edges, "the network changed" );
    c.nontrivial( steps > 0 && has_neighbour( r ) );
    c.label( st ? "stochastic" : "arbitrary" );
}

// Relabelling the agents relabels the result: no agent's position in the list matters
PBT_FACET( relabelling, 15000, 300000 )
{
    size_t n = s.count( 2, 25 );
    RawNet r = stochastic_net( s, n, 8 );
    std::vector<size_t> perm( n );
    std::iota( perm.begin(), perm.end(), 0 );
    for( size_t i = n; i > 1; i-- )
        std::swap( perm[i - 1], perm[s.draw( i - 1 )] );
    RawNet q;
    q.nbr.resize( n );
    q.w.resize( n );
    for( size_t i = 0; i < n; i++ )
        for( size_t k = 0; k < r.nbr[i].size(); k++ )
        {
            q.nbr[perm[i]].push_back( perm[r.nbr[i][k]] );
            q.w[perm[i]].push_back( r.w[i][k] );
        }
    auto a = make_network<Agent>( r ), b = make_network<Agent>( q );
    Seldon::DeGrootModel ma( settings( 100, 0 ), a ), mb( settings( 100, 0 ), b );
    for( size_t i = 0; i < n; i++ )
    {
        a.agents[i].data.opinion       = s.real( -1, 1 );
        b.agents[perm[i]].data.opinion = a.agents[i].data.opinion;
    }
    size_t steps = s.size( 1, 20 );
    for( size_t t = 0; t < steps; t++ )
    {
        ma.iteration();
        mb.iteration();
    }
    c.show( fmt::format( "perm=[{}] steps={}\n{}", fmt::join( perm, " " ), steps, show_net( r ) ) );
    for( size_t i = 0; i < n; i++ )
        PBT_CHECK( c, close( a.agents[i].data.opinion, b.agents[perm[i]].data.opinion, 1e-12, 1e-13 ), "agent {}: {} and {} after relabelling", i,
                   a.agents[i].data.opinion, b.agents[perm[i]].data.opinion );
    c.nontrivial( has_neighbour( r ) );
}

// Through a whole simulation: the opinions after T iterations are W^T x0 of the network that was written out
PBT_FACET( whole_run, 6000, 100000 )
{
    size_t n = s.chance( 1, 60 ) ? s.range( 60, 300 ) : s.count( 1, 40 ), k = s.size( 0, std::min<size_t>( n + 1, 300000 / n ) );
    int T    = (int)s.size( 0, 15 );
    auto o   = degroot_options( s.seed32(), n, k, T, 0.0 );
    TempDir d( c, "out" );
    o.output_settings.output_initial  = true;
    o.output_settings.n_output_agents = std::nullopt;
    std::optional<std::string> nf;
    RawNet r;
    if( s.flip() )
    {
        r = stochastic_net( s, n, 6 );
        spit( d / "net_in", write_network_text( r.nbr, r.w ) );
        nf = d / "net_in";
    }
    Seldon::Simulation<Agent> sim( o, nf, std::nullopt );
    sim.run( d.path );
    auto f = parse_network_text( slurp( d / "network_0.txt" ), c );
    PBT_CHECK( c, f.nbr.size() == n, "network file has {} rows for {} agents", f.nbr.size(), n );
    std::vector<long double> x( n ), y( n );
    for( size_t i = 0; i < n; i++ )
        x[i] = (long double)i / n;
    for( int t = 0; t < T; t++ )
    {
        for( size_t i = 0; i < n; i++ )
        {
            y[i] = 0;
            for( size_t q = 0; q < f.nbr[i].size(); q++ )
                y[i] += f.w[i][q] * x[f.nbr[i][q]];
        }
        x = y;
    }
    c.show( fmt::format( "n={} k={} T={} network {}\n", n, k, T, nf ? "from file" : "generated" ) );
    for( size_t i = 0; i < n; i++ )
        PBT_CHECK( c, std::abs( (long double)sim.network.agents[i].data.opinion - x[i] ) < 1e-11L, "opinion of agent {} is {} instead of {}", i,
                   sim.network.agents[i].data.opinion, (double)x[i] );
    c.nontrivial( T > 0 && n > 1 && ( k > 0 || nf ) );
}
PBT_LARGE( linear_map, 20000, 60, 4000 );
PBT_LARGE( relabelling, 5000, 24, 1000 );
PBT_LARGE( whole_run, 5000, 24, 1000 );
