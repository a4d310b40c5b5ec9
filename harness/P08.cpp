// The random n-connections network generator.
// BUILD: fuzzfacets=structure,simulation
#include "common.hpp"
using namespace H;
using Agent = Seldon::SimpleAgent;

PBT_PROPERTY(
    "P08", "a case is (agents, connections, self interaction, seed); structure is checked on every network, distributions "
           "on aggregated ones; non-trivial: at least two agents and one connection" );

namespace
{
template<typename AgentT>
void structure( Src & s, Ctx & c )
{
    size_t n  = pbt::large_max() ? s.big( 200, pbt::large_max() ) : s.chance( 1, 200 ) ? s.range( 100, 1500 ) : s.size( 0, 60 );
    size_t k;
    switch( s.draw( 3 ) )
    {
        case 0:
            k = s.size( 0, n );
            break;
        case 1:
            k = n ? n - 1 : 0;
            break;
        case 2:
            k = s.size( 0, 12 );
            break;
        default:
            k = n + s.draw( 5 ); // more than there are others: everyone else, once
    }
    if( n > 700 || ( n > 200 && !s.chance( 1, 10 ) ) )
        k = std::min<size_t>( k, 60 );
    if( pbt::large_max() )
        k = s.flip() ? s.size( 0, 12 ) : s.big( 12, std::min<size_t>( n + 5, 2000000 / n ) );
    bool self     = s.flip();
    uint32_t seed = s.seed32();
    c.show( fmt::format( "n={} k={} self={} seed={}\n", n, k, self, seed ) );
    std::mt19937 gen( seed );
    auto net = Seldon::NetworkGeneration::generate_n_connections<AgentT>( n, k, self, gen );
    PBT_CHECK( c, net.n_agents() == n, "{} agents instead of {}", net.n_agents(), n );
    c.check( net.direction() == Seldon::Network<AgentT>::EdgeDirection::Incoming, "edges are not stored as incoming" );
    size_t others = n ? std::min( k, n - 1 ) : 0;
    for( size_t i = 0; i < n; i++ )
    {
        auto nb = net.get_neighbours( i );
        auto w  = net.get_weights( i );
        PBT_CHECK( c, nb.size() == w.size(), "agent {}: {} neighbours, {} weights", i, nb.size(), w.size() );
        PBT_CHECK( c, nb.size() == others + ( self ? 1 : 0 ), "agent {}: {} connections, expected {}{}", i, nb.size(), others,
                   self ? " and itself" : "" );
        std::set<size_t> distinct( nb.begin(), nb.end() );
        PBT_CHECK( c, distinct.size() == nb.size(), "agent {}: a neighbour is listed twice: [{}]", i, fmt::join( nb, " " ) );
        PBT_CHECK( c, distinct.count( i ) == ( self ? 1u : 0u ), "agent {}: connected to itself {} times", i, distinct.count( i ) );
        double sum = 0;
        for( size_t j = 0; j < nb.size(); j++ )
        {
            PBT_CHECK( c, nb[j] < n, "agent {}: neighbour {}", i, nb[j] );
            PBT_CHECK( c, w[j] >= 0 && w[j] <= 1, "agent {}: weight {}", i, w[j] );
            sum += w[j];
        }
        if( !nb.empty() )
            PBT_CHECK( c, std::abs( sum - 1 ) < 1e-9, "agent {}: incoming weights sum to {}", i, sum );
        // a draw has 53 bits: equal ones come from a single draw
        std::vector<double> sorted( w.begin(), w.end() );
        std::sort( sorted.begin(), sorted.end() );
        PBT_CHECK( c, std::adjacent_find( sorted.begin(), sorted.end() ) == sorted.end(), "agent {}: two of its weights are the same: [{}]", i, fmt::join( w, " " ) );
    }
    c.nontrivial( n >= 2 && k >= 1 );
    c.label( k + 1 >= n ? "k>=n-1" : "k<n-1" );
    // the same generator state gives the same network; a second network from the continuing generator is another one
    std::mt19937 gen2( seed );
    auto again = Seldon::NetworkGeneration::generate_n_connections<AgentT>( n, k, self, gen2 );
    c.check( all_edges( again ) == all_edges( net ), "not a function of the generator's state" );
    if( n >= 5 && others >= 1 && ( self || others >= 2 ) )
    {
        auto next = Seldon::NetworkGeneration::generate_n_connections<AgentT>( n, k, self, gen );
        c.check( all_edges( next ) != all_edges( net ), "two networks drawn after each other are equal" );
    }
}

// distribution function of U1/(U1+U2)
double ratio_cdf( double r )
{
    if( r <= 0 )
        return 0;
    if( r >= 1 )
        return 1;
    return r <= 0.5 ? r / ( 2 * ( 1 - r ) ) : 1 - ( 1 - r ) / ( 2 * r );
}
} // namespace

PBT_FACET( structure, 40000, 800000 )
{
    switch( s.draw( 2 ) )
    {
        case 0:
            return structure<Seldon::SimpleAgent>( s, c );
        case 1:
            return structure<Seldon::ActivityAgent>( s, c );
        default:
            return structure<Seldon::DiscreteVectorAgent>( s, c );
    }
}

// Every set of neighbours is equally likely, independently for every agent
PBT_FACET( uniform_sets, 80, 1500 )
{
    size_t n      = s.range( 2, 7 );
    size_t k      = s.range( 1, std::min<size_t>( n - 1, 3 ) );
    bool self     = s.flip();
    uint32_t seed = s.seed32();
    c.show( fmt::format( "n={} k={} self={} seed={}: frequencies of the neighbour sets of each agent\n", n, k, self, seed ) );
    c.nontrivial( k < n - 1 );
    stat_check( c, fmt::format( "neighbour sets, n={} k={}", n, k ), 6000, [&]( uint64_t N, uint64_t stream ) {
        std::mt19937 gen( seed + 7919 * stream );
        std::vector<std::map<std::vector<size_t>, uint64_t>> count( n );
        std::map<std::pair<std::vector<size_t>, std::vector<size_t>>, uint64_t> joint;
        for( uint64_t t = 0; t < N; t++ )
        {
            auto net = Seldon::NetworkGeneration::generate_n_connections<Agent>( n, k, self, gen );
            std::vector<std::vector<size_t>> sets( n );
            for( size_t i = 0; i < n; i++ )
            {
                for( auto j : net.get_neighbours( i ) )
                    if( j != i )
                        sets[i].push_back( j );
                std::sort( sets[i].begin(), sets[i].end() );
                count[i][sets[i]]++;
            }
            joint[{ sets[0], sets[1] }]++;
        }
        double n_sets = std::round( std::exp( std::lgamma( n ) - std::lgamma( k + 1 ) - std::lgamma( n - k ) ) );
        std::vector<double> ps;
        for( size_t i = 0; i < n; i++ )
        {
            std::vector<uint64_t> cnt;
            for( auto & [key, v] : count[i] )
                cnt.push_back( v );
            cnt.resize( (size_t)n_sets, 0 );
            ps.push_back( chi2_p( cnt, std::vector<double>( (size_t)n_sets, 1.0 / n_sets ) ) );
        }
        std::vector<uint64_t> cnt;
        for( auto & [key, v] : joint )
            cnt.push_back( v );
        cnt.resize( (size_t)( n_sets * n_sets ), 0 );
        ps.push_back( chi2_p( cnt, std::vector<double>( cnt.size(), 1.0 ) ) );
        return bonferroni( ps );
    } );
}

// The same over all the agents of large networks at once: deviations too small to show in single weights
PBT_FACET( weights_fine, 12, 150 )
{
    size_t n      = s.range( 20, 400 );
    size_t k      = s.range( 2, 12 );
    bool self     = s.flip();
    uint32_t seed = s.seed32();
    c.show( fmt::format( "n={} k={} self={} seed={}: ratios of weights over all agents\n", n, k, self, seed ) );
    c.nontrivial();
    stat_check( c, fmt::format( "weights, n={} k={} self={}", n, k, self ), 200000, [&]( uint64_t N, uint64_t stream ) {
        std::mt19937 gen( seed + 7919 * stream );
        std::vector<double> r;
        while( r.size() < N )
        {
            auto net = Seldon::NetworkGeneration::generate_n_connections<Agent>( n, k, self, gen );
            for( size_t i = 0; i < n; i++ )
            {
                auto w = net.get_weights( i );
                for( size_t q = w.size() % 2; q + 1 < w.size(); q += 2 )
                    r.push_back( w[q] / ( w[q] + w[q + 1] ) );
            }
        }
        return ks_p( r, ratio_cdf );
    } );
}

// The weights are uniform draws divided by their sum, the agent's own included
PBT_FACET( weights, 60, 1000 )
{
    size_t n      = s.range( 2, 12 );
    size_t k      = s.range( 1, n - 1 );
    bool self     = s.flip();
    uint32_t seed = s.seed32();
    if( !self && k < 2 )
    {
        self = true;
    }
    c.show( fmt::format( "n={} k={} self={} seed={}: ratios of weights\n", n, k, self, seed ) );
    c.nontrivial();
    stat_check( c, fmt::format( "weights, n={} k={} self={}", n, k, self ), 6000, [&]( uint64_t N, uint64_t stream ) {
        std::mt19937 gen( seed + 7919 * stream );
        std::vector<double> first_last, first_second;
        for( uint64_t t = 0; t < N; t++ )
        {
            auto net = Seldon::NetworkGeneration::generate_n_connections<Agent>( n, k, self, gen );
            size_t i = t % n;
            auto w   = net.get_weights( i );
            auto nb  = net.get_neighbours( i );
            size_t own = nb.size() - 1;
            for( size_t q = 0; q < nb.size(); q++ )
                if( nb[q] == i )
                    own = q;
            size_t other = own == 0 ? 1 : 0;
            first_last.push_back( w[other] / ( w[other] + w[own] ) );
            if( nb.size() >= 3 )
            {
                size_t third = 3 - own - other;
                if( third >= nb.size() || third == own || third == other )
                    for( third = 0; third == own || third == other; third++ )
                    {
                    }
                first_second.push_back( w[third] / ( w[third] + w[other] ) );
            }
        }
        std::vector<double> ps{ ks_p( first_last, ratio_cdf ) };
        if( !first_second.empty() )
            ps.push_back( ks_p( first_second, ratio_cdf ) );
        return bonferroni( ps );
    } );
}

// Larger networks: agents draw independently of each other, however far apart, and everybody is as likely a neighbour as anybody else
PBT_FACET( sequence, 60, 900 )
{
    size_t n      = s.chance( 1, 4 ) ? s.range( 4, 12 ) : s.range( 12, 150 );
    size_t k      = s.range( std::max<size_t>( 2, n / 5 ), std::max<size_t>( 2, n * 3 / 4 ) ), offset = s.range( 1, n - 1 );
    bool relative = s.flip(), self = s.chance( 3, 4 );
    uint32_t seed = s.seed32();
    c.show( fmt::format( "n={} k={} self={} watched: {}{} seed={}\n", n, k, self, relative ? "one's own index plus " : "", offset, seed ) );
    c.nontrivial();
    stat_check( c, "draws of far agents", 3000, [&]( uint64_t N, uint64_t stream ) {
        std::mt19937 gen( seed + 7919 * stream );
        std::vector<double> member, weight, ps, part;
        double p = double( k ) / double( n - 1 );
        while( member.size() < N )
        {
            auto net = Seldon::NetworkGeneration::generate_n_connections<Agent>( n, k, self, gen );
            for( size_t i = 0; i < n; i++ )
            {
                auto nb       = net.get_neighbours( i );
                auto w        = net.get_weights( i );
                size_t target = relative ? ( i + offset ) % n : offset;
                bool in       = std::find( nb.begin(), nb.end(), target ) != nb.end();
                member.push_back( target == i || p > 0.999 ? 0.0 : ( double( in ) - p ) / std::sqrt( p * ( 1 - p ) ) );
                weight.push_back( ( ratio_cdf( w.front() / ( w.front() + w.back() ) ) - 0.5 ) * std::sqrt( 12.0 ) );
            }
        }
        independence_ps( part, member );
        ps.push_back( bonferroni( part ) );
        part.clear();
        independence_ps( part, weight );
        ps.push_back( bonferroni( part ) );
        return bonferroni( ps );
    } );
}
PBT_FACET( marginals, 40, 600 )
{
    size_t n      = s.big( 20, 3000 );
    size_t k      = s.size( 1, std::min<size_t>( n - 1, 60 ) );
    uint32_t seed = s.seed32();
    c.show( fmt::format( "n={} k={} seed={}: who is whose neighbour\n", n, k, seed ) );
    c.nontrivial();
    size_t rounds = std::max<size_t>( 1, 100 / k + 1 );
    if( n * n * rounds > 100000000 )
        rounds = std::max<size_t>( 1, 100000000 / ( n * n ) );
    stat_check( c, "neighbours in larger networks", rounds, [&]( uint64_t N, uint64_t stream ) {
        std::mt19937 gen( seed + 7919 * stream );
        std::vector<uint64_t> index( n, 0 ), distance( n, 0 );
        for( uint64_t t = 0; t < N; t++ )
        {
            auto net = Seldon::NetworkGeneration::generate_n_connections<Agent>( n, k, t % 2 == 0, gen );
            for( size_t i = 0; i < n; i++ )
                for( auto j : net.get_neighbours( i ) )
                    if( j != i )
                        index[j]++, distance[( j + n - i ) % n]++;
        }
        std::vector<double> ps;
        double p = double( k ) / double( n - 1 );
        for( size_t j = 0; j < n; j++ )
        {
            ps.push_back( binom_p( index[j], N * ( n - 1 ), p ) );
            ps.push_back( binom_p( distance[j], N * n, j == 0 ? 0.0 : p ) );
        }
        return bonferroni( ps );
    } );
}

// What a simulation starts from: connections_per_agent others and oneself, drawn with the configured seed
PBT_FACET( simulation, 3000, 40000 )
{
    size_t n = s.count( 1, 50 );
    size_t k = s.size( 0, std::min<size_t>( n + 3, 1000000 / n ) );
    auto o   = degroot_options( s.seed32(), n, k, 0, 0.0 );
    c.show( fmt::format( "DeGroot n={} k={} seed={}\n", n, k, o.rng_seed ) );
    Seldon::Simulation<Agent> sim( o, std::nullopt, std::nullopt );
    PBT_CHECK( c, sim.network.n_agents() == n, "{} agents instead of {}", sim.network.n_agents(), n );
    for( size_t i = 0; i < n; i++ )
    {
        auto nb = sim.network.get_neighbours( i );
        std::set<size_t> d( nb.begin(), nb.end() );
        PBT_CHECK( c, nb.size() == std::min( k, n - 1 ) + 1 && d.size() == nb.size() && d.count( i ) == 1,
                   "agent {}: connections [{}] for connections_per_agent = {}", i, fmt::join( nb, " " ), k );
    }
    c.nontrivial( n >= 2 && k >= 1 );
}
PBT_LARGE( structure, 6000, 60, 3000 );
PBT_LARGE( simulation, 5000, 16, 1000 );
