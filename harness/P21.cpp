// Which pairs interact
#include "pairs.hpp"
// BUILD: plain
using namespace H;

PBT_PROPERTY( "P21", "a case is a Deffuant model whose interaction counts are read off the opinions of thousands of iterations; non-trivial: at least three agents" );

// Some agents hold the powers of 64, all others 0, and mu is 2^-66. An interaction with the holder of 64^k adds mu * 64^k to an
// agent at 0; everything else that happens is smaller by another 2^-66 or lost in rounding. After an iteration, the opinion of
// such an agent divided by mu is the number whose digits in base 64 are how often it met each holder.
namespace
{
using Sim = Seldon::Simulation<Seldon::SimpleAgent>;
void pairs( Src & s, Ctx & c, bool lattice )
{
    size_t L = lattice ? s.range( 2, 6 ) : 0;
    size_t n = lattice ? L * L : s.chance( 1, 4 ) ? s.range( 10, 40 ) : s.range( 3, 9 );
    Seldon::Config::DeffuantSettings d;
    d.use_network         = lattice;
    d.mu                  = 0x1p-66;
    d.homophily_threshold = 1e30;
    uint32_t seed         = s.seed32();
    size_t k              = any_connections( s, n );
    size_t J              = std::min<size_t>( s.range( 1, 8 ), n - 1 );
    std::vector<size_t> holder; // any agents
    while( holder.size() < J )
    {
        size_t i = s.draw( n - 1 );
        while( std::find( holder.begin(), holder.end(), i ) != holder.end() )
            i = ( i + 1 ) % n;
        holder.push_back( i );
    }
    c.show( fmt::format( "n={} lattice={} connections={} seed={} holders=[{}]\n", n, lattice, k, seed, fmt::join( holder, " " ) ) );
    std::vector<double> start( n, 0.0 );
    for( size_t k = 0; k < J; k++ )
        start[holder[k]] = std::pow( 64.0, double( k ) );
    std::vector<size_t> rest;
    for( size_t i = 0; i < n; i++ )
        if( start[i] == 0 )
            rest.push_back( i );
    // probabilities of the pairs (rest, holder); the last cell is every other pair
    auto adjacent = [&]( size_t i, size_t j ) {
        size_t k = 0;
        size_t x = i % L, y = i / L;
        for( size_t q : { ( x + 1 ) % L + y * L, ( x + L - 1 ) % L + y * L, x + ( ( y + 1 ) % L ) * L, x + ( ( y + L - 1 ) % L ) * L } )
            k += q == j;
        return k;
    };
    std::vector<double> prob;
    double sum = 0;
    for( size_t i : rest )
        for( size_t h : holder )
        {
            double p = lattice ? double( adjacent( i, h ) + adjacent( h, i ) ) / ( 4.0 * double( n ) ) : 2.0 / ( double( n ) * double( n - 1 ) );
            prob.push_back( p );
            sum += p;
        }
    prob.push_back( std::max( 0.0, 1 - sum < 1e-12 ? 0.0 : 1 - sum ) );
    size_t watched = s.draw( prob.size() - 2 );
    stat_check( c, "pairs", 6000, [&]( uint64_t N, uint64_t stream ) {
        Sim sim( deffuant_options( seed + uint32_t( 977 * stream ), n, k, d ), std::nullopt, std::nullopt );
        sim.model->initialize_iterations();
        std::vector<uint64_t> count( prob.size(), 0 ), hist( 66, 0 );
        std::vector<double> ps, watched_counts;
        for( uint64_t t = 0; t < N; t++ )
        {
            for( size_t i = 0; i < n; i++ )
                sim.network.agents[i].data.opinion = start[i];
            sim.model->iteration();
            uint64_t total = 0;
            size_t cell    = 0;
            for( size_t i : rest )
            {
                double v = sim.network.agents[i].data.opinion / d.mu;
                PBT_CHECK( c, v >= 0 && v < 0x1p49, "an agent at 0 moved to {}", sim.network.agents[i].data.opinion );
                auto digits = uint64_t( std::llround( v ) );
                for( size_t k = 0; k < J; k++, digits /= 64, cell++ )
                {
                    count[cell] += digits % 64;
                    total += digits % 64;
                    if( cell == watched )
                    {
                        hist[digits % 64]++;
                        watched_counts.push_back( double( digits % 64 ) );
                    }
                }
            }
            PBT_CHECK( c, total <= n, "{} interactions in an iteration of {} agents", total, n );
            if( prob.back() == 0 )
                PBT_CHECK( c, total == n, "{} interactions in an iteration of {} agents", total, n );
            count.back() += n - total;
        }
        ps.push_back( chi2_p( count, prob ) );
        // the interactions of one iteration are independent: counts are binomial
        double p = prob[watched];
        std::vector<double> binom( 66, 0.0 );
        for( size_t k = 0; k <= std::min<size_t>( n, 65 ); k++ )
            binom[k] = p <= 0 ? ( k == 0 ) : std::exp( std::lgamma( n + 1 ) - std::lgamma( k + 1 ) - std::lgamma( n - k + 1 ) + double( k ) * std::log( p ) + double( n - k ) * std::log1p( -p ) );
        if( p < 1 )
            ps.push_back( chi2_p( hist, binom ) );
        // and so are the iterations
        double mean = double( n ) * p, var = mean * ( 1 - p ), cov = 0;
        for( size_t t = 1; t < watched_counts.size(); t++ )
            cov += ( watched_counts[t] - mean ) * ( watched_counts[t - 1] - mean );
        if( var > 1e-3 && p < 1 )
        {
            double z = cov / var / std::sqrt( double( N ) );
            // rare counts are far from normal
            if( mean > 0.05 )
                ps.push_back( two_sided_z( z ) );
        }
        return bonferroni( ps );
    } );
    c.nontrivial( n >= 3 );
    c.label( lattice ? fmt::format( "lattice {}", L ) : n < 10 ? fmt::format( "{} agents", n ) : "many agents" );
}
} // namespace

PBT_FACET( all_pairs, 5000, 60000 )
{
    pairs( s, c, false );
}
PBT_FACET( lattice, 4000, 50000 )
{
    pairs( s, c, true );
}

namespace
{
// Vector opinions: the agents form pairs at distance 1, which are far from each other. After an iteration, a pair agrees if it met
void vectors( Src & s, Ctx & c )
{
    using VSim   = Seldon::Simulation<Seldon::DiscreteVectorAgent>;
    bool lattice = s.flip();
    size_t L     = lattice ? s.range( 2, 5 ) : 0;
    size_t n     = lattice ? L * L : s.range( 2, 20 );
    Seldon::Config::DeffuantSettings d;
    d.use_binary_vector   = true;
    d.use_network         = lattice;
    d.dim                 = 1 + 3 * n;
    d.homophily_threshold = s.pick( std::vector<double>{ 1.5, 2.0, 1.0001 } );
    d.mu                  = s.real( 0.05, 0.95 );
    uint32_t seed         = s.seed32();
    size_t k              = any_connections( s, n );
    // any agent with any other, as far as they go
    std::vector<std::pair<size_t, size_t>> matched;
    std::vector<size_t> left( n );
    for( size_t i = 0; i < n; i++ )
        left[i] = i;
    while( left.size() >= 2 )
    {
        size_t a = s.draw( left.size() - 1 ), i = left[a];
        left.erase( left.begin() + a );
        size_t b = s.draw( left.size() - 1 ), j = left[b];
        left.erase( left.begin() + b );
        matched.push_back( { i, j } );
    }
    std::vector<std::vector<int>> x( n, std::vector<int>( d.dim, 0 ) );
    for( size_t k = 0; k < matched.size(); k++ )
    {
        for( size_t q = 0; q < 6; q++ )
            x[matched[k].first][1 + 6 * k + q] = x[matched[k].second][1 + 6 * k + q] = 1;
        x[matched[k].first][0] = 1;
    }
    std::vector<double> met;
    for( auto [i, j] : matched )
    {
        double p = 2.0 / ( double( n ) * double( n - 1 ) );
        if( lattice )
        {
            auto adjacent = [&]( size_t u, size_t v ) {
                size_t k = 0, a = u % L, b = u / L;
                for( size_t q : { ( a + 1 ) % L + b * L, ( a + L - 1 ) % L + b * L, a + ( ( b + 1 ) % L ) * L, a + ( ( b + L - 1 ) % L ) * L } )
                    k += q == v;
                return k;
            };
            p = double( adjacent( i, j ) + adjacent( j, i ) ) / ( 4.0 * double( n ) );
        }
        met.push_back( p >= 1 ? 1 : -std::expm1( double( n ) * std::log1p( -p ) ) );
    }
    c.show( fmt::format( "n={} lattice={} connections={} mu={} threshold={} seed={} matched={}\n", n, lattice, k, d.mu, d.homophily_threshold, seed,
                         [&] { std::string t; for( auto [i, j] : matched ) t += fmt::format( "{}-{} ", i, j ); return t; }() ) );
    stat_check( c, "pairs of vector agents", 2500, [&]( uint64_t N, uint64_t stream ) {
        VSim sim( deffuant_options( seed + uint32_t( 977 * stream ), n, k, d ), std::nullopt, std::nullopt );
        sim.model->initialize_iterations();
        std::vector<uint64_t> count( matched.size(), 0 );
        for( uint64_t t = 0; t < N; t++ )
        {
            for( size_t i = 0; i < n; i++ )
                sim.network.agents[i].data.opinion = x[i];
            sim.model->iteration();
            for( size_t k = 0; k < matched.size(); k++ )
                count[k] += sim.network.agents[matched[k].first].data.opinion == sim.network.agents[matched[k].second].data.opinion;
        }
        std::vector<double> ps;
        for( size_t k = 0; k < matched.size(); k++ )
            ps.push_back( binom_p( count[k], N, met[k] ) );
        return bonferroni( ps );
    } );
    c.nontrivial( n >= 3 );
    c.label( lattice ? "vectors on a lattice" : "vectors" );
}
} // namespace

PBT_FACET( many, 24, 400 )
{
    large_deffuant( s, c, false );
}
PBT_FACET( many_lattice, 24, 400 )
{
    large_deffuant( s, c, true );
}
PBT_FACET( vector_pairs, 1500, 20000 )
{
    vectors( s, c );
}
PBT_LARGE( many, 6000, 16, 300 );
PBT_LARGE( many_lattice, 20000, 16, 300 );
