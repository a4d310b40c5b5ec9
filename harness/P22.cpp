// draw_unique_k_from_n
// BUILD: fuzzfacets=set
#include "common.hpp"
using namespace H;

PBT_PROPERTY( "P22", "a case is (ignored index or none, k, n, seed, earlier buffer contents); non-trivial: 1 <= k < number of candidates" );

PBT_FACET( set, 200000, 4000000 )
{
    size_t n = s.chance( 1, 50 ) ? s.range( 50, 2000 ) : s.count( 1, 40 );
    std::optional<size_t> ign;
    switch( s.draw( 4 ) )
    {
        case 0:
            break;
        case 1:
            ign = 0;
            break;
        case 2:
            ign = n - 1;
            break;
        case 3:
            ign = s.draw( n - 1 );
            break;
        default:
            ign = n + s.draw( 5 ); // not among the candidates
    }
    size_t cand = n - ( ign.has_value() && *ign < n ? 1 : 0 );
    size_t k    = s.chance( 1, 4 ) ? cand : s.size( 0, cand );
    std::vector<size_t> buf( s.size( 0, 50 ), s.draw( 3 ) ? 12345678 : 0 );
    uint32_t seed = s.seed32();
    c.show( fmt::format( "k={} n={} ignore={} buffer of {} seed={}\n", k, n, ign ? std::to_string( *ign ) : std::string( "none" ), buf.size(), seed ) );
    std::mt19937 gen( seed );
    Seldon::draw_unique_k_from_n( ign, k, n, buf, gen );
    PBT_CHECK( c, buf.size() == k, "{} numbers instead of {}", buf.size(), k );
    std::set<size_t> d( buf.begin(), buf.end() );
    PBT_CHECK( c, d.size() == k, "a number was drawn twice: [{}]", fmt::join( buf, " " ) );
    for( auto x : buf )
    {
        PBT_CHECK( c, x < n, "{} was drawn from {}", x, n );
        PBT_CHECK( c, !ign.has_value() || x != *ign, "the ignored number {} was drawn", x );
    }
    std::mt19937 gen2( seed );
    std::vector<size_t> buf2( s.draw( 3 ), 7 );
    Seldon::draw_unique_k_from_n( ign, k, n, buf2, gen2 );
    c.check( buf == buf2, "the draw depends on the earlier contents of the buffer" );
    c.check( gen == gen2, "the generator's state depends on the earlier contents of the buffer" );
    c.nontrivial( k >= 1 && k < cand );
    c.label( ign.has_value() ? *ign == 0 ? "ignore first" : *ign == n - 1 ? "ignore last" : *ign < n ? "ignore inner" : "ignore outside" : "ignore none" );
}

PBT_LARGE( set, 300000, 80, 4000 );

PBT_FACET( uniform, 300, 4000 )
{
    size_t n = s.range( 2, 8 );
    std::optional<size_t> ign;
    if( s.flip() )
        ign = s.draw( n - 1 );
    size_t cand   = n - ( ign ? 1 : 0 );
    size_t k      = s.range( 1, cand );
    uint32_t seed = s.seed32();
    c.show( fmt::format( "k={} n={} ignore={} seed={}\n", k, n, ign ? std::to_string( *ign ) : std::string( "none" ), seed ) );
    c.nontrivial( k < cand );
    double n_sets = std::round( std::exp( std::lgamma( cand + 1.0 ) - std::lgamma( k + 1.0 ) - std::lgamma( cand - k + 1.0 ) ) );
    stat_check( c, fmt::format( "subsets of size {} of {}", k, n ), 40000, [&]( uint64_t N, uint64_t stream ) {
        std::mt19937 gen( seed + 7919 * stream );
        std::map<std::vector<size_t>, uint64_t> count;
        std::map<std::pair<std::vector<size_t>, std::vector<size_t>>, uint64_t> succ; // successive draws are independent
        std::vector<size_t> buf, last;
        for( uint64_t t = 0; t < N; t++ )
        {
            Seldon::draw_unique_k_from_n( ign, k, n, buf, gen );
            auto b = buf;
            std::sort( b.begin(), b.end() );
            count[b]++;
            if( t % 2 )
                succ[{ last, b }]++;
            last = b;
        }
        std::vector<uint64_t> a, b;
        for( auto & [x, v] : count )
            a.push_back( v );
        for( auto & [x, v] : succ )
            b.push_back( v );
        std::vector<double> ps;
        a.resize( (size_t)n_sets, 0 );
        ps.push_back( chi2_p( a, std::vector<double>( a.size(), 1.0 ) ) );
        if( n_sets * n_sets * 8 < double( N ) / 2 )
        {
            b.resize( size_t( n_sets * n_sets ), 0 );
            ps.push_back( chi2_p( b, std::vector<double>( b.size(), 1.0 ) ) );
        }
        return bonferroni( ps );
    } );
}

// Larger systems: every candidate is drawn equally often, and so is every pair
// Draws do not depend on earlier ones, however long ago
PBT_FACET( sequence, 100, 1500 )
{
    size_t n = s.range( 2, 60 );
    std::optional<size_t> ign;
    if( n > 2 && s.flip() )
        ign = s.draw( n - 1 );
    size_t cand = n - ( ign ? 1 : 0 );
    if( cand < 2 )
        return;
    size_t k      = s.range( ( cand + 3 ) / 4, std::max( cand * 3 / 4, ( cand + 3 ) / 4 ) ), watch = s.draw( n - 1 );
    uint32_t seed = s.seed32();
    if( ign && watch == *ign )
        watch = ( watch + 1 ) % n;
    c.show( fmt::format( "k={} n={} ignore={} watched: {} seed={}\n", k, n, ign ? std::to_string( *ign ) : std::string( "none" ), watch, seed ) );
    c.nontrivial();
    stat_check( c, "successive draws", 3000, [&]( uint64_t N, uint64_t stream ) {
        std::mt19937 gen( seed + 7919 * stream );
        std::vector<size_t> buf;
        std::vector<double> z, ps;
        double p = double( k ) / double( cand );
        for( uint64_t t = 0; t < N; t++ )
        {
            Seldon::draw_unique_k_from_n( ign, k, n, buf, gen );
            bool in = std::find( buf.begin(), buf.end(), watch ) != buf.end();
            z.push_back( ( double( in ) - p ) / std::sqrt( p * ( 1 - p ) ) );
        }
        independence_ps( ps, z );
        return bonferroni( ps );
    } );
}

PBT_FACET( marginals, 60, 600 )
{
    size_t n = s.range( 10, 120 );
    std::optional<size_t> ign;
    if( s.flip() )
        ign = s.chance( 1, 3 ) ? s.draw( 1 ) * ( n - 1 ) : s.draw( n - 1 );
    size_t cand   = n - ( ign ? 1 : 0 );
    size_t k      = s.range( 1, cand - 1 );
    uint32_t seed = s.seed32();
    c.show( fmt::format( "k={} n={} ignore={} seed={}\n", k, n, ign ? std::to_string( *ign ) : std::string( "none" ), seed ) );
    c.nontrivial();
    stat_check( c, fmt::format( "inclusion of each of {} in samples of {}", n, k ), 10000, [&]( uint64_t N, uint64_t stream ) {
        std::mt19937 gen( seed + 7919 * stream );
        std::vector<uint64_t> cnt( n ), pair( n );
        std::vector<size_t> buf;
        std::vector<char> in( n );
        for( uint64_t t = 0; t < N; t++ )
        {
            Seldon::draw_unique_k_from_n( ign, k, n, buf, gen );
            std::fill( in.begin(), in.end(), 0 );
            for( auto x : buf )
            {
                cnt[x]++;
                in[x] = 1;
            }
            for( size_t i = 0; i < n; i++ )
                pair[i] += in[i] && in[( i + 1 ) % n];
        }
        std::vector<double> ps;
        double p = double( k ) / double( cand ), p2 = p * double( k - 1 ) / double( cand - 1 );
        for( size_t i = 0; i < n; i++ )
        {
            bool i_ok = !ign || i != *ign, j_ok = !ign || ( i + 1 ) % n != *ign;
            ps.push_back( binom_p( cnt[i], N, i_ok ? p : 0 ) );
            ps.push_back( binom_p( pair[i], N, i_ok && j_ok ? p2 : 0 ) );
        }
        return bonferroni( ps );
    } );
}

// Numbers of agents up to tens of thousands: no candidate is out of reach, however far back
PBT_FACET( reach, 40, 600 )
{
    size_t n = s.chance( 1, 3 ) ? ( size_t( 1 ) << s.range( 8, 16 ) ) + s.range( 0, 4 ) : s.range( 300, 20000 );
    std::optional<size_t> ign;
    if( s.flip() )
        ign = s.chance( 1, 3 ) ? s.draw( 1 ) * ( n - 1 ) : s.draw( n - 1 );
    size_t cand   = n - ( ign ? 1 : 0 );
    size_t k      = s.range( cand / 2, cand - 1 );
    uint32_t seed = s.seed32();
    c.show( fmt::format( "k={} n={} ignore={} seed={}\n", k, n, ign ? std::to_string( *ign ) : std::string( "none" ), seed ) );
    c.nontrivial();
    // missing from all 100 samples by chance: 2^-100 for each
    std::mt19937 gen( seed );
    std::vector<char> seen( n ), missed( n );
    std::vector<size_t> buf;
    for( int t = 0; t < 100; t++ )
    {
        Seldon::draw_unique_k_from_n( ign, k, n, buf, gen );
        PBT_CHECK( c, buf.size() == k, "{} drawn of {}", buf.size(), k );
        std::vector<char> in( n );
        for( auto x : buf )
        {
            PBT_CHECK( c, x < n && x != ign && !in[x], "{} is out of range, ignored, or drawn twice", x );
            in[x] = seen[x] = 1;
        }
    }
    for( size_t i = 0; i < n; i++ )
        PBT_CHECK( c, seen[i] || i == ign, "{} was never drawn in 100 samples of {} from {}", i, k, n );
}
