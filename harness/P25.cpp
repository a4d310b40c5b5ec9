// Bivariate normal distribution and Gaussian copula
// BUILD: nofuzz
#include "common.hpp"
using namespace H;

PBT_PROPERTY( "P25", "a case is a covariance with marginals and a seed, of which tens of thousands of pairs are drawn; non-trivial: covariance not 0" );

namespace
{
double norm_quantile( double u )
{
    // bisection on the tail that is small: independent of the code's erfinv
    bool up  = u > 0.5;
    double t = up ? 1 - u : u;
    if( t <= 0 )
        return up ? 40 : -40;
    double lo = 0, hi = 40;
    for( int i = 0; i < 60; i++ )
    {
        double m = 0.5 * ( lo + hi );
        ( 0.5 * std::erfc( m / std::sqrt( 2.0 ) ) > t ? lo : hi ) = m;
    }
    return up ? lo : -lo;
}
constexpr double near_one = 1 - 1e-6; // beyond this the rounding of the scores is visible in their difference
// pairs of normal scores against covariance c; several views, corrected for their number
double pairs_p( const std::vector<std::array<double, 2>> & z, double cov )
{
    size_t n = z.size();
    std::vector<double> ps;
    auto normal = [&]( auto f ) {
        std::vector<double> v( n );
        for( size_t i = 0; i < n; i++ )
            v[i] = f( z[i] );
        ps.push_back( ks_p( v, norm_cdf ) );
        double corr = 0;
        for( size_t i = 1; i < n; i++ )
            corr += v[i] * v[i - 1];
        ps.push_back( two_sided_z( corr / std::sqrt( double( n - 1 ) ) ) );
    };
    normal( []( auto & p ) { return p[0]; } );
    normal( []( auto & p ) { return p[1]; } );
    if( cov > -near_one )
        normal( [&]( auto & p ) { return ( p[0] + p[1] ) / std::sqrt( 2 + 2 * cov ); } );
    if( cov < near_one )
        normal( [&]( auto & p ) { return ( p[0] - p[1] ) / std::sqrt( 2 - 2 * cov ); } );
    if( std::abs( cov ) < near_one )
    {
        double r = std::sqrt( 1 - cov * cov );
        normal( [&]( auto & p ) { return ( p[1] - cov * p[0] ) / r; } );
        // the part of the second that is independent of the first, in cells
        std::vector<uint64_t> cells( 36 );
        for( auto & p : z )
        {
            int a = std::min( 5, int( norm_cdf( p[0] ) * 6 ) ), b = std::min( 5, int( norm_cdf( ( p[1] - cov * p[0] ) / r ) * 6 ) );
            cells[a * 6 + b]++;
        }
        ps.push_back( chi2_p( cells, std::vector<double>( 36, 1.0 / 36 ) ) );
    }
    // cross correlation of successive pairs
    double cr = 0;
    for( size_t i = 1; i < n; i++ )
        cr += z[i][0] * z[i - 1][1];
    ps.push_back( two_sided_z( cr / std::sqrt( double( n - 1 ) ) ) );
    return bonferroni( ps );
}
double gen_cov( Src & s )
{
    switch( s.draw( 3 ) )
    {
        case 0:
            return double( s.range( -4, 4 ) ) / 4.0;
        case 1:
            return ( s.flip() ? 1 : -1 ) * ( 1.0 - s.logreal( 1e-9, 1 ) );
        default:
            return s.real( -1, 1 );
    }
}
struct Marginal
{
    bool power;
    double a, b, e; // eps, gamma / mean, sigma, eps
    double cdf( double x ) const
    {
        if( power )
        {
            if( x <= a )
                return 0;
            if( x >= 1 )
                return 1;
            return std::expm1( ( 1 - b ) * std::log( x / a ) ) / std::expm1( ( 1 - b ) * std::log( 1 / a ) );
        }
        if( x <= e )
            return 0;
        auto up = [&]( double v ) { return 0.5 * std::erfc( ( v - a ) / ( b * std::sqrt( 2.0 ) ) ); };
        return 1 - up( x ) / up( e );
    }
    std::string show() const
    {
        return power ? fmt::format( "power law({}, {})", a, b ) : fmt::format( "truncated normal({}, {}, {})", a, b, e );
    }
};
Marginal gen_marginal( Src & s, bool power )
{
    Marginal m;
    m.power = power;
    if( power )
    {
        m.a = s.logreal( 1e-3, 0.9 );
        m.b = s.real( 1.1, 3.5 );
        m.e = 0;
    }
    else
    {
        m.a = s.real( -2, 3 );
        m.b = s.logreal( 0.05, 3 );
        m.e = m.a + m.b * s.real( -5, 2 );
    }
    return m;
}
Seldon::power_law_distribution<double> pl( const Marginal & m )
{
    return { m.a, m.b };
}
Seldon::truncated_normal_distribution<double> tn( const Marginal & m )
{
    return { m.a, m.b, m.e };
}
template<typename D1, typename D2>
void copula( Ctx & c, double cov, const Marginal & m1, const Marginal & m2, D1 d1, D2 d2, uint32_t seed )
{
    stat_check( c, "copula", 25000, [&]( uint64_t N, uint64_t stream ) {
        std::mt19937 gen( seed + 7919 * stream );
        Seldon::bivariate_gaussian_copula cop( cov, d1, d2 );
        std::vector<double> u1( N ), u2( N );
        std::vector<std::array<double, 2>> z( N );
        for( uint64_t i = 0; i < N; i++ )
        {
            auto r = cop( gen );
            PBT_CHECK( c, std::isfinite( r[0] ) && std::isfinite( r[1] ), "drew ({}, {})", r[0], r[1] );
            u1[i] = m1.cdf( r[0] );
            u2[i] = m2.cdf( r[1] );
            z[i]  = { norm_quantile( u1[i] ), norm_quantile( u2[i] ) };
        }
        auto uni = []( double x ) { return x; };
        return bonferroni( { ks_p( u1, uni ), ks_p( u2, uni ), pairs_p( z, cov ) } );
    } );
}
} // namespace

PBT_FACET( bivariate_normal, 500, 8000 )
{
    double cov    = gen_cov( s );
    uint32_t seed = s.seed32();
    c.show( fmt::format( "covariance={:.17g} seed={}\n", cov, seed ) );
    c.nontrivial( cov != 0 );
    stat_check( c, "bivariate normal", 40000, [&]( uint64_t N, uint64_t stream ) {
        std::mt19937 gen( seed + 7919 * stream );
        Seldon::bivariate_normal_distribution<double> d( cov );
        std::vector<std::array<double, 2>> z( N );
        for( auto & p : z )
        {
            p = d( gen );
            PBT_CHECK( c, std::isfinite( p[0] ) && std::isfinite( p[1] ), "drew ({}, {})", p[0], p[1] );
            if( std::abs( cov ) == 1.0 )
                PBT_CHECK( c, close( p[1], cov * p[0], 1e-12 ), "covariance {}, but drew ({}, {})", cov, p[0], p[1] );
        }
        std::vector<double> ps{ pairs_p( z, cov ) };
        double r = std::sqrt( 1 - cov * cov );
        for( int q = 0; q < 2; q++ )
        {
            std::vector<double> u;
            for( size_t i = 0; i < std::min<size_t>( N, 2500 ); i++ )
                u.push_back( q == 0 ? z[i][0] : r > 1e-3 ? ( z[i][1] - cov * z[i][0] ) / r : 0.0 );
            std::vector<double> part;
            independence_ps( part, u );
            ps.push_back( bonferroni( part ) );
        }
        return bonferroni( ps );
    } );
    std::mt19937 g1( seed ), g2( seed );
    Seldon::bivariate_normal_distribution<double> a( cov ), b( cov );
    for( int i = 0; i < 6; i++ )
        c.check( a( g1 ) == b( g2 ), "equal generators give different draws" );
}

PBT_FACET( copula, 300, 5000 )
{
    double cov = gen_cov( s );
    int kind   = (int)s.draw( 3 );
    auto m1    = gen_marginal( s, kind == 0 || kind == 1 );
    auto m2    = gen_marginal( s, kind == 1 || kind == 2 );
    uint32_t seed = s.seed32();
    c.show( fmt::format( "covariance={:.17g} {} {} seed={}\n", cov, m1.show(), m2.show(), seed ) );
    c.nontrivial( cov != 0 );
    if( kind == 0 )
        copula( c, cov, m1, m2, pl( m1 ), tn( m2 ), seed );
    else if( kind == 1 )
        copula( c, cov, m1, m2, pl( m1 ), pl( m2 ), seed );
    else if( kind == 2 )
        copula( c, cov, m1, m2, tn( m1 ), pl( m2 ), seed );
    else
        copula( c, cov, m1, m2, tn( m1 ), tn( m2 ), seed );
}

// The tails, which tens of thousands of pairs hardly show
PBT_FACET( tails, 12, 120 )
{
    double cov    = gen_cov( s );
    uint32_t seed = s.seed32();
    c.show( fmt::format( "tails: covariance={:.17g} seed={}\n", cov, seed ) );
    c.nontrivial( cov != 0 );
    const double edges[] = { 2.99, 4.03, 4.57 };
    stat_check( c, "tails", 1000000, [&]( uint64_t N, uint64_t stream ) {
        std::mt19937 gen( seed + 7919 * stream );
        Seldon::bivariate_normal_distribution<double> d( cov );
        double r = std::sqrt( 1 - cov * cov );
        uint64_t out[3][3][2] = {};
        for( uint64_t i = 0; i < N; i++ )
        {
            auto p        = d( gen );
            double v[3]   = { p[0], p[1], std::abs( cov ) < near_one ? ( p[1] - cov * p[0] ) / r : 0.0 };
            for( int q = 0; q < 3; q++ )
                for( int e = 0; e < 3; e++ )
                    if( std::abs( v[q] ) > edges[e] )
                        out[q][e][v[q] > 0]++;
        }
        std::vector<double> ps;
        for( int q = 0; q < ( std::abs( cov ) < near_one ? 3 : 2 ); q++ )
            for( int e = 0; e < 3; e++ )
                for( int side = 0; side < 2; side++ )
                    ps.push_back( binom_p( out[q][e][side], N, 0.5 * std::erfc( edges[e] / std::sqrt( 2.0 ) ) ) );
        return bonferroni( ps );
    } );
}

// Weak correlations, which tens of thousands of pairs do not show
PBT_FACET( weak, 48, 600 )
{
    double cov    = ( s.flip() ? 1 : -1 ) * s.logreal( 2e-3, 0.15 );
    auto m1       = gen_marginal( s, true );
    auto m2       = gen_marginal( s, false );
    uint32_t seed = s.seed32();
    c.show( fmt::format( "weak: covariance={:.17g} {} {} seed={}\n", cov, m1.show(), m2.show(), seed ) );
    c.nontrivial();
    stat_check( c, "weak correlation", 500000, [&]( uint64_t N, uint64_t stream ) {
        std::mt19937 gen( seed + 7919 * stream );
        auto d1 = pl( m1 );
        auto d2 = tn( m2 );
        Seldon::bivariate_gaussian_copula cop( cov, d1, d2 );
        Seldon::bivariate_normal_distribution<double> normal( cov );
        double sum = 0, sq = 0, nsum = 0, nsq = 0;
        for( uint64_t i = 0; i < N; i++ )
        {
            auto r   = cop( gen );
            double v = 12 * ( m1.cdf( r[0] ) - 0.5 ) * ( m2.cdf( r[1] ) - 0.5 );
            sum += v, sq += v * v;
            auto p = normal( gen );
            nsum += p[0] * p[1], nsq += p[0] * p[0] * p[1] * p[1];
        }
        auto z = [&]( double s1, double s2, double mean ) {
            double m = s1 / double( N ), var = s2 / double( N ) - m * m;
            return two_sided_z( ( m - mean ) / std::sqrt( var / double( N ) ) );
        };
        return bonferroni( { z( sum, sq, 6 / M_PI * std::asin( cov / 2 ) ), z( nsum, nsq, cov ) } );
    } );
}
