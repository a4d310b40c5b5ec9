// Power law, truncated normal, inverse error function
// BUILD: fuzzfacets=power_law,truncated_normal,erfinv
#include "common.hpp"
using namespace H;

PBT_PROPERTY( "P24", "a case is the parameters of a distribution with arguments for it, or an argument of erfinv; all cases are non-trivial; "
                     "parameters: eps in [1e-6, 0.95], gamma in [1.01, 8] with eps^(1-gamma) <= 1e8; eps from 8 sigma below to 30 sigma above the mean" );

namespace
{
struct PL
{
    double eps, gamma;
    Seldon::power_law_distribution<double> dist() const
    {
        return { eps, gamma };
    }
    double cdf( double x ) const
    {
        if( x <= eps )
            return 0;
        if( x >= 1 )
            return 1;
        long double g = 1.0L - gamma;
        return double( std::expm1( g * ( std::log( (long double)x ) - std::log( (long double)eps ) ) ) / std::expm1( -g * std::log( (long double)eps ) ) );
    }
};
PL gen_pl( Src & s )
{
    PL p;
    p.eps   = s.chance( 1, 4 ) ? double( s.range( 1, 19 ) ) / 20.0 : s.logreal( 1e-6, 0.95 );
    p.gamma = s.chance( 1, 4 ) ? 1.0 + double( s.range( 1, 28 ) ) / 4.0 : s.real( 1.01, 8.0 );
    // beyond this, the closed form itself cancels in double precision at the upper end
    p.gamma = std::min( p.gamma, 1.0 + 8.0 / -std::log10( p.eps ) );
    return p;
}
struct TN
{
    double mean, sigma, eps;
    Seldon::truncated_normal_distribution<double> dist() const
    {
        return { mean, sigma, eps };
    }
    double upper( double x ) const // P(N > x)
    {
        return 0.5 * std::erfc( ( x - mean ) / ( sigma * std::sqrt( 2.0 ) ) );
    }
    double cdf( double x ) const
    {
        if( x <= eps )
            return 0;
        return 1.0 - upper( x ) / upper( eps );
    }
    double density( double x ) const
    {
        double z = ( x - mean ) / sigma;
        return std::exp( -0.5 * z * z ) / ( sigma * std::sqrt( 2 * M_PI ) * upper( eps ) );
    }
};
TN gen_tn( Src & s )
{
    TN t;
    t.mean  = s.flip() ? s.real( -5, 5 ) : 1.0;
    t.sigma = s.logreal( 1e-3, 10 );
    t.eps   = t.mean + t.sigma * ( s.chance( 1, 8 ) ? s.real( 4, 30 ) : s.flip() ? s.real( -8, 4 ) : s.real( -3, 3 ) );
    return t;
}
double gen_y( Src & s )
{
    switch( s.draw( 2 ) )
    {
        case 0:
            return s.unit() * ( 1 - 2e-6 ) + 1e-6;
        case 1:
            return s.logreal( 1e-9, 0.5 );
        default:
            return 1.0 - s.logreal( 1e-9, 0.5 );
    }
}
// composite Gauss-Legendre (5 points) of the code's density
template<typename F>
double integrate( F f, double a, double b, int panels )
{
    static const double t[] = { 0.0, 0.5384693101056831, 0.9061798459386640 };
    static const double w[] = { 0.5688888888888889, 0.4786286704993665, 0.2369268850561891 };
    double sum = 0, h = ( b - a ) / panels;
    for( int k = 0; k < panels; k++ )
    {
        double m = a + ( k + 0.5 ) * h;
        sum += w[0] * f( m );
        for( int q = 1; q < 3; q++ )
            sum += w[q] * ( f( m - t[q] * h / 2 ) + f( m + t[q] * h / 2 ) );
    }
    return sum * h / 2;
}
// PIT values of successive draws: uniform, and uncorrelated with the previous one
double sequence_p( std::vector<double> & u )
{
    double corr = 0;
    for( size_t i = 1; i < u.size(); i++ )
        corr += ( u[i] - 0.5 ) * ( u[i - 1] - 0.5 );
    double z = corr * 12.0 / std::sqrt( double( u.size() - 1 ) );
    std::vector<double> ps, q( u.begin(), u.begin() + std::min<size_t>( u.size(), 2000 ) );
    for( auto & x : q )
        x = ( x - 0.5 ) * std::sqrt( 12.0 );
    independence_ps( ps, q );
    return bonferroni( { two_sided_z( z ), bonferroni( ps ), ks_p( u, []( double x ) { return x; } ) } );
}
} // namespace

PBT_FACET( power_law, 60000, 1000000 )
{
    auto p = gen_pl( s );
    auto d = p.dist();
    c.show( fmt::format( "power law eps={} gamma={}\n", p.eps, p.gamma ) );
    c.nontrivial();
    PBT_CHECK( c, close( d.inverse_cdf( 0.0 ), p.eps, 1e-11 ), "inverse_cdf(0) = {:.17g}, expected eps = {:.17g}", d.inverse_cdf( 0.0 ), p.eps );
    PBT_CHECK( c, close( d.inverse_cdf( 1.0 ), 1.0, 1e-6 ), "inverse_cdf(1) = {:.17g}", d.inverse_cdf( 1.0 ) );
    double y1 = gen_y( s ), y2 = gen_y( s );
    if( y1 > y2 )
        std::swap( y1, y2 );
    double x1 = d.inverse_cdf( y1 ), x2 = d.inverse_cdf( y2 );
    PBT_CHECK( c, x1 <= x2 * ( 1 + 1e-6 ), "inverse_cdf is not monotone: {} -> {}, {} -> {}", y1, x1, y2, x2 );
    for( auto [y, x] : { std::pair( y1, x1 ), std::pair( y2, x2 ) } )
    {
        PBT_CHECK( c, x >= p.eps * ( 1 - 1e-11 ) && x <= 1 + 1e-6, "inverse_cdf({}) = {:.17g} outside [eps, 1]", y, x );
        PBT_CHECK( c, close( p.cdf( x ), y, 1e-7, 1e-9 ), "inverse_cdf({:.17g}) = {:.17g}, whose distribution function is {:.17g}", y, x, p.cdf( x ) );
    }
    // the density integrates to the distribution function (in log x, where it is smooth)
    double total = integrate( [&]( double l ) { return d.pdf( std::exp( l ) ) * std::exp( l ); }, std::log( p.eps ), 0.0, 60 );
    PBT_CHECK( c, close( total, 1.0, 1e-6 ), "the density integrates to {:.12g}", total );
    double part = integrate( [&]( double l ) { return d.pdf( std::exp( l ) ) * std::exp( l ); }, std::log( p.eps ), std::log( x2 ), 60 );
    PBT_CHECK( c, close( part, y2, 1e-6, 1e-8 ), "the density integrates to {:.12g} up to inverse_cdf({:.12g})", part, y2 );
}

PBT_FACET( truncated_normal, 60000, 1000000 )
{
    auto t = gen_tn( s );
    auto d = t.dist();
    c.show( fmt::format( "truncated normal mean={} sigma={} eps={}\n", t.mean, t.sigma, t.eps ) );
    c.nontrivial();
    double y1 = gen_y( s ), y2 = gen_y( s );
    if( y1 > y2 )
        std::swap( y1, y2 );
    double x1 = d.inverse_cdf( y1 ), x2 = d.inverse_cdf( y2 );
    double scale = t.sigma + std::abs( t.mean ) * 1e-3;
    PBT_CHECK( c, x1 <= x2 + 1e-7 * scale, "inverse_cdf is not monotone: {} -> {}, {} -> {}", y1, x1, y2, x2 );
    for( auto [y, x] : { std::pair( y1, x1 ), std::pair( y2, x2 ) } )
    {
        PBT_CHECK( c, x >= t.eps - 1e-7 * scale && std::isfinite( x ), "inverse_cdf({}) = {:.17g} below eps", y, x );
        // both tails are compared; near the lower end rounding of 1 - cdf limits the accuracy
        PBT_CHECK( c, close( t.cdf( x ), y, 1e-6, 1e-10 ), "inverse_cdf({:.17g}) = {:.17g}, whose distribution function is {:.17g}", y, x, t.cdf( x ) );
        PBT_CHECK( c, close( t.upper( x ) / t.upper( t.eps ), 1 - y, 1e-4, 1e-10 ), "inverse_cdf({:.17g}) = {:.17g}, upper tail {:.17g}", y, x,
                   t.upper( x ) / t.upper( t.eps ) );
    }
    PBT_CHECK( c, d.pdf( t.eps - std::abs( t.eps ) * 1e-12 - t.sigma * s.logreal( 1e-6, 10 ) ) == 0.0, "the density below eps is not zero" );
    // also far out, where it hardly adds to the integral
    double far = t.eps + t.sigma * s.logreal( 1e-3, 25 ), z = std::max( 1.0, std::abs( far - t.mean ) / t.sigma );
    PBT_CHECK( c, close( d.pdf( far ), t.density( far ), 1e-11 * z * z + 1e-10, 1e-319 / t.sigma / t.upper( t.eps ) ), "the density at {:.17g} is {:.17g} instead of {:.17g}", far, d.pdf( far ), t.density( far ) );
    double end   = std::max( t.eps, t.mean ) + 9 * t.sigma;
    double total = integrate( [&]( double x ) { return d.pdf( x ); }, t.eps, end, 60 );
    PBT_CHECK( c, close( total, 1.0, 1e-6 ), "the density integrates to {:.12g}", total );
    double part = integrate( [&]( double x ) { return d.pdf( x ); }, t.eps, x2, 60 );
    PBT_CHECK( c, close( part, y2, 1e-6, 1e-8 ), "the density integrates to {:.12g} up to inverse_cdf({:.12g})", part, y2 );
}

PBT_FACET( samples, 800, 10000 )
{
    uint32_t seed = s.seed32();
    bool power    = s.flip();
    auto p        = gen_pl( s );
    auto t        = gen_tn( s );
    c.show( power ? fmt::format( "power law eps={} gamma={} seed={}\n", p.eps, p.gamma, seed )
                  : fmt::format( "truncated normal mean={} sigma={} eps={} seed={}\n", t.mean, t.sigma, t.eps, seed ) );
    c.label( power ? "power law" : "truncated normal" );
    c.nontrivial();
    stat_check( c, "samples", 40000, [&]( uint64_t N, uint64_t stream ) {
        std::mt19937 gen( seed + 7919 * stream );
        auto pd = p.dist();
        auto td = t.dist();
        std::vector<double> u( N );
        for( auto & y : u )
        {
            double x = power ? pd( gen ) : td( gen );
            PBT_CHECK( c, power ? ( x >= p.eps * ( 1 - 1e-11 ) && x <= 1 + 1e-6 ) : x >= t.eps - 1e-7 * ( t.sigma + std::abs( t.mean ) * 1e-3 ), "the sample {:.17g} is out of range", x );
            y = power ? p.cdf( x ) : t.cdf( x );
        }
        return sequence_p( u );
    } );
    // the same generator state gives the same draws
    std::mt19937 g1( seed ), g2( seed );
    auto a = p.dist(), b = p.dist();
    auto e = t.dist(), f = t.dist();
    for( int k = 0; k < 5; k++ )
        c.check( same_bits( a( g1 ), b( g2 ) ) && same_bits( e( g1 ), f( g2 ) ), "equal generators give different draws" );
}

PBT_FACET( erfinv, 200000, 4000000 )
{
    double x;
    switch( s.draw( 4 ) )
    {
        case 0:
            x = s.unit();
            break;
        case 1:
            x = 1.0 - s.logreal( 0x1p-53, 0.5 );
            break;
        case 2:
            x = s.logreal( 1e-300, 1 );
            break;
        case 3: // around the change of branches
            x = s.flip() ? 0.85 + s.real( -1e-3, 1e-3 ) : 1.0 - 2.0 * std::exp( -25.0 ) * ( 1 + s.real( -1e-3, 1e-3 ) );
            break;
        default:
            x = double( s.range( 0, 1000 ) ) / 1000.0;
    }
    x = std::min( x, 1.0 );
    if( s.flip() )
        x = -x;
    c.show( fmt::format( "x={:.17g}\n", x ) );
    c.nontrivial();
    double y = Seldon::Math::erfinv( x );
    if( std::abs( x ) == 1.0 )
        PBT_CHECK( c, std::isinf( y ) && ( y > 0 ) == ( x > 0 ), "erfinv({}) = {}", x, y );
    else
    {
        PBT_CHECK( c, std::isfinite( y ), "erfinv({:.17g}) = {}", x, y );
        PBT_CHECK( c, close( std::erf( y ), x, 1e-14, 1e-320 ), "erf(erfinv({:.17g})) = {:.17g}", x, std::erf( y ) );
        PBT_CHECK( c, close( std::erfc( std::abs( y ) ), 1.0 - std::abs( x ), 1e-11 ), "erfc(erfinv({:.17g})) = {:.17g}", x, std::erfc( std::abs( y ) ) );
        PBT_CHECK( c, same_bits( Seldon::Math::erfinv( -x ), -y ), "erfinv is not odd at {:.17g}: {:.17g} and {:.17g}", x, y, Seldon::Math::erfinv( -x ) );
        double x2 = x + s.logreal( 1e-12, 0.5 );
        if( x2 < 1 )
            PBT_CHECK( c, Seldon::Math::erfinv( x2 ) >= y - std::abs( y ) * 1e-13, "erfinv is not monotone between {:.17g} and {:.17g}", x, x2 );
    }
    double out = ( s.flip() ? 1 : -1 ) * ( s.flip() ? std::nextafter( 1.0, 2.0 ) : s.logreal( 1.0000001, 1e300 ) );
    PBT_CHECK( c, std::isnan( Seldon::Math::erfinv( out ) ), "erfinv({:.17g}) = {}", out, Seldon::Math::erfinv( out ) );
    float xf = float( x );
    float yf = Seldon::Math::erfinv( xf );
    if( std::abs( xf ) < 0.999f )
        PBT_CHECK( c, close( std::erf( double( yf ) ), xf, 1e-5, 1e-40 ), "in single precision erf(erfinv({})) = {}", xf, std::erf( double( yf ) ) );
}
