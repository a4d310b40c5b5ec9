// Weighted reservoir sampling
// BUILD: fuzzfacets=set
#include "common.hpp"
using namespace H;

PBT_PROPERTY( "P23", "a case is (k, weights, seed, earlier buffer contents); non-trivial: 1 <= k < number of positive weights" );

namespace
{
std::vector<double> gen_weights( Src & s, size_t n )
{
    std::vector<double> w( n );
    size_t kind = s.draw( 5 );
    if( n > 2000 )
    {
        std::vector<double> few = gen_weights( s, 60 );
        std::mt19937_64 g( s.seed32() );
        for( auto & x : w )
            x = few[g() % 60];
        return w;
    }
    for( auto & x : w )
    {
        if( s.chance( 1, 5 ) )
        {
            x = 0;
            continue;
        }
        switch( kind )
        {
            case 0:
                x = 1;
                break;
            case 1:
                x = s.real( 0.01, 5 );
                break;
            case 2:
                x = s.chance( 1, 8 ) ? s.pick( std::vector<double>{ 5e-324, 1e-310, 1e-305, 2.3e-308, 1e250, 1e300 } ) : s.logreal( 1e-200, 1e200 );
                break;
            case 3:
                x = s.logreal( 1e-3, 1e3 );
                break;
            case 4: // a few dominate
                x = s.chance( 1, 5 ) ? 1e30 : 1.0;
                break;
            default: // the model's homophily weights
                x = std::pow( std::max( 1e-10, s.logreal( 1e-12, 4 ) ), -s.real( 0, 4 ) );
        }
    }
    return w;
}
std::string show( const std::vector<double> & w )
{
    return fmt::format( "[{}]", fmt::join( w, " " ) );
}

// exact distribution of the set drawn one after another without replacement
void enumerate( const std::vector<double> & w, size_t k, std::vector<char> & used, std::vector<size_t> & cur, double p, double rest,
                std::map<std::vector<size_t>, double> & out )
{
    if( cur.size() == k )
    {
        auto v = cur;
        std::sort( v.begin(), v.end() );
        out[v] += p;
        return;
    }
    for( size_t i = 0; i < w.size(); i++ )
        if( !used[i] && w[i] > 0 )
        {
            used[i] = 1;
            cur.push_back( i );
            double r = 0;
            for( size_t j = 0; j < w.size(); j++ )
                r += used[j] ? 0 : w[j];
            enumerate( w, k, used, cur, p * w[i] / rest, r, out );
            cur.pop_back();
            used[i] = 0;
        }
}
} // namespace

PBT_FACET( set, 200000, 4000000 )
{
    size_t n = s.chance( 1, 50 ) ? s.range( 50, 1500 ) : s.count( 0, 30 );
    auto w   = gen_weights( s, n );
    size_t positive = 0;
    for( auto x : w )
        positive += x > 0;
    size_t k = s.chance( 1, 4 ) ? positive : s.size( 0, n + 3 );
    std::vector<size_t> buf( s.size( 0, 20 ), 987654 );
    uint32_t seed = s.seed32();
    c.show( fmt::format( "k={} seed={} buffer of {} weights={}\n", k, seed, buf.size(), show( w ) ) );
    std::mt19937 gen( seed );
    auto fn = [&]( auto i ) {
        PBT_CHECK( c, size_t( i ) < n, "weight of {} of {} was asked for", size_t( i ), n );
        return w[i];
    };
    Seldon::reservoir_sampling_A_ExpJ( k, n, fn, buf, gen );
    size_t want = std::min( k, positive );
    std::set<size_t> d( buf.begin(), buf.end() );
    PBT_CHECK( c, d.size() == buf.size(), "drawn twice: [{}]", fmt::join( buf, " " ) );
    for( auto x : buf )
    {
        PBT_CHECK( c, x < n, "{} was drawn from {}", x, n );
        PBT_CHECK( c, w[x] > 0, "{} has weight zero and was drawn", x );
    }
    PBT_CHECK( c, buf.size() == want, "{} numbers were drawn, expected {}: [{}]", buf.size(), want, fmt::join( buf, " " ) );
    std::mt19937 gen2( seed );
    std::vector<size_t> buf2( s.draw( 40 ), 3 );
    Seldon::reservoir_sampling_A_ExpJ( k, n, fn, buf2, gen2 );
    std::set<size_t> d2( buf2.begin(), buf2.end() );
    c.check( d == d2, "the sample depends on the earlier contents of the buffer" );
    c.nontrivial( k >= 1 && k < positive );
    c.label( k == 0 ? "k=0" : k > positive ? "k>positive" : k == positive ? "k=positive" : "k<positive" );
}

PBT_LARGE( set, 200000, 80, 4000 );

// Numbers of items up to more than 2^16: none is out of reach, however far back, and an item that outweighs all others is always there
PBT_FACET( reach, 40, 600 )
{
    size_t n      = s.chance( 1, 3 ) ? ( size_t( 1 ) << s.range( 8, 17 ) ) + s.range( 0, 4 ) : s.big( 300, 150000 );
    size_t k      = s.range( n / 2, n - 1 ), giant = s.chance( 1, 3 ) ? n - 1 : s.draw( n - 1 );
    uint32_t seed = s.seed32();
    double scale  = s.flip() ? 1.0 : std::pow( 10.0, double( s.range( -100, 100 ) ) );
    c.show( fmt::format( "k={} n={} giant={} scale={} seed={}\n", k, n, giant, scale, seed ) );
    c.nontrivial();
    std::mt19937 gen( seed );
    std::vector<char> seen( n );
    std::vector<size_t> buf;
    size_t rounds = n > 30000 ? 60 : 100; // missing from all of them by chance: at most 2^-60 for each
    for( size_t t = 0; t < rounds; t++ )
    {
        Seldon::reservoir_sampling_A_ExpJ( k, n, [&]( auto ) { return scale; }, buf, gen );
        PBT_CHECK( c, buf.size() == k, "{} drawn of {}", buf.size(), k );
        std::vector<char> in( n );
        for( auto x : buf )
        {
            PBT_CHECK( c, x < n && !in[x], "{} of {} is out of range or drawn twice", x, n );
            in[x] = seen[x] = 1;
        }
    }
    for( size_t i = 0; i < n; i++ )
        PBT_CHECK( c, seen[i], "{} was never drawn in {} samples of {} from {}", i, rounds, k, n );
    for( size_t j : { size_t( 1 ), size_t( 3 ) } )
        for( int t = 0; t < 3; t++ )
        {
            Seldon::reservoir_sampling_A_ExpJ( j, n, [&]( auto i ) { return size_t( i ) == giant ? 1e40 * scale : scale; }, buf, gen );
            PBT_CHECK( c, std::find( buf.begin(), buf.end(), giant ) != buf.end(), "item {} of {} has 1e40 times the weight of any other, but is not among the {} drawn", giant, n, j );
        }
}

PBT_FACET( distribution, 240, 3000 )
{
    size_t n = s.range( 2, 6 );
    std::vector<double> w( n );
    size_t kind = s.draw( 3 );
    for( auto & x : w )
        switch( kind )
        {
            case 0:
                x = double( s.range( 0, 4 ) );
                break;
            case 1:
                x = s.logreal( 0.05, 20 );
                break;
            case 2:
                x = s.chance( 1, 6 ) ? 0.0 : s.logreal( 0.2, 5 );
                break;
            default:
                x = std::pow( s.logreal( 1e-2, 2 ), -s.real( 0, 1.5 ) );
        }
    double scale = s.flip() ? 1.0 : std::pow( 10.0, double( s.range( -150, 150 ) ) );
    size_t positive = 0;
    double total    = 0;
    for( auto x : w )
    {
        positive += x > 0;
        total += x;
    }
    if( positive < 2 )
        throw pbt::Discard{};
    size_t k      = s.range( 1, positive - 1 );
    uint32_t seed = s.seed32();
    c.show( fmt::format( "k={} weights={} scaled by {} seed={}\n", k, show( w ), scale, seed ) );
    c.nontrivial();
    c.label( scale == 1.0 ? "plain" : "scaled" );
    std::map<std::vector<size_t>, double> exact;
    std::vector<char> used( n, 0 );
    std::vector<size_t> cur;
    enumerate( w, k, used, cur, 1.0, total, exact );
    stat_check( c, fmt::format( "sets of {} by weight", k ), 60000, [&]( uint64_t N, uint64_t stream ) {
        std::mt19937 gen( seed + 7919 * stream );
        std::map<std::vector<size_t>, uint64_t> count;
        std::vector<size_t> buf;
        for( uint64_t t = 0; t < N; t++ )
        {
            Seldon::reservoir_sampling_A_ExpJ( k, n, [&]( auto i ) { return w[i] * scale; }, buf, gen );
            auto b = buf;
            std::sort( b.begin(), b.end() );
            count[b]++;
        }
        std::vector<uint64_t> cnt;
        std::vector<double> pr;
        for( auto & [key, p] : exact )
        {
            pr.push_back( p );
            cnt.push_back( count.count( key ) ? count[key] : 0 );
            count.erase( key );
        }
        if( !count.empty() )
            return 0.0;
        return chi2_p( cnt, pr );
    } );
}

// Larger systems: a heavy item is included almost always, inclusion is monotone in the weight, equal weights are equally likely
PBT_FACET( marginals, 80, 800 )
{
    size_t n      = s.range( 10, 80 );
    size_t k      = s.range( 1, n / 2 );
    size_t groups = s.range( 1, 3 );
    std::vector<double> level( groups );
    for( auto & x : level )
        x = s.logreal( 0.1, 10 );
    double scale = s.flip() ? 1.0 : std::pow( 10.0, double( s.range( -100, 100 ) ) );
    std::vector<size_t> g( n );
    for( auto & x : g )
        x = s.draw( groups - 1 );
    uint32_t seed = s.seed32();
    c.show( fmt::format( "n={} k={} levels={} scale={} seed={}\n", n, k, show( level ), scale, seed ) );
    c.nontrivial();
    // within a group all items are exchangeable
    stat_check( c, "items of equal weight", 15000, [&]( uint64_t N, uint64_t stream ) {
        std::mt19937 gen( seed + 7919 * stream );
        std::vector<uint64_t> cnt( n );
        std::vector<size_t> buf;
        for( uint64_t t = 0; t < N; t++ )
        {
            Seldon::reservoir_sampling_A_ExpJ( k, n, [&]( auto i ) { return level[g[i]] * scale; }, buf, gen );
            for( auto x : buf )
                cnt[x]++;
        }
        std::vector<double> ps;
        for( size_t q = 0; q < groups; q++ )
        {
            double tot = 0, m = 0;
            for( size_t i = 0; i < n; i++ )
                if( g[i] == q )
                {
                    tot += double( cnt[i] );
                    m++;
                }
            if( m < 2 )
                continue;
            double p = tot / m / double( N );
            if( p <= 0 || p >= 1 )
                continue;
            for( size_t i = 0; i < n; i++ )
                if( g[i] == q )
                {
                    // the mean is estimated from the same data, which only makes the deviation smaller
                    double z = ( double( cnt[i] ) - p * double( N ) ) / std::sqrt( double( N ) * p * ( 1 - p ) );
                    ps.push_back( two_sided_z( z ) );
                }
        }
        return bonferroni( ps );
    } );
    // k = 1 is the plain weighted choice
    stat_check( c, "k = 1", 60000, [&]( uint64_t N, uint64_t stream ) {
        std::mt19937 gen( seed + 7919 * stream + 13 );
        std::vector<uint64_t> cnt( n );
        std::vector<double> pr( n );
        std::vector<size_t> buf;
        for( uint64_t t = 0; t < N; t++ )
        {
            Seldon::reservoir_sampling_A_ExpJ( size_t( 1 ), n, [&]( auto i ) { return level[g[i]] * scale; }, buf, gen );
            cnt[buf.at( 0 )]++;
        }
        for( size_t i = 0; i < n; i++ )
            pr[i] = level[g[i]];
        return chi2_p( cnt, pr );
    } );
}
