// Vector Deffuant interactions
// BUILD: fuzzfacets=reachable,invariants,two
#include "scenario.hpp"
using namespace H;

PBT_PROPERTY( "P20", "a case is a vector Deffuant model with given vectors; non-trivial: some pair of agents differs within the threshold" );

namespace
{
using State = std::vector<std::vector<int>>;
using Sim   = Seldon::Simulation<Seldon::DiscreteVectorAgent>;

Sim make( uint32_t seed, size_t n, const Seldon::Config::DeffuantSettings & d, size_t k = 0 )
{
    return Sim( deffuant_options( seed, n, k, d ), std::nullopt, std::nullopt );
}
void put( Sim & sim, const State & x )
{
    for( size_t i = 0; i < x.size(); i++ )
        sim.network.agents[i].data.opinion = x[i];
}
State state( const Sim & sim )
{
    State x;
    for( auto & a : sim.network.agents )
        x.push_back( a.data.opinion );
    return x;
}
size_t distance( const std::vector<int> & a, const std::vector<int> & b )
{
    size_t d = 0;
    for( size_t k = 0; k < a.size(); k++ )
        d += a[k] != b[k];
    return d;
}
std::string text( const State & x )
{
    std::string t;
    for( auto & v : x )
    {
        for( int b : v )
            t += char( '0' + b );
        t += ' ';
    }
    return t;
}
double gen_threshold( Src & s, size_t dim )
{
    return s.chance( 1, 3 ) ? double( dim + 1 ) : s.flip() ? double( s.range( 1, dim + 1 ) ) : s.real( 0.1, double( dim ) + 1 );
}
} // namespace

// Small systems: the result is among those that n interactions can have
PBT_FACET( reachable, 30000, 500000 )
{
    Seldon::Config::DeffuantSettings d;
    d.use_binary_vector   = true;
    d.use_network         = s.chance( 1, 3 );
    size_t n              = d.use_network ? 4 : s.range( 2, 4 );
    d.dim                 = n == 2 ? s.range( 1, 6 ) : n == 3 ? s.range( 1, 3 ) : s.range( 1, 2 );
    d.homophily_threshold = gen_threshold( s, d.dim );
    d.mu                  = s.real( 0.01, 0.99 );
    uint32_t seed         = s.seed32();
    size_t k              = any_connections( s, n );
    State x( n, std::vector<int>( d.dim ) );
    for( auto & v : x )
        for( auto & b : v )
            b = (int)s.draw( 1 );
    c.show( fmt::format( "n={} dim={} lattice={} connections={} threshold={} mu={} seed={} x={}\n", n, d.dim, d.use_network, k, d.homophily_threshold, d.mu, seed, text( x ) ) );
    std::vector<std::pair<size_t, size_t>> pairs;
    for( size_t i = 0; i < n; i++ )
        for( size_t j = i + 1; j < n; j++ )
            if( !d.use_network || ( i ^ j ) != 3 )
                pairs.push_back( { i, j } );
    auto sim = make( seed, n, d, k );
    put( sim, x );
    sim.model->initialize_iterations();
    warm_up( s, c, sim.network, *sim.model );
    bool nontriv = false;
    for( size_t t = 0, T = s.size( 1, 3 ); t < T; t++ )
    {
        std::set<State> cur{ x };
        for( size_t k = 0; k < n; k++ )
        {
            std::set<State> next;
            for( auto & y : cur )
                for( auto [i, j] : pairs )
                {
                    size_t h = distance( y[i], y[j] );
                    if( !( double( h ) < d.homophily_threshold ) || h == 0 )
                    {
                        next.insert( y );
                        continue;
                    }
                    nontriv = true;
                    std::vector<size_t> diff;
                    for( size_t b = 0; b < d.dim; b++ )
                        if( y[i][b] != y[j][b] )
                            diff.push_back( b );
                    for( size_t mask = 0; mask < ( size_t( 1 ) << h ); mask++ )
                    {
                        auto z = y;
                        for( size_t b = 0; b < h; b++ )
                            z[i][diff[b]] = z[j][diff[b]] = ( mask >> b & 1 ) ? y[i][diff[b]] : y[j][diff[b]];
                        next.insert( z );
                    }
                }
            cur = std::move( next );
        }
        sim.model->iteration();
        auto got = state( sim );
        PBT_CHECK( c, cur.count( got ), "iteration {}: from {} to {}, which no {} interactions reach ({} states are reachable)", t, text( x ), text( got ), n, cur.size() );
        x = got;
    }
    c.nontrivial( nontriv );
    c.label( d.use_network ? "lattice" : fmt::format( "{} agents", n ) );
}

// Two agents: which of them adopts, coordinate by coordinate
PBT_FACET( sides, 5000, 60000 )
{
    Seldon::Config::DeffuantSettings d;
    d.use_binary_vector   = true;
    d.dim                 = s.range( 1, 7 );
    d.homophily_threshold = double( d.dim + 1 );
    d.mu                  = s.chance( 1, 4 ) ? 0.5 : s.real( 0.02, 0.98 );
    uint32_t seed         = s.seed32();
    State x( 2, std::vector<int>( d.dim ) );
    for( auto & v : x )
        for( auto & b : v )
            b = (int)s.draw( 1 );
    size_t h = distance( x[0], x[1] );
    c.show( fmt::format( "dim={} mu={} seed={} x={}\n", d.dim, d.mu, seed, text( x ) ) );
    if( h == 0 )
        return;
    c.nontrivial();
    std::vector<size_t> diff;
    for( size_t b = 0; b < d.dim; b++ )
        if( x[0][b] != x[1][b] )
            diff.push_back( b );
    std::vector<double> prob( size_t( 1 ) << h, 1.0 ); // bit set: the lower agent adopts
    for( size_t k = 0; k < prob.size(); k++ )
        for( size_t b = 0; b < h; b++ )
            prob[k] *= ( k >> b & 1 ) ? ( 1 - d.mu ) / 2 : ( 1 + d.mu ) / 2;
    stat_check( c, "which side adopts", 4000, [&]( uint64_t N, uint64_t stream ) {
        auto sim = make( seed + uint32_t( 977 * stream ), 2, d );
        sim.model->initialize_iterations();
        std::vector<uint64_t> count( prob.size(), 0 ), single( h, 0 );
        std::vector<double> ps;
        uint64_t lag = 0, prev = 0;
        for( uint64_t t = 0; t < N; t++ )
        {
            put( sim, x );
            sim.model->iteration();
            auto y = state( sim );
            PBT_CHECK( c, y[0] == y[1], "the two agents are {} after interacting", text( y ) );
            size_t k = 0;
            for( size_t b = 0; b < d.dim; b++ )
                PBT_CHECK( c, x[0][b] != x[1][b] || y[0][b] == x[0][b], "coordinate {} changed from {} to {}", b, text( x ), text( y ) );
            for( size_t b = 0; b < h; b++ )
                if( y[0][diff[b]] == x[1][diff[b]] )
                {
                    k |= size_t( 1 ) << b;
                    single[b]++;
                }
            count[k]++;
            uint64_t bit = k & 1;
            if( t > 0 )
                lag += bit & prev;
            prev = bit;
        }
        for( auto q : single )
            ps.push_back( binom_p( q, N, ( 1 - d.mu ) / 2 ) );
        ps.push_back( chi2_p( count, prob ) );
        double p = ( 1 - d.mu ) / 2, e = double( N - 1 ) * p * p, v = double( N - 1 ) * ( p * p * ( 1 - p * p ) + 2 * ( p * p * p - p * p * p * p ) );
        if( e > 30 )
            ps.push_back( two_sided_z( ( double( lag ) - e ) / std::sqrt( v ) ) );
        return bonferroni( ps );
    } );
    c.label( fmt::format( "{} coordinates differ", h ) );
}

// Two agents with long vectors: the sides that adopt are independent of each other, however far apart the coordinates
PBT_FACET( far_apart, 160, 3000 )
{
    Seldon::Config::DeffuantSettings d;
    d.use_binary_vector   = true;
    d.dim                 = s.chance( 1, 3 ) ? s.range( 2, 60 ) : s.range( 60, 2500 );
    d.homophily_threshold = double( d.dim + 1 );
    d.mu                  = s.real( 0.01, 0.6 );
    uint32_t seed         = s.seed32();
    c.show( fmt::format( "dim={} mu={} seed={}\n", d.dim, d.mu, seed ) );
    c.nontrivial();
    stat_check( c, "sides of far coordinates", 4000, [&]( uint64_t N, uint64_t stream ) {
        auto sim = make( seed + uint32_t( 977 * stream ), 2, d );
        sim.model->initialize_iterations();
        std::mt19937 bits( seed + stream );
        State x( 2, std::vector<int>( d.dim ) );
        std::vector<double> z, ps;
        double p = ( 1 - d.mu ) / 2;
        while( z.size() < N )
        {
            for( size_t k = 0; k < d.dim; k++ )
            {
                x[0][k] = int( bits() & 1 );
                x[1][k] = 1 - x[0][k];
            }
            put( sim, x );
            sim.model->iteration();
            auto y = state( sim );
            PBT_CHECK( c, y[0] == y[1], "the two agents differ after interacting" );
            for( size_t k = 0; k < d.dim; k++ )
                z.push_back( ( double( y[0][k] != x[0][k] ) - p ) / std::sqrt( p * ( 1 - p ) ) );
        }
        independence_ps( ps, z );
        return bonferroni( ps );
    } );
    c.label( d.dim > 60 ? "long" : "short" );
}

// Any size: vectors of bits of the configured length; what all agree on stays; nothing happens at or above the threshold
PBT_FACET( invariants, 30000, 500000 )
{
    Seldon::Config::DeffuantSettings d;
    d.use_binary_vector = true;
    d.use_network       = s.chance( 1, 3 );
    size_t n            = s.count( 2, 30 );
    if( d.use_network )
    {
        size_t L = pbt::large_max() ? s.range( 15, 45 ) : s.range( 2, 6 );
        n        = L * L;
    }
    d.dim                 = s.chance( 1, 60 ) ? s.range( 60, 300 ) : s.size( 1, 30 );
    d.homophily_threshold = gen_threshold( s, d.dim );
    d.mu                  = s.real( 0.01, 0.99 );
    uint32_t seed         = s.seed32();
    size_t k              = any_connections( s, n );
    c.show( fmt::format( "n={} dim={} lattice={} connections={} threshold={} mu={} seed={}\n", n, d.dim, d.use_network, k, d.homophily_threshold, d.mu, seed ) );
    auto sim = make( seed, n, d, k );
    // a few distinct vectors, so that agents at every distance occur
    if( s.flip() )
    {
        State x( n, std::vector<int>( d.dim ) ), base( s.range( 1, 3 ), std::vector<int>( d.dim ) );
        for( auto & v : base )
            for( auto & b : v )
                b = (int)s.draw( 1 );
        for( auto & v : x )
        {
            v = s.pick( base );
            for( size_t k = s.draw( 2 ); k-- > 0; )
                v[s.draw( d.dim - 1 )] ^= 1;
        }
        put( sim, x );
    }
    auto x = state( sim );
    sim.model->initialize_iterations();
    warm_up( s, c, sim.network, *sim.model );
    bool close_pair = false, frozen = true;
    for( size_t i = 0; i < n; i++ )
        for( size_t j = i + 1; j < n; j++ )
        {
            size_t h   = distance( x[i], x[j] );
            close_pair = close_pair || ( h > 0 && double( h ) < d.homophily_threshold );
            frozen     = frozen && ( h == 0 || !( double( h ) < d.homophily_threshold ) );
        }
    for( size_t t = 0, T = pbt::large_max() ? s.range( 1, 3 ) : s.chance( 1, 40 ) ? s.range( 10, 100 ) : s.size( 1, 6 ); t < T; t++ )
    {
        sim.model->iteration();
        auto y = state( sim );
        for( size_t i = 0; i < n; i++ )
        {
            PBT_CHECK( c, y[i].size() == d.dim, "iteration {}: a vector of length {}", t, y[i].size() );
            for( size_t k = 0; k < d.dim; k++ )
                PBT_CHECK( c, y[i][k] == 0 || y[i][k] == 1, "iteration {}: entry {}", t, y[i][k] );
        }
        for( size_t k = 0; k < d.dim; k++ )
        {
            size_t ones = 0, was = 0;
            for( size_t i = 0; i < n; i++ )
            {
                ones += size_t( y[i][k] );
                was += size_t( x[i][k] );
            }
            if( was == 0 || was == n )
                PBT_CHECK( c, ones == was, "iteration {}: coordinate {} changed although all agents agreed on it", t, k );
        }
        if( frozen )
            PBT_CHECK( c, x == y, "iteration {}: a vector changed although no pair is within the threshold", t );
        x = y;
    }
    c.nontrivial( close_pair );
    c.label( "frozen", frozen );
    c.label( "lattice", d.use_network );
}

PBT_LARGE( invariants, 2000, 40, 2000 );

// Two agents with vectors of any length: they agree after one iteration if their distance is below the threshold, and stay otherwise
PBT_FACET( two, 20000, 300000 )
{
    Seldon::Config::DeffuantSettings d;
    d.use_binary_vector = true;
    d.dim               = s.chance( 1, 8 ) ? s.range( 30, 400 ) : s.count( 1, 20 );
    d.mu                = s.real( 0.01, 0.99 );
    uint32_t seed       = s.seed32();
    State x( 2, std::vector<int>( d.dim ) );
    bool rare = s.flip();
    for( size_t k = 0; k < d.dim; k++ )
    {
        x[0][k] = (int)s.draw( 1 );
        x[1][k] = x[0][k] ^ int( rare ? s.chance( 1, 10 ) : s.flip() );
    }
    size_t h = distance( x[0], x[1] );
    switch( s.draw( 3 ) )
    {
        case 0:
            d.homophily_threshold = std::max( 0.5, double( h ) );
            break;
        case 1:
            d.homophily_threshold = double( h ) + s.pick( std::vector<double>{ 1e-9, 0.25, 1.0, 1000.0 } );
            break;
        case 2:
            d.homophily_threshold = std::max( 0.25, double( h ) - s.pick( std::vector<double>{ 1e-9, 0.25, 1.0 } ) );
            break;
        default:
            d.homophily_threshold = gen_threshold( s, d.dim );
    }
    c.show( fmt::format( "dim={} mu={} threshold={:.17g} seed={} x={}\n", d.dim, d.mu, d.homophily_threshold, seed, text( x ) ) );
    auto sim = make( seed, 2, d );
    put( sim, x );
    sim.model->initialize_iterations();
    warm_up( s, c, sim.network, *sim.model );
    sim.model->iteration();
    auto y = state( sim );
    if( double( h ) < d.homophily_threshold )
    {
        PBT_CHECK( c, y[0] == y[1], "at distance {} below the threshold, but the vectors still differ: {}", h, text( y ) );
        uint64_t adopted = 0;
        for( size_t k = 0; k < d.dim; k++ )
        {
            if( x[0][k] == x[1][k] )
                PBT_CHECK( c, y[0][k] == x[0][k], "coordinate {} was agreed on, but changed", k );
            adopted += y[0][k] != x[0][k];
        }
        double p = binom_p( adopted, h, ( 1 - d.mu ) / 2 );
        PBT_CHECK( c, p > 1e-14, "the lower agent adopted {} of {} coordinates (p-value {})", adopted, h, p );
    }
    else
        PBT_CHECK( c, y == x, "at distance {}, not below the threshold, but a vector changed: {}", h, text( y ) );
    c.nontrivial( h > 0 );
    c.label( double( h ) < d.homophily_threshold ? "meet" : "stay" );
}
PBT_LARGE( two, 70000, 60, 2000 );
