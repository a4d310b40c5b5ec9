// Contact probabilities of the activity-driven models
#include "activity.hpp"
// BUILD: plain
using namespace H;

PBT_PROPERTY( "P13", "a case is a small model whose opinions and activities are put back before each of tens of thousands of iterations; "
                     "non-trivial: some agent is active and chooses among others" );

namespace
{
using SetDist = std::map<uint32_t, double>; // contact set (bit mask) -> probability

void enumerate( const std::vector<double> & w, size_t m, uint32_t cur, double p, SetDist & out )
{
    double rest = 0;
    for( size_t j = 0; j < w.size(); j++ )
        if( !( cur >> j & 1 ) )
            rest += w[j];
    if( size_t( __builtin_popcount( cur ) ) == m || rest <= 0 )
    {
        out[cur] += p;
        return;
    }
    for( size_t j = 0; j < w.size(); j++ )
        if( !( cur >> j & 1 ) && w[j] > 0 )
            enumerate( w, m, cur | 1u << j, p * w[j] / rest, out );
}

template<typename M>
void frequencies( Src & s, Ctx & c )
{
    size_t n = s.chance( 1, 12 ) ? s.range( 6, 9 ) : s.range( 2, 5 );
    typename M::Settings a;
    a.dt          = 1e-3;
    a.m           = (int)s.range( 1, n > 5 ? 3 : n );
    a.homophily   = s.chance( 1, 4 ) ? 0.0 : s.chance( 1, 3 ) ? s.real( 0, 0.25 ) : s.chance( 1, 6 ) ? s.real( -2, 0 ) : s.real( 0, 1.5 );
    a.reciprocity = s.chance( 1, 3 ) ? 0.0 : s.chance( 1, 8 ) ? 1.0 : s.real( 0.05, 0.95 );
    if( s.chance( 1, 2 ) )
    {
        a.n_bots = s.range( 1, n );
        for( size_t i = 0; i < a.n_bots; i++ )
        {
            a.bot_m.push_back( (int)s.range( 0, 3 ) );
            a.bot_activity.push_back( s.real( 0.2, 1 ) );
            a.bot_opinion.push_back( s.real( -2, 2 ) );
            a.bot_homophily.push_back( s.chance( 1, 6 ) ? s.real( -2, 0 ) : s.real( 0, 1.5 ) );
        }
    }
    std::vector<double> x( n ), act( n );
    for( size_t i = 0; i < n; i++ )
    {
        act[i] = i < a.n_bots ? a.bot_activity[i] : s.chance( 1, 8 ) ? double( s.draw( 1 ) ) : s.real( 0.1, 1 );
        if( i < a.n_bots )
            x[i] = a.bot_opinion[i];
        else if( i > 0 && s.chance( 1, 3 ) )
            x[i] = x[s.draw( i - 1 )] + ( s.flip() ? 0.0 : s.pick( std::vector<double>{ 1e-12, 1e-10, 1e-9, 1e-3 } ) );
        else
            x[i] = s.real( -2, 2 );
    }
    uint32_t seed = s.seed32();
    c.show( fmt::format( "{} n={} seed={} x=[{}] a=[{}] {}", M::inertial ? "inertial" : "plain", n, seed, fmt::join( x, " " ), fmt::join( act, " " ), show_activity( a ) ) );

    // exact distributions of the contact sets
    std::vector<SetDist> sets( n );
    std::vector<std::vector<double>> p( n, std::vector<double>( n, 0 ) );
    bool choice = false;
    for( size_t i = 0; i < n; i++ )
    {
        std::vector<double> w( n, 0 );
        for( size_t j = 0; j < n; j++ )
            if( j != i )
                w[j] = std::pow( std::max( 1e-10, std::abs( x[i] - x[j] ) ), -homophily_of( a, i ) );
        SetDist d;
        size_t m = std::min( m_of( a, i ), n - 1 );
        enumerate( w, m, 0, 1.0, d );
        for( auto & [set, pr] : d )
            sets[i][set] += act[i] * pr;
        sets[i][0] += 1 - act[i];
        for( auto & [set, pr] : sets[i] )
            for( size_t j = 0; j < n; j++ )
                if( set >> j & 1 )
                    p[i][j] += pr;
        choice = choice || ( act[i] > 0 && m > 0 && m < n - 1 );
    }
    c.nontrivial( choice );
    c.label( M::inertial ? "inertial" : "plain" );
    c.label( a.reciprocity == 0.0 ? "reciprocity 0" : "reciprocity" );
    c.label( "bots", a.n_bots > 0 );
    // for three agents, the whole network
    std::vector<double> joint;
    if( n <= 3 )
    {
        joint.assign( size_t( 1 ) << ( n * n ), 0.0 );
        std::vector<uint32_t> cur( n );
        auto rec = [&]( auto && self, size_t i, double pr ) -> void {
            if( pr <= 0 )
                return;
            if( i < n )
            {
                for( auto & [set, q] : sets[i] )
                {
                    cur[i] = set;
                    self( self, i + 1, pr * q );
                }
                return;
            }
            std::vector<std::pair<size_t, size_t>> open;
            uint32_t adj = 0;
            for( size_t u = 0; u < n; u++ )
                for( size_t v = 0; v < n; v++ )
                    if( cur[u] >> v & 1 )
                    {
                        adj |= 1u << ( u * n + v );
                        if( !( cur[v] >> u & 1 ) )
                            open.push_back( { v, u } );
                    }
            for( uint32_t mask = 0; mask < ( 1u << open.size() ); mask++ )
            {
                double q   = pr;
                uint32_t g = adj;
                for( size_t e = 0; e < open.size(); e++ )
                    if( mask >> e & 1 )
                    {
                        q *= a.reciprocity;
                        g |= 1u << ( open[e].first * n + open[e].second );
                    }
                    else
                        q *= 1 - a.reciprocity;
                joint[g] += q;
            }
        };
        rec( rec, 0, 1.0 );
    }

    stat_check( c, "contacts", 24000, [&]( uint64_t N, uint64_t stream ) {
        auto sim = make_sim<M>( seed + uint32_t( 7919 * stream ), n, a );
        sim.model->initialize_iterations();
        std::vector<std::vector<uint64_t>> pair_cells( n * n, std::vector<uint64_t>( 4, 0 ) );
        std::vector<std::map<uint32_t, uint64_t>> set_count( n );
        std::vector<uint64_t> joint_count( joint.size(), 0 );
        std::vector<uint64_t> edges( N );
        std::vector<uint32_t> out( n );
        for( uint64_t t = 0; t < N; t++ )
        {
            for( size_t i = 0; i < n; i++ )
            {
                sim.network.agents[i].data.opinion  = x[i];
                sim.network.agents[i].data.activity = act[i];
            }
            sim.model->iteration();
            std::fill( out.begin(), out.end(), 0u );
            for( size_t j = 0; j < n; j++ )
                for( size_t i : sim.network.get_neighbours( j ) )
                    out.at( i ) |= 1u << j;
            uint32_t g = 0;
            for( size_t i = 0; i < n; i++ )
            {
                g |= n <= 3 ? out[i] << ( i * n ) : 0;
                edges[t] += __builtin_popcount( out[i] );
                set_count[i][out[i]]++;
                for( size_t j = i + 1; j < n; j++ )
                    pair_cells[i * n + j][( out[i] >> j & 1 ) * 2 + ( out[j] >> i & 1 )]++;
            }
            if( !joint.empty() )
                joint_count[g]++;
        }
        std::vector<double> ps;
        double r = a.reciprocity;
        for( size_t i = 0; i < n; i++ )
            for( size_t j = i + 1; j < n; j++ )
            {
                double u = p[i][j], v = p[j][i];
                auto clip = []( double q ) { return q < 1e-13 ? 0.0 : q; };
                ps.push_back( chi2_p( pair_cells[i * n + j], { clip( ( 1 - u ) * ( 1 - v ) ), clip( ( 1 - u ) * v * ( 1 - r ) ), clip( u * ( 1 - v ) * ( 1 - r ) ),
                                                             clip( u * v + r * ( u * ( 1 - v ) + v * ( 1 - u ) ) ) } ) );
            }
        if( r == 0.0 )
            for( size_t i = 0; i < n; i++ )
            {
                std::vector<uint64_t> cnt;
                std::vector<double> pr;
                for( auto & [set, q] : sets[i] )
                {
                    cnt.push_back( set_count[i].count( set ) ? set_count[i][set] : 0 );
                    pr.push_back( q );
                    set_count[i].erase( set );
                }
                ps.push_back( set_count[i].empty() ? chi2_p( cnt, pr ) : 0.0 );
            }
        if( !joint.empty() )
            ps.push_back( chi2_p( joint_count, joint ) );
        // iterations are independent of each other
        double mean = 0, var = 0, cov = 0;
        for( auto e : edges )
            mean += double( e ) / double( N );
        for( uint64_t t = 0; t < N; t++ )
        {
            var += ( double( edges[t] ) - mean ) * ( double( edges[t] ) - mean );
            if( t > 0 )
                cov += ( double( edges[t] ) - mean ) * ( double( edges[t - 1] ) - mean );
        }
        if( *std::min_element( edges.begin(), edges.end() ) != *std::max_element( edges.begin(), edges.end() ) )
            ps.push_back( two_sided_z( cov / var * std::sqrt( double( N ) ) ) );
        return bonferroni( ps );
    } );
}
} // namespace

PBT_FACET( frequencies, 1200, 20000 )
{
    if( s.chance( 1, 3 ) )
        frequencies<Inertial>( s, c );
    else
        frequencies<Plain>( s, c );
}

// Many agents and many contacts: how often agents at every distance are contacted, against an independent sampler (the m smallest of
// exponential variables with the weights as rates are a weighted sample without replacement)
namespace
{
template<typename M>
void many( Src & s, Ctx & c )
{
    size_t n = s.big( 30, 2000 );
    typename M::Settings a;
    a.dt          = 1e-3;
    a.m           = (int)( s.chance( 1, 6 ) ? 1 : s.flip() ? s.big( 1, n - 1 ) : s.range( 1, 12 ) );
    a.homophily   = s.chance( 1, 3 ) ? 0.0 : s.real( 0, 1.5 );
    a.reciprocity = 0;
    size_t active = s.range( 1, 3 );
    if( s.flip() )
    {
        a.n_bots = s.size( 1, n );
        for( size_t i = 0; i < a.n_bots; i++ )
        {
            a.bot_m.push_back( int( ( size_t( a.m ) * ( 1 + i % 3 ) ) % n ) );
            a.bot_activity.push_back( 0 );
            a.bot_opinion.push_back( double( i % 17 ) / 4 - 2 );
            a.bot_homophily.push_back( double( i % 4 ) / 3 );
        }
    }
    std::vector<double> x( n ), act( n, 0.0 );
    std::mt19937_64 fillx( s.seed32() );
    for( size_t i = 0; i < n; i++ )
        x[i] = i < a.n_bots ? a.bot_opinion[i] : double( fillx() % 4001 ) / 1000 - 2;
    std::vector<size_t> who;
    while( who.size() < active )
    {
        size_t i = s.chance( 1, 3 ) ? n - 1 : s.chance( 1, 4 ) ? 0 : s.draw( n - 1 );
        if( act[i] == 0 )
            who.push_back( i ), act[i] = 1;
        else
            break;
    }
    uint32_t seed = s.seed32();
    c.show( fmt::format( "{} n={} m={} homophily={} bots={} seed={} watched agents: {}\n", M::inertial ? "inertial" : "plain", n, a.m, a.homophily, a.n_bots, seed, fmt::join( who, " " ) ) );
    // cells: agents by index and by distance from the one that is watched
    const size_t B = 6;
    std::vector<std::vector<size_t>> cell( who.size(), std::vector<size_t>( n ) );
    std::vector<std::vector<double>> w( who.size(), std::vector<double>( n, 0.0 ) );
    for( size_t q = 0; q < who.size(); q++ )
    {
        size_t i = who[q];
        std::vector<size_t> order( n );
        std::iota( order.begin(), order.end(), 0 );
        std::sort( order.begin(), order.end(), [&]( size_t u, size_t v ) { return std::abs( x[u] - x[i] ) < std::abs( x[v] - x[i] ); } );
        for( size_t r = 0; r < n; r++ )
            cell[q][order[r]] = ( r * 3 / n ) * 2 + ( order[r] * 2 / n );
        for( size_t j = 0; j < n; j++ )
            if( j != i )
                w[q][j] = std::pow( std::max( 1e-10, std::abs( x[i] - x[j] ) ), -homophily_of( a, i ) );
    }
    stat_check( c, "contacts by distance and index", 300, [&]( uint64_t N, uint64_t stream ) {
        auto sim = make_sim<M>( seed + uint32_t( 7919 * stream ), n, a );
        sim.model->initialize_iterations();
        std::mt19937_64 ref( seed * 977 + stream );
        std::vector<double> ps;
        std::vector<std::vector<double>> s1( who.size(), std::vector<double>( 2 * B, 0 ) ), s2 = s1, r1 = s1, r2 = s1;
        std::vector<std::vector<uint64_t>> each( who.size(), std::vector<uint64_t>( n, 0 ) );
        // how many agents two of the watched ones contact both
        std::vector<uint64_t> both( who.size() * who.size(), 0 ), both_ref = both;
        auto overlaps = [&]( auto & count, const std::vector<std::set<size_t>> & sets ) {
            for( size_t p = 0; p < sets.size(); p++ )
                for( size_t q = 0; q < p; q++ )
                    for( size_t j : sets[q] )
                        count[p * who.size() + q] += sets[p].count( j );
        };
        for( uint64_t t = 0; t < N; t++ )
        {
            std::vector<std::set<size_t>> contacts( who.size() ), contacts_ref( who.size() );
            for( size_t i = 0; i < n; i++ )
            {
                sim.network.agents[i].data.opinion  = x[i];
                sim.network.agents[i].data.activity = act[i];
            }
            sim.model->iteration();
            std::vector<std::vector<double>> got( who.size(), std::vector<double>( B, 0 ) ), want = got;
            for( size_t j = 0; j < n; j++ )
                for( size_t i : sim.network.get_neighbours( j ) )
                {
                    size_t q = std::find( who.begin(), who.end(), i ) - who.begin();
                    PBT_CHECK( c, q < who.size(), "agent {} has activity 0, but contacted {}", i, j );
                    got[q][cell[q][j]]++;
                    each[q][j]++;
                    contacts[q].insert( j );
                }
            for( size_t q = 0; q < who.size(); q++ )
            {
                size_t m = std::min( m_of( a, who[q] ), n - 1 ), total = 0;
                for( double g : got[q] )
                    total += size_t( g );
                PBT_CHECK( c, total == m, "agent {} contacted {} agents, m is {}", who[q], total, m );
                std::vector<std::pair<double, size_t>> key;
                for( size_t j = 0; j < n; j++ )
                    if( j != who[q] )
                        key.push_back( { std::exponential_distribution<double>( 1.0 )( ref ) / w[q][j], j } );
                if( m < key.size() )
                    std::nth_element( key.begin(), key.begin() + m, key.end() );
                for( size_t k = 0; k < m; k++ )
                    want[q][cell[q][key[k].second]]++, contacts_ref[q].insert( key[k].second );
                for( size_t b = 0; b < B; b++ )
                {
                    s1[q][b] += got[q][b], s2[q][b] += got[q][b] * got[q][b];
                    r1[q][b] += want[q][b], r2[q][b] += want[q][b] * want[q][b];
                }
            }
            overlaps( both, contacts );
            overlaps( both_ref, contacts_ref );
        }
        // overlaps vary less than a Poisson variable would, which makes this test of equal means a cautious one
        for( size_t q = 0; q < both.size(); q++ )
            if( both[q] + both_ref[q] > 0 )
                ps.push_back( binom_p( both[q], both[q] + both_ref[q], 0.5 ) );
        for( size_t q = 0; q < who.size(); q++ )
        {
            for( size_t b = 0; b < B; b++ )
            {
                double m1 = s1[q][b] / N, m2 = r1[q][b] / N, v = s2[q][b] / N - m1 * m1 + r2[q][b] / N - m2 * m2;
                if( s1[q][b] + r1[q][b] > 60 && v > 1e-9 )
                    ps.push_back( two_sided_z( ( m1 - m2 ) / std::sqrt( v / N ) ) );
            }
            if( homophily_of( a, who[q] ) == 0 )
                for( size_t j = 0; j < n; j++ )
                    ps.push_back( binom_p( each[q][j], N, j == who[q] ? 0.0 : double( std::min( m_of( a, who[q] ), n - 1 ) ) / double( n - 1 ) ) );
        }
        return bonferroni( ps );
    } );
    c.nontrivial( a.m > 0 && size_t( a.m ) < n - 1 );
    c.label( M::inertial ? "inertial" : "plain" );
    c.label( "bots", a.n_bots > 0 );
    c.label( "m above 30", a.m > 30 );
}
} // namespace

// Everything random in successive agents and iterations is independent, however far apart: who is active, whom an agent contacts, who reciprocates
namespace
{
template<typename M>
void sequence( Src & s, Ctx & c )
{
    typename M::Settings a;
    size_t n      = s.chance( 1, 3 ) ? s.range( 3, 12 ) : s.range( 12, 300 );
    a.dt          = 1e-3;
    a.m           = int( s.chance( 1, 2 ) ? 1 : s.range( 1, std::min<size_t>( n - 1, 6 ) ) );
    a.homophily   = 0;
    int mode      = int( s.draw( 2 ) ); // 0: activation and contacts, 1: reciprocation, 2: everybody is active
    if( mode == 1 ) // so many that mutual contacts, which depend on each other, are rare
    {
        n   = s.range( 80, 300 );
        a.m = int( s.range( 1, 2 ) );
    }
    a.reciprocity = mode == 1 ? s.real( 0.3, 0.7 ) : 0.0;
    double act    = mode == 0 ? s.real( 0.25, 0.75 ) : mode == 1 ? 0.3 : 1.0;
    uint32_t seed = s.seed32();
    c.show( fmt::format( "sequence: {} n={} m={} reciprocity={} activity={} seed={}\n", M::inertial ? "inertial" : "plain", n, a.m, a.reciprocity, act, seed ) );
    stat_check( c, "draws far apart", 3000, [&]( uint64_t N, uint64_t stream ) {
        auto sim = make_sim<M>( seed + uint32_t( 7919 * stream ), n, a );
        sim.model->initialize_iterations();
        std::vector<double> active, contact, reciprocal;
        auto put = []( std::vector<double> & v, bool hit, double p ) { v.push_back( ( double( hit ) - p ) / std::sqrt( p * ( 1 - p ) ) ); };
        while( std::max( active.size(), reciprocal.size() ) < N )
        {
            for( auto & g : sim.network.agents )
                g.data.activity = act, g.data.opinion = 0;
            sim.model->iteration();
            std::vector<std::vector<size_t>> out( n );
            for( size_t j = 0; j < n; j++ )
                for( size_t i : sim.network.get_neighbours( j ) )
                    out[i].push_back( j ); // ascending
            if( mode == 1 )
            {
                // of two agents with an edge at least one contacted the other; the edge back is there with probability r, or if the contact was mutual
                double q = act * double( a.m ) / double( n - 1 ), one = q * ( 1 - q ), both = q * q + 2 * one * a.reciprocity, p = both / ( q * q + 2 * one );
                for( size_t i = 0; i < n; i++ )
                    for( size_t j = i + 1; j < n; j++ )
                    {
                        bool ij = std::binary_search( out[i].begin(), out[i].end(), j ), ji = std::binary_search( out[j].begin(), out[j].end(), i );
                        if( ij || ji )
                            put( reciprocal, ij && ji, p );
                    }
                if( reciprocal.size() == 0 && active.size() > 100 * N )
                    break;
                continue;
            }
            for( size_t i = 0; i < n; i++ )
            {
                if( mode == 0 )
                    put( active, !out[i].empty(), act );
                else
                    active.push_back( 0 );
                // the contact, numbered from the agent on
                if( a.m == 1 && out[i].size() == 1 && n > 3 )
                {
                    double k = double( ( out[i][0] + n - i ) % n ) - 1, mean = ( double( n ) - 2 ) / 2, sd = std::sqrt( ( double( n - 1 ) * double( n - 1 ) - 1 ) / 12 );
                    contact.push_back( ( k - mean ) / sd );
                }
            }
        }
        std::vector<double> ps;
        for( auto * v : { &active, &contact, &reciprocal } )
            if( v->size() >= 500 && !( v == &active && mode == 2 ) )
            {
                std::vector<double> part, z( v->begin(), v->begin() + std::min<size_t>( v->size(), N ) );
                independence_ps( part, z );
                ps.push_back( bonferroni( part ) );
            }
        return ps.empty() ? 1.0 : bonferroni( ps );
    } );
    c.nontrivial();
    c.label( mode == 0 ? "activation" : mode == 1 ? "reciprocation" : "contacts" );
}
} // namespace

PBT_FACET( sequence, 120, 2000 )
{
    if( s.chance( 1, 3 ) )
        sequence<Inertial>( s, c );
    else
        sequence<Plain>( s, c );
}
PBT_FACET( many, 400, 6000 )
{
    if( s.chance( 1, 3 ) )
        many<Inertial>( s, c );
    else
        many<Plain>( s, c );
}
