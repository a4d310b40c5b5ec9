// Shared by the harnesses of the activity-driven models
#pragma once
#include "common.hpp"

namespace H
{
struct Plain
{
    using AgentT   = Seldon::ActivityAgent;
    using Settings = Seldon::Config::ActivityDrivenSettings;
    static constexpr bool inertial = false;
    static Seldon::Config::SimulationOptions options( uint32_t seed, size_t n, size_t k, const Settings & s )
    {
        return activity_options( seed, n, k, s );
    }
};
struct Inertial
{
    using AgentT   = Seldon::InertialAgent;
    using Settings = Seldon::Config::ActivityDrivenInertialSettings;
    static constexpr bool inertial = true;
    static Seldon::Config::SimulationOptions options( uint32_t seed, size_t n, size_t k, const Settings & s )
    {
        return inertial_options( seed, n, k, s );
    }
};
template<typename M>
Seldon::Simulation<typename M::AgentT> make_sim( uint32_t seed, size_t n, const typename M::Settings & s, size_t k = 2 )
{
    return Seldon::Simulation<typename M::AgentT>( M::options( seed, n, k, s ), std::nullopt, std::nullopt );
}

// settings for big cases: the contacts of an agent are drawn from all agents, and mean-field weights are a full matrix
template<typename S>
void gen_big_activity( Src & s, S & a, size_t & n, bool mean = true )
{
    bool field = mean && s.chance( 1, 4 );
    if( field )
        n = 200 + n % 200;
    gen_activity( s, a, 1, { .allow_bots = false } );
    a.mean_weights = field;
    a.m            = (int)( s.chance( 1, 4 ) ? s.big( 30, std::min<size_t>( n - 1, field ? 60 : 400 ) ) : s.size( 0, 12 ) );
    a.n_bots       = s.flip() ? 0 : s.big( 1, n );
    for( size_t b = 0; b < a.n_bots; b++ )
    {
        a.bot_m.push_back( int( b % 7 ) );
        a.bot_activity.push_back( double( b % 11 ) / 10 );
        a.bot_opinion.push_back( double( b % 13 ) / 4 - 1 );
        a.bot_homophily.push_back( double( b % 5 ) / 4 );
    }
}

// a bot's own m and homophily, otherwise the general ones
template<typename S>
size_t m_of( const S & s, size_t i )
{
    return size_t( i < s.n_bots ? s.bot_m[i] : s.m );
}
template<typename S>
double homophily_of( const S & s, size_t i )
{
    return i < s.n_bots ? s.bot_homophily[i] : s.homophily;
}

// adjacency matrix: a[i][j] is the number of edges i -> j
template<typename NetT>
std::vector<std::vector<int>> adjacency( const NetT & net )
{
    size_t n = net.n_agents();
    std::vector<std::vector<int>> a( n, std::vector<int>( n, 0 ) );
    for( size_t j = 0; j < n; j++ )
        for( size_t i : net.get_neighbours( j ) )
            a.at( i ).at( j )++;
    return a;
}

// Drift of the activity-driven model in extended precision, with a bound on the error that a straightforward evaluation in
// doubles makes. With strong weights the step amplifies rounding, so a fixed tolerance is either blind or wrong.
using LD = long double;
struct Edge
{
    size_t from;
    double w;
};
struct Bounded
{
    std::vector<LD> v, err;
};
inline Bounded drift( const Bounded & x, const std::vector<std::vector<Edge>> & in, const std::vector<double> & rel, LD K, LD alpha )
{
    size_t n = x.v.size();
    Bounded k{ std::vector<LD>( n ), std::vector<LD>( n ) };
    const LD u = 0x1p-52L;
    for( size_t i = 0; i < n; i++ )
    {
        LD g = K / rel[i], social = 0, terms = 0, err = 0;
        for( auto & e : in[i] )
        {
            LD a = std::abs( alpha * x.v[e.from] ), d = alpha * x.err[e.from] + u * a;
            LD s = 1 / std::cosh( std::min<LD>( 200, std::max<LD>( 0, a - d ) ) );
            social += e.w * std::tanh( alpha * x.v[e.from] );
            terms += std::abs( e.w ) * std::tanh( a );
            err += std::abs( e.w ) * ( std::min<LD>( 2, d * s * s ) );
        }
        k.v[i]   = -x.v[i] + g * social;
        k.err[i] = x.err[i] + g * err + u * ( LD( in[i].size() ) + 4 ) * ( std::abs( x.v[i] ) + g * terms );
    }
    return k;
}
} // namespace H
