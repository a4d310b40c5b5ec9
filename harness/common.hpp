// Shared by the harnesses: options builders, independent file parsers, statistics.
#pragma once
#include <fmt/format.h>
#include <fmt/ostream.h>
#include <fmt/ranges.h>

#include <array>
#include <cmath>
#include <cstddef>
#include <iomanip>
#include <iostream>
#include <memory>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <vector>

#include "pbt.hpp"

#include <config_parser.hpp>
#include <network.hpp>
#include <network_generation.hpp>
#include <network_io.hpp>
#include <simulation.hpp>
#include <agents/activity_agent.hpp>
#include <agents/discrete_vector_agent.hpp>
#include <agents/inertial_agent.hpp>
#include <agents/simple_agent.hpp>
#include <agent_io.hpp>
#include <models/ActivityDrivenModel.hpp>
#include <models/DeGroot.hpp>
#include <models/DeffuantModel.hpp>
#include <models/InertialModel.hpp>
#include <util/math.hpp>
#include <util/misc.hpp>

namespace H
{
using pbt::Ctx;
using pbt::Src;
namespace sfs = std::filesystem;

// ---------------------------------------------------------------- files
inline std::string slurp( const std::string & f )
{
    std::ifstream in( f, std::ios::binary );
    std::stringstream ss;
    ss << in.rdbuf();
    return ss.str();
}
inline void spit( const std::string & f, const std::string & s )
{
    std::ofstream o( f, std::ios::binary );
    o << s;
}
inline std::string trim( const std::string & s )
{
    size_t a = 0, b = s.size();
    while( a < b && std::isspace( (unsigned char)s[a] ) )
        a++;
    while( b > a && std::isspace( (unsigned char)s[b - 1] ) )
        b--;
    return s.substr( a, b - a );
}
inline std::vector<std::string> split( const std::string & s, char sep )
{
    std::vector<std::string> out;
    std::string cur;
    for( char ch : s )
        if( ch == sep )
        {
            out.push_back( cur );
            cur.clear();
        }
        else
            cur += ch;
    out.push_back( cur );
    return out;
}
inline std::vector<std::string> lines_of( const std::string & s )
{
    auto v = split( s, '\n' );
    if( !v.empty() && v.back().empty() )
        v.pop_back();
    return v;
}

inline double to_double( const std::string & raw, Ctx & c )
{
    auto t      = trim( raw );
    char * e    = nullptr;
    double v    = std::strtod( t.c_str(), &e );
    bool lit_ok = !t.empty() && e == t.c_str() + t.size();
    c.check( lit_ok, "field '" + raw + "' is not a number" );
    return v;
}
inline size_t to_index( const std::string & raw, Ctx & c )
{
    auto t = trim( raw );
    c.check( !t.empty() && t.find_first_not_of( "0123456789" ) == std::string::npos, "field '" + raw + "' is not an index" );
    return std::strtoull( t.c_str(), nullptr, 10 );
}

struct NetFile
{
    std::vector<std::vector<size_t>> nbr;
    std::vector<std::vector<double>> w;
};

// The format of network_<i>.txt, parsed independently of the code under test
inline NetFile parse_network_text( const std::string & text, Ctx & c )
{
    NetFile f;
    auto ls = lines_of( text );
    c.check( !ls.empty() && !ls[0].empty() && ls[0][0] == '#', "network file: no header line" );
    for( size_t k = 1; k < ls.size(); k++ )
    {
        auto cols = split( ls[k], ',' );
        c.check( cols.size() >= 2, "network file: row with fewer than two columns: " + ls[k] );
        size_t idx = to_index( cols[0], c );
        PBT_CHECK( c, idx == k - 1, "network file: row {} has index {}", k - 1, idx );
        size_t n = to_index( cols[1], c );
        PBT_CHECK( c, cols.size() == 2 + 2 * n, "network file: row {} announces {} neighbours but has {} columns", idx, n, cols.size() );
        std::vector<size_t> nb;
        std::vector<double> ww;
        for( size_t j = 0; j < n; j++ )
        {
            nb.push_back( to_index( cols[2 + j], c ) );
            ww.push_back( to_double( cols[2 + n + j], c ) );
        }
        f.nbr.push_back( nb );
        f.w.push_back( ww );
    }
    for( auto & nb : f.nbr )
        for( auto j : nb )
            PBT_CHECK( c, j < f.nbr.size(), "network file: neighbour index {} of {} agents", j, f.nbr.size() );
    return f;
}

struct AgentFile
{
    std::vector<std::string> header;
    std::vector<std::vector<double>> rows; // without the index column
};

inline AgentFile parse_agents_text( const std::string & text, Ctx & c )
{
    AgentFile f;
    auto ls = lines_of( text );
    c.check( !ls.empty() && !ls[0].empty() && ls[0][0] == '#', "agents file: no header line" );
    f.header = split( ls[0].substr( 1 ), ',' );
    for( auto & h : f.header )
        h = trim( h );
    for( size_t k = 1; k < ls.size(); k++ )
    {
        auto cols  = split( ls[k], ',' );
        size_t idx = to_index( cols[0], c );
        PBT_CHECK( c, idx == k - 1, "agents file: row {} has index {}", k - 1, idx );
        std::vector<double> r;
        for( size_t j = 1; j < cols.size(); j++ )
            r.push_back( to_double( cols[j], c ) );
        f.rows.push_back( r );
    }
    return f;
}

inline bool same_bits( double a, double b )
{
    return std::memcmp( &a, &b, sizeof a ) == 0;
}
// equal as values; NaN equals NaN
inline bool same_value( double a, double b )
{
    return a == b || ( std::isnan( a ) && std::isnan( b ) );
}
inline bool close( double a, double b, double rel, double abs_ = 0 )
{
    if( same_value( a, b ) )
        return true;
    if( !std::isfinite( a ) || !std::isfinite( b ) )
        return false;
    return std::abs( a - b ) <= abs_ + rel * std::max( std::abs( a ), std::abs( b ) );
}

// edges of one list as a sorted multiset
inline std::vector<std::pair<size_t, double>> sorted_edges( std::span<const size_t> n, std::span<const double> w )
{
    std::vector<std::pair<size_t, double>> v;
    for( size_t i = 0; i < n.size(); i++ )
        v.push_back( { n[i], i < w.size() ? w[i] : -777.0 } );
    std::sort( v.begin(), v.end() );
    return v;
}
template<typename NetT>
std::vector<std::pair<size_t, double>> edges_of( const NetT & net, size_t i )
{
    return sorted_edges( net.get_neighbours( i ), net.get_weights( i ) );
}
template<typename NetT>
std::vector<std::vector<std::pair<size_t, double>>> all_edges( const NetT & net )
{
    std::vector<std::vector<std::pair<size_t, double>>> v;
    for( size_t i = 0; i < net.n_agents(); i++ )
        v.push_back( edges_of( net, i ) );
    return v;
}

// ---------------------------------------------------------------- agents
inline std::vector<double> agent_row( const Seldon::SimpleAgent & a )
{
    return { a.data.opinion };
}
inline std::vector<double> agent_row( const Seldon::ActivityAgent & a )
{
    return { a.data.opinion, a.data.activity, a.data.reluctance };
}
inline std::vector<double> agent_row( const Seldon::InertialAgent & a )
{
    return { a.data.opinion, a.data.velocity, a.data.activity, a.data.reluctance };
}
inline std::vector<double> agent_row( const Seldon::DiscreteVectorAgent & a )
{
    return std::vector<double>( a.data.opinion.begin(), a.data.opinion.end() );
}
inline std::vector<std::string> columns_of( const Seldon::SimpleAgent * )
{
    return { "opinion" };
}
inline std::vector<std::string> columns_of( const Seldon::ActivityAgent * )
{
    return { "opinion", "activity", "reluctance" };
}
inline std::vector<std::string> columns_of( const Seldon::InertialAgent * )
{
    return { "opinion", "velocity", "activity", "reluctance" };
}

template<typename NetT>
std::vector<std::vector<double>> agent_rows( const NetT & net )
{
    std::vector<std::vector<double>> v;
    for( auto & a : net.agents )
        v.push_back( agent_row( a ) );
    return v;
}

// A file of agents written by the harness
inline std::string write_agents_text( const std::vector<std::vector<double>> & rows )
{
    std::string s = "# idx_agent, data\n";
    for( size_t i = 0; i < rows.size(); i++ )
    {
        s += std::to_string( i );
        for( double v : rows[i] )
            s += fmt::format( ", {:.17g}", v );
        s += "\n";
    }
    return s;
}
inline std::string write_network_text( const std::vector<std::vector<size_t>> & nbr, const std::vector<std::vector<double>> & w )
{
    std::string s = "# idx_agent, n_neighbours_in, indices_neighbours_in[...], weights_in[...]\n";
    for( size_t i = 0; i < nbr.size(); i++ )
    {
        s += fmt::format( "{}, {}", i, nbr[i].size() );
        for( auto j : nbr[i] )
            s += fmt::format( ", {}", j );
        for( auto x : w[i] )
            s += fmt::format( ", {:.17g}", x );
        s += "\n";
    }
    return s;
}

// ---------------------------------------------------------------- options
inline Seldon::Config::SimulationOptions base_options( uint32_t seed, size_t n_agents, size_t n_connections )
{
    Seldon::Config::SimulationOptions o;
    o.rng_seed                       = int( seed & 0x7fffffff );
    o.network_settings.n_agents      = n_agents;
    o.network_settings.n_connections = n_connections;
    return o;
}
inline Seldon::Config::SimulationOptions
degroot_options( uint32_t seed, size_t n, size_t k, std::optional<int> max_it, double tol )
{
    auto o         = base_options( seed, n, k );
    o.model        = Seldon::Config::Model::DeGroot;
    o.model_string = "DeGroot";
    Seldon::Config::DeGrootSettings s;
    s.max_iterations  = max_it;
    s.convergence_tol = tol;
    o.model_settings  = s;
    return o;
}
inline Seldon::Config::SimulationOptions
activity_options( uint32_t seed, size_t n, size_t k, const Seldon::Config::ActivityDrivenSettings & s )
{
    auto o           = base_options( seed, n, k );
    o.model          = Seldon::Config::Model::ActivityDrivenModel;
    o.model_string   = "ActivityDriven";
    o.model_settings = s;
    return o;
}
inline Seldon::Config::SimulationOptions
inertial_options( uint32_t seed, size_t n, size_t k, const Seldon::Config::ActivityDrivenInertialSettings & s )
{
    auto o           = base_options( seed, n, k );
    o.model          = Seldon::Config::Model::ActivityDrivenInertial;
    o.model_string   = "ActivityDrivenInertial";
    o.model_settings = s;
    return o;
}
inline Seldon::Config::SimulationOptions
deffuant_options( uint32_t seed, size_t n, size_t k, const Seldon::Config::DeffuantSettings & s )
{
    auto o           = base_options( seed, n, k );
    o.model          = Seldon::Config::Model::DeffuantModel;
    o.model_string   = "Deffuant";
    o.model_settings = s;
    return o;
}
// connections_per_agent, where nothing should depend on it
inline size_t any_connections( Src & s, size_t n )
{
    return s.chance( 1, 3 ) ? 0 : n <= 60 && s.chance( 1, 4 ) ? n : s.range( 0, std::min<size_t>( n, 12 ) );
}

// Settings of the activity driven models over their documented ranges.
struct ActivityGen
{
    bool allow_mean_weights = true;
    bool allow_bots         = true;
    double max_homophily    = 3.0;
};
template<typename S>
void gen_activity( Src & s, S & a, size_t n, const ActivityGen & g = {} )
{
    a.max_iterations  = (int)s.range( 0, 6 );
    a.dt              = s.logreal( 1e-4, 0.5 );
    a.m               = (int)s.size( 0, n > 0 ? n - 1 : 0 );
    a.eps             = s.logreal( 1e-3, 0.99 );
    a.gamma           = s.real( 2.01, 5.0 );
    a.alpha           = s.logreal( 1e-2, 10.0 );
    a.homophily       = s.chance( 1, 4 ) ? 0.0 : s.chance( 1, 10 ) ? s.real( -2, 0 ) : s.real( 0.0, g.max_homophily );
    a.reciprocity     = s.chance( 1, 4 ) ? double( s.draw( 1 ) ) : s.real( 0.0, 1.0 );
    a.K               = s.logreal( 1e-2, 10.0 );
    a.mean_activities = s.chance( 1, 4 );
    a.mean_weights    = g.allow_mean_weights && s.chance( 1, 3 );
    a.use_reluctances = s.chance( 1, 2 );
    if( a.use_reluctances )
    {
        a.reluctance_mean   = s.real( 0.5, 2.0 );
        a.reluctance_sigma  = s.real( 0.05, 1.0 );
        a.reluctance_eps    = s.logreal( 1e-2, 0.5 );
        a.covariance_factor = s.real( -0.95, 0.95 );
    }
    if( g.allow_bots && n > 0 && s.chance( 1, 3 ) )
    {
        a.n_bots      = s.size( 1, n );
        size_t extra  = s.draw( 2 ); // lists may be longer than n_bots
        for( size_t i = 0; i < a.n_bots + extra; i++ )
        {
            a.bot_m.push_back( (int)s.size( 0, n > 0 ? n - 1 : 0 ) );
            a.bot_activity.push_back( s.chance( 1, 3 ) ? double( s.draw( 1 ) ) : s.real( 0, 1 ) );
            a.bot_opinion.push_back( s.real( -3, 3 ) );
            a.bot_homophily.push_back( s.chance( 1, 10 ) ? s.real( -2, 0 ) : s.real( 0, g.max_homophily ) );
        }
    }
}
template<typename S>
std::string show_activity( const S & a )
{
    return fmt::format(
        "dt={} m={} eps={} gamma={} alpha={} homophily={} r={} K={} mean_act={} mean_w={} reluct={}({},{},{},cov {}) "
        "n_bots={} bot_m={} bot_a={} bot_x={} bot_h={}\n",
        a.dt, a.m, a.eps, a.gamma, a.alpha, a.homophily, a.reciprocity, a.K, a.mean_activities, a.mean_weights,
        a.use_reluctances, a.reluctance_mean, a.reluctance_sigma, a.reluctance_eps, a.covariance_factor, a.n_bots,
        fmt::join( a.bot_m, " " ), fmt::join( a.bot_activity, " " ), fmt::join( a.bot_opinion, " " ),
        fmt::join( a.bot_homophily, " " ) );
}

// ---------------------------------------------------------------- random networks
struct RawNet
{
    std::vector<std::vector<size_t>> nbr;
    std::vector<std::vector<double>> w;
};
template<typename AgentT>
Seldon::Network<AgentT> make_network( const RawNet & r )
{
    auto nb = r.nbr;
    auto w  = r.w;
    return Seldon::Network<AgentT>( std::move( nb ), std::move( w ), Seldon::Network<AgentT>::EdgeDirection::Incoming );
}
inline RawNet random_net( Src & s, size_t n, size_t max_deg, bool any_weight, bool duplicates = true )
{
    RawNet r;
    r.nbr.resize( n );
    r.w.resize( n );
    if( n > 5000 || pbt::large_max() ) // too many choices to record and to shrink: only the seed of the rows is one
    {
        std::mt19937_64 rows( s.seed32() );
        size_t every = 1 + s.draw( 3 );
        for( size_t i = 0; i < n; i++ )
            for( size_t d = rows() % every == 0 ? rows() % ( max_deg + 1 ) : 0; d-- > 0; )
            {
                size_t j = rows() % n;
                if( !duplicates && std::find( r.nbr[i].begin(), r.nbr[i].end(), j ) != r.nbr[i].end() )
                    continue;
                r.nbr[i].push_back( j );
                r.w[i].push_back( std::ldexp( double( rows() % 2001 ) / 1000 - 1, any_weight ? int( rows() % 60 ) - 30 : 0 ) );
            }
        return r;
    }
    for( size_t i = 0; i < n; i++ )
    {
        size_t d = n ? s.size( 0, max_deg ) : 0;
        std::set<size_t> seen;
        for( size_t k = 0; k < d; k++ )
        {
            size_t j = s.draw( n - 1 );
            if( !duplicates && !seen.insert( j ).second )
                continue;
            r.nbr[i].push_back( j );
            r.w[i].push_back( any_weight ? s.finite() : s.real( -2, 2 ) );
        }
    }
    return r;
}
// fills a list with indices or integers; long ones from one choice
inline void fill( Src & s, std::vector<size_t> & v, size_t n )
{
    if( v.size() > 60 )
    {
        std::mt19937_64 g( s.seed32() );
        for( auto & x : v )
            x = g() % n;
        return;
    }
    for( auto & x : v )
        x = s.draw( n - 1 );
}
inline RawNet stochastic_net( Src & s, size_t n, size_t max_deg )
{
    RawNet r = random_net( s, n, max_deg, false );
    for( size_t i = 0; i < n; i++ )
    {
        if( r.nbr[i].empty() )
        {
            r.nbr[i].push_back( i );
            r.w[i].push_back( 1.0 );
            continue;
        }
        double sum = 0;
        for( auto & x : r.w[i] )
        {
            x = std::abs( x ) + 1e-3;
            sum += x;
        }
        for( auto & x : r.w[i] )
            x /= sum;
    }
    return r;
}
inline std::string show_net( const RawNet & r )
{
    std::string s;
    for( size_t i = 0; i < r.nbr.size(); i++ )
    {
        s += fmt::format( "  {}:", i );
        for( size_t k = 0; k < r.nbr[i].size(); k++ )
            s += fmt::format( " {}*{}", r.nbr[i][k], r.w[i][k] );
        s += "\n";
    }
    return s;
}

// ---------------------------------------------------------------- statistics
// regularised upper incomplete gamma Q(a,x)
inline double gamma_q( double a, double x )
{
    if( x <= 0 )
        return 1.0;
    if( x < a + 1 )
    {
        double ap = a, sum = 1 / a, del = sum;
        for( int i = 0; i < 10000; i++ )
        {
            ap += 1;
            del *= x / ap;
            sum += del;
            if( std::abs( del ) < std::abs( sum ) * 1e-15 )
                break;
        }
        return std::max( 0.0, 1.0 - sum * std::exp( -x + a * std::log( x ) - std::lgamma( a ) ) );
    }
    double b = x + 1 - a, cc = 1e300, d = 1 / b, h = d;
    for( int i = 1; i < 10000; i++ )
    {
        double an = -i * ( i - a );
        b += 2;
        d = an * d + b;
        if( std::abs( d ) < 1e-300 )
            d = 1e-300;
        cc = b + an / cc;
        if( std::abs( cc ) < 1e-300 )
            cc = 1e-300;
        d          = 1 / d;
        double del = d * cc;
        h *= del;
        if( std::abs( del - 1 ) < 1e-15 )
            break;
    }
    return std::exp( -x + a * std::log( x ) - std::lgamma( a ) ) * h;
}
// goodness of fit of counts against probabilities; cells with expectation < 8 are pooled; a count in a cell of
// probability 0 gives 0
inline double chi2_p( const std::vector<uint64_t> & count, const std::vector<double> & prob )
{
    double n = 0;
    for( auto x : count )
        n += double( x );
    double psum = 0;
    for( auto p : prob )
        psum += p;
    double stat = 0, pool_e = 0, pool_o = 0;
    int cells = 0;
    std::vector<std::pair<double, double>> big;
    for( size_t i = 0; i < prob.size(); i++ )
    {
        double e = n * prob[i] / psum;
        if( prob[i] <= 0 )
        {
            if( count[i] > 0 )
                return 0.0;
            continue;
        }
        if( e < 8 )
        {
            pool_e += e;
            pool_o += double( count[i] );
        }
        else
            big.push_back( { e, double( count[i] ) } );
    }
    if( pool_e >= 8 )
        big.push_back( { pool_e, pool_o } );
    else if( pool_e > 0 && !big.empty() )
    {
        // merge into the smallest big cell
        auto it = std::min_element( big.begin(), big.end() );
        it->first += pool_e;
        it->second += pool_o;
    }
    for( auto & [e, o] : big )
    {
        stat += ( o - e ) * ( o - e ) / e;
        cells++;
    }
    if( cells < 2 )
        return 1.0;
    return gamma_q( ( cells - 1 ) / 2.0, stat / 2.0 );
}
inline double two_sided_z( double z )
{
    return std::erfc( std::abs( z ) / std::sqrt( 2.0 ) );
}
// k successes out of n with probability p
inline double binom_p( uint64_t k, uint64_t n, double p )
{
    if( n == 0 )
        return 1;
    if( p <= 0 )
        return k == 0 ? 1 : 0;
    if( p >= 1 )
        return k == n ? 1 : 0;
    double e = double( n ) * p, v = e * ( 1 - p );
    if( v > 30 )
        return two_sided_z( std::max( 0.0, std::abs( double( k ) - e ) - 0.5 ) / std::sqrt( v ) );
    // exact tails by summation
    double lo = 0, hi = 0;
    double lp = double( n ) * std::log1p( -p ); // log P(0)
    for( uint64_t i = 0; i <= n; i++ )
    {
        double pr = std::exp( lp );
        if( i <= k )
            lo += pr;
        if( i >= k )
            hi += pr;
        if( double( i ) > e && pr < 1e-30 )
            break;
        lp += std::log( double( n - i ) / double( i + 1 ) ) + std::log( p ) - std::log1p( -p );
    }
    if( double( k ) > e )
        return std::min( 1.0, 2 * hi );
    return std::min( 1.0, 2 * lo );
}
// Kolmogorov-Smirnov against a continuous distribution function
template<typename F>
double ks_p( std::vector<double> x, F cdf )
{
    std::sort( x.begin(), x.end() );
    double n = double( x.size() ), d = 0;
    for( size_t i = 0; i < x.size(); i++ )
    {
        double f = cdf( x[i] );
        if( std::isnan( f ) )
            return 0;
        d = std::max( { d, f - double( i ) / n, double( i + 1 ) / n - f } );
    }
    double l   = ( std::sqrt( n ) + 0.12 + 0.11 / std::sqrt( n ) ) * d;
    double sum = 0;
    for( int j = 1; j <= 100; j++ )
        sum += ( j % 2 ? 2.0 : -2.0 ) * std::exp( -2.0 * l * l * j * j );
    if( l < 0.2 )
        return 1;
    return std::clamp( sum, 0.0, 1.0 );
}

// A statistical claim. `experiment(n, stream)` draws n samples with randomness of its own stream and gives a p-value.
// An alarm needs a first sample with p < 1e-4, and two fresh, larger ones with p < 1e-6: under the claim the chance is
// below 1e-16 per case, so it is a statement about the code, not about luck.
template<typename F>
void stat_check( Ctx & c, const std::string & what, uint64_t n, F experiment )
{
    if( pbt::fuzzing() )
        throw pbt::Discard{};
    double p = experiment( n, uint64_t( 0 ) );
    if( p >= 1e-4 )
        return;
    double p2 = experiment( 3 * n, uint64_t( 1 ) );
    if( p2 >= 1e-6 )
        return;
    double p3 = experiment( 3 * n, uint64_t( 2 ) );
    if( p3 >= 1e-6 )
        return;
    c.fail( fmt::format( "{}: p-values {:.3g}, {:.3g}, {:.3g} over {}, {}, {} samples", what, p, p2, p3, n, 3 * n, 3 * n ) );
}
// Now and then the state to be looked at is one that is put into a model that has come a long way already: what an iteration does
// must not depend on how many there were
template<typename Net, typename... Models>
void warm_up( Src & s, Ctx & c, Net & net, Models &... models )
{
    if( pbt::large_max() || net.n_agents() > 8 || !s.chance( 1, 150 ) )
        return;
    Net kept = net;
    size_t k = s.range( 500, 3000 );
    for( size_t t = 0; t < k; t++ )
        ( models.iteration(), ... );
    net = kept;
    c.show( fmt::format( "(in a model that has made {} iterations already)\n", k ) );
    c.label( "after many iterations" );
}
// A sequence of independent values of mean 0 and variance 1 (of bounded size) is uncorrelated with itself at every distance, and with
// its mirror image about every point: so that nothing drawn once is used twice, however far apart
inline void independence_ps( std::vector<double> & ps, std::vector<double> z )
{
    std::vector<float> f( z.begin(), z.end() ), g( f.rbegin(), f.rend() );
    const size_t n = f.size(), least = 200;
    for( size_t lag = 1; lag + least <= n; lag++ )
    {
        float a = 0, b = 0, d = 0;
        const float *x = f.data(), *y = f.data() + lag, *r = g.data() + lag, *q = g.data();
        for( size_t i = 0; i + lag < n; i++ )
        {
            a += x[i] * y[i];
            b += x[i] * r[i];         // x[i] x[n-1-lag-i], every pair twice
            d += x[i + lag] * q[i];   // x[i+lag] x[n-1-i]
        }
        // the middle of the mirror image is a square, not a product
        if( ( n - lag ) % 2 )
        {
            float u = x[( n - lag ) / 2], v = x[lag + ( n - lag ) / 2];
            b -= u * u, d -= v * v;
        }
        double m = double( n - lag );
        ps.push_back( two_sided_z( a / std::sqrt( m ) ) );
        if( m >= 2 * least )
        {
            ps.push_back( two_sided_z( b / 2 / std::sqrt( std::floor( m / 2 ) ) ) );
            ps.push_back( two_sided_z( d / 2 / std::sqrt( std::floor( m / 2 ) ) ) );
        }
    }
    if( n >= 2 * least ) // about the middle of everything
    {
        float a = 0;
        for( size_t i = 0; i < n / 2; i++ )
            a += f[i] * g[i];
        ps.push_back( two_sided_z( a / std::sqrt( double( n / 2 ) ) ) );
    }
}
// The least of several p-values, corrected
inline double bonferroni( const std::vector<double> & ps )
{
    double m = 1;
    for( double p : ps )
        m = std::min( m, p );
    return std::min( 1.0, m * double( std::max<size_t>( 1, ps.size() ) ) );
}

inline double norm_cdf( double x )
{
    return 0.5 * std::erfc( -x / std::sqrt( 2.0 ) );
}

// ---------------------------------------------------------------- scratch directories
struct TempDir
{
    std::string path;
    TempDir( Ctx & c, const std::string & name )
    {
        path = c.scratch + "/" + name;
        std::error_code ec;
        sfs::remove_all( path, ec );
        sfs::create_directories( path );
    }
    ~TempDir()
    {
        std::error_code ec;
        sfs::remove_all( path, ec );
    }
    std::string operator/( const std::string & f ) const
    {
        return path + "/" + f;
    }
};
inline std::set<std::string> files_in( const std::string & d )
{
    std::set<std::string> r;
    for( auto & e : sfs::directory_iterator( d ) )
        r.insert( e.path().filename().string() );
    return r;
}

} // namespace H
