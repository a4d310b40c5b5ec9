// Reading any bytes as a network or agents file: shared by the generated and the coverage-guided search
#pragma once
#include "scenario.hpp"
#include <regex>

namespace H
{
// The strict grammar of the documented network format; nullopt: not in it (a reader may refuse it or be lenient)
inline std::optional<RawNet> strict_network( const std::string & text )
{
    RawNet r;
    auto number = []( std::string t, bool integer ) -> std::optional<double> {
        size_t a = t.find_first_not_of( ' ' ), b = t.find_last_not_of( ' ' );
        if( a == std::string::npos )
            return std::nullopt;
        t = t.substr( a, b - a + 1 );
        size_t i = t[0] == '-' && !integer ? 1 : 0, digits = 0;
        while( i < t.size() && std::isdigit( (unsigned char)t[i] ) )
            i++, digits++;
        if( !digits || ( integer && ( digits > 8 || i != t.size() ) ) )
            return std::nullopt;
        if( !integer && i < t.size() && t[i] == '.' )
        {
            i++;
            size_t frac = 0;
            while( i < t.size() && std::isdigit( (unsigned char)t[i] ) )
                i++, frac++;
            if( !frac )
                return std::nullopt;
        }
        if( !integer && i < t.size() && t[i] == 'e' )
        {
            i++;
            if( i < t.size() && ( t[i] == '-' || t[i] == '+' ) )
                i++;
            size_t e = 0;
            while( i < t.size() && std::isdigit( (unsigned char)t[i] ) )
                i++, e++;
            if( !e || e > 3 )
                return std::nullopt;
        }
        if( i != t.size() )
            return std::nullopt;
        double v = strtod( t.c_str(), nullptr );
        return std::isfinite( v ) ? std::optional<double>( v ) : std::nullopt;
    };
    bool ended = false;
    for( auto & line : split( text, '\n' ) )
    {
        if( line.empty() )
        {
            ended = true; // nothing may follow
            continue;
        }
        if( ended )
            return std::nullopt;
        if( line[0] == '#' )
            continue;
        auto f = split( line, ',' );
        if( f.size() < 2 || !number( f[0], true ) || !number( f[1], true ) )
            return std::nullopt;
        size_t k = size_t( *number( f[1], true ) );
        if( k > 100000 || f.size() != 2 + 2 * k )
            return std::nullopt;
        r.nbr.emplace_back();
        r.w.emplace_back();
        for( size_t i = 0; i < k; i++ )
        {
            auto j = number( f[2 + i], true );
            auto w = number( f[2 + k + i], false );
            if( !j || !w )
                return std::nullopt;
            r.nbr.back().push_back( size_t( *j ) );
            r.w.back().push_back( *w );
        }
    }
    for( auto & row : r.nbr )
        for( auto j : row )
            if( j >= r.nbr.size() )
                return std::nullopt;
    return r;
}

inline Seldon::Config::SimulationOptions short_run( int kind, uint32_t bits, size_t n )
{
    Seldon::Config::SimulationOptions o;
    uint32_t seed = bits;
    switch( kind )
    {
        case DeGroot:
            o = degroot_options( seed, n, 2, 3, 1e-6 );
            break;
        case Activity:
        case InertialKind:
        {
            Seldon::Config::ActivityDrivenInertialSettings a;
            a.max_iterations = 3;
            a.m              = int( bits % 7 );
            a.mean_weights   = bits & 8;
            a.n_bots         = 0;
            a.reciprocity    = ( bits & 16 ) ? 0.5 : 1.0;
            a.use_reluctances = bits & 32;
            o = kind == Activity ? activity_options( seed, n, 2, a ) : inertial_options( seed, n, 2, a );
            break;
        }
        default:
        {
            Seldon::Config::DeffuantSettings d;
            d.max_iterations      = 3;
            d.homophily_threshold = 1.5;
            d.use_binary_vector   = kind == DeffuantVector;
            d.dim                 = kind == DeffuantVector ? 3 : 1;
            o                     = deffuant_options( seed, n, 2, d );
        }
    }
    o.output_settings.output_initial = true;
    return o;
}

// Both files as given; every step either works or throws
template<typename AgentT>
void check_files( Ctx & c, int kind, uint32_t bits, const std::optional<std::string> & net_text, const std::optional<std::string> & agents_text )
{
    TempDir d( c, "malformed" );
    std::optional<std::string> nf, af;
    std::optional<size_t> n_net, n_agents;
    bool net_refused = false, agents_refused = false;
    if( net_text )
    {
        nf = d / "n.txt";
        spit( *nf, *net_text );
        auto strict = strict_network( *net_text );
        try
        {
            auto net = Seldon::NetworkGeneration::generate_from_file<AgentT>( *nf );
            n_net    = net.n_agents();
            for( size_t i = 0; i < net.n_agents(); i++ )
            {
                auto nb = net.get_neighbours( i );
                auto w  = net.get_weights( i );
                PBT_CHECK( c, nb.size() == w.size(), "accepted a network file: agent {} has {} neighbours and {} weights", i, nb.size(), w.size() );
                for( auto j : nb )
                    PBT_CHECK( c, j < net.n_agents(), "accepted a network file: agent {} has the neighbour {} of {} agents", i, j, net.n_agents() );
                if( strict )
                {
                    PBT_CHECK( c, i < strict->nbr.size(), "read more agents than the file has" );
                    PBT_CHECK( c, edges_of( net, i ) == sorted_edges( strict->nbr[i], strict->w[i] ), "a valid network file: the edges of agent {} differ from the file", i );
                }
            }
            PBT_CHECK( c, net.agents.size() == net.n_agents(), "{} agents in a network of {}", net.agents.size(), net.n_agents() );
            if( strict )
                PBT_CHECK( c, strict->nbr.size() == net.n_agents(), "a valid network file of {} agents was read as {}", strict->nbr.size(), net.n_agents() );
        }
        catch( const pbt::Failure & )
        {
            throw;
        }
        catch( const std::exception & e )
        {
            net_refused = true;
            PBT_CHECK( c, !strict, "a valid network file was refused: {}", e.what() );
        }
    }
    if( agents_text )
    {
        af = d / "a.txt";
        spit( *af, *agents_text );
        try
        {
            auto agents = Seldon::agents_from_file<AgentT>( *af );
            n_agents    = agents.size();
            for( auto & a : agents )
                (void)Seldon::agent_to_string( a );
        }
        catch( const std::exception & )
        {
            agents_refused = true;
        }
    }
    // and a simulation with them
    size_t n = n_net.value_or( n_agents.value_or( 3 ) );
    if( n > 3000 )
        return;
    if( !net_text && ( bits & 64 ) && n_agents )
        n += ( bits & 128 ) && n > 0 ? -1 : 1;
    bool ran = false;
    try
    {
        Seldon::Simulation<AgentT> sim( short_run( kind, bits, n ), nf, af );
        if( n_agents )
            PBT_CHECK( c, *n_agents == sim.network.n_agents(), "a simulation of {} agents accepted a file with {}", sim.network.n_agents(), *n_agents );
        PBT_CHECK( c, sim.network.agents.size() == sim.network.n_agents(), "{} agents in a network of {}", sim.network.agents.size(), sim.network.n_agents() );
        PBT_CHECK( c, !net_refused && !agents_refused, "the simulation accepted a file that cannot be read" );
        sim.run( d.path );
        ran = true;
        if( af )
            for( size_t i = 0; i < sim.network.n_agents(); i++ )
                for( auto j : sim.network.get_neighbours( i ) )
                    PBT_CHECK( c, j < sim.network.n_agents(), "after the run agent {} has the neighbour {}", i, j );
    }
    catch( const pbt::Failure & )
    {
        throw;
    }
    catch( const std::exception & )
    {
    }
    c.label( net_refused || agents_refused ? "a file was refused" : "files accepted" );
    c.label( "the simulation ran", ran );
    c.nontrivial();
}
} // namespace H
