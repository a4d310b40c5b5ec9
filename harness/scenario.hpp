// A configuration of any of the five models, as options and as TOML
#pragma once
#include "activity.hpp"

namespace H
{
enum Kind
{
    DeGroot,
    Activity,
    InertialKind,
    DeffuantScalar,
    DeffuantVector
};
inline const char * kind_name( int k )
{
    static const char * names[] = { "DeGroot", "ActivityDriven", "ActivityDrivenInertial", "Deffuant", "Deffuant vector" };
    return names[k];
}
struct Scenario
{
    int kind = 0;
    Seldon::Config::SimulationOptions opt;
    std::string text;
};
struct ScenarioGen
{
    std::vector<int> kinds{ DeGroot, Activity, InertialKind, DeffuantScalar, DeffuantVector };
    size_t max_agents  = 14;
    size_t max_iter    = 12;
    size_t max_long    = 3000;  // iterations in big cases
    bool fixed_limit   = true;  // always a limit
    bool deterministic = false; // only models without randomness after the start
    bool random_output = true;
};

// Calls f.template operator()<AgentT>()
template<typename F>
auto dispatch( int kind, F f )
{
    switch( kind )
    {
        case Activity:
            return f.template operator()<Seldon::ActivityAgent>();
        case InertialKind:
            return f.template operator()<Seldon::InertialAgent>();
        case DeffuantVector:
            return f.template operator()<Seldon::DiscreteVectorAgent>();
        default:
            return f.template operator()<Seldon::SimpleAgent>();
    }
}

inline void gen_output( Src & s, Seldon::Config::OutputSettings & o, size_t max_iter )
{
    bool long_run = pbt::large_max() && max_iter > 50; // not every iteration: files are slow
    if( s.chance( 3, 4 ) )
        o.n_output_agents = long_run ? s.big( max_iter / 20, max_iter + 2 ) : s.chance( 1, 2 ) ? 1 : s.size( 1, max_iter + 2 );
    if( s.chance( 3, 4 ) )
        o.n_output_network = long_run ? s.big( max_iter / 20, max_iter + 2 ) : s.chance( 1, 2 ) ? 1 : s.size( 1, max_iter + 2 );
    o.output_initial       = s.chance( 2, 3 );
    o.print_progress       = s.flip();
    o.start_output         = long_run ? s.big( 1, max_iter + 2 ) : s.flip() ? 1 : s.size( 1, max_iter + 2 );
    o.start_numbering_from = s.flip() ? 0 : s.size( 0, 2000 );
    if( s.chance( 1, 40 ) ) // around the limits of smaller integers
        o.start_numbering_from = ( size_t( 1 ) << s.pick( std::vector<int>{ 8, 15, 16, 31, 32, 40, 52 } ) ) - s.draw( 3 );
    if( s.chance( 1, 60 ) )
        o.start_output = ( size_t( 1 ) << s.pick( std::vector<int>{ 8, 16, 31, 32, 52 } ) ) - s.draw( 3 );
}

inline Scenario gen_scenario( Src & s, const ScenarioGen & g = {} )
{
    Scenario sc;
    sc.kind       = s.pick( g.kinds );
    // big cases are either many agents or many iterations
    size_t big    = pbt::large_max();
    bool lengthy  = big && s.chance( 1, 3 );
    bool many     = big && !lengthy;
    size_t n      = many ? s.big( 200, big ) : s.size( 1, g.max_agents );
    size_t k      = many && s.chance( 1, 4 ) ? s.big( 10, 600 ) : s.size( 0, 6 );
    uint32_t seed = s.seed32();
    n             = lengthy ? std::min<size_t>( n, 5 ) : n;
    int T         = (int)( lengthy ? s.big( 60, g.max_long ) : many ? s.range( 1, 3 ) : s.size( 0, g.max_iter ) );
    if( !big && g.max_iter >= 10 && s.chance( 1, 150 ) ) // a long run of few agents
    {
        n = std::min<size_t>( n, 5 );
        T = (int)s.range( 60, 400 );
    }
    std::optional<int> limit = T;
    auto modest = [&]( auto & a ) { // contacts are drawn one by one from all agents
        if( !many )
            return;
        a.m              = (int)std::min<size_t>( a.m, s.chance( 1, 4 ) ? n / 4 : 12 );
        a.eps            = std::min( a.eps, s.chance( 1, 3 ) ? 0.9 : 0.05 );
        a.bot_m.clear(), a.bot_activity.clear(), a.bot_opinion.clear(), a.bot_homophily.clear();
        a.n_bots = s.chance( 1, 2 ) ? 0 : s.big( 1, n );
        for( size_t b = 0; b < a.n_bots; b++ )
        {
            a.bot_m.push_back( int( b % 7 ) );
            a.bot_activity.push_back( double( b % 11 ) / 40 );
            a.bot_opinion.push_back( double( b % 13 ) / 4 - 1 );
            a.bot_homophily.push_back( double( b % 5 ) / 4 );
        }
        if( n > 500 )
            a.mean_weights = false;
    };
    switch( sc.kind )
    {
        case DeGroot:
        {
            double tol = s.flip() ? 0.0 : s.logreal( 1e-8, 1e-1 );
            sc.opt     = degroot_options( seed, n, k, limit, tol );
            sc.text    = fmt::format( "tol={}", tol );
            break;
        }
        case Activity:
        {
            Seldon::Config::ActivityDrivenSettings a;
            if( many && g.deterministic )
                n = s.range( 200, 500 );
            gen_activity( s, a, many ? 1 : n );
            a.m = many ? (int)s.size( 0, n - 1 ) : a.m;
            modest( a );
            a.max_iterations = limit;
            if( g.deterministic )
                a.mean_weights = true;
            sc.opt  = activity_options( seed, n, k, a );
            sc.text = show_activity( a );
            break;
        }
        case InertialKind:
        {
            Seldon::Config::ActivityDrivenInertialSettings a;
            if( many && g.deterministic )
                n = s.range( 200, 500 );
            gen_activity( s, a, many ? 1 : n );
            a.m = many ? (int)s.size( 0, n - 1 ) : a.m;
            modest( a );
            a.max_iterations       = limit;
            a.friction_coefficient = s.chance( 1, 4 ) ? 0.0 : s.real( 0, 4 );
            if( g.deterministic )
                a.mean_weights = true;
            sc.opt  = inertial_options( seed, n, k, a );
            sc.text = fmt::format( "friction={} ", a.friction_coefficient ) + show_activity( a );
            break;
        }
        default:
        {
            Seldon::Config::DeffuantSettings d;
            d.max_iterations = limit;
            n                = g.deterministic ? 2 : std::max<size_t>( n, 2 );
            d.use_network    = !g.deterministic && s.chance( 1, 3 );
            if( d.use_network )
            {
                size_t L = many ? std::max<size_t>( 2, size_t( std::sqrt( double( n ) ) ) ) : s.range( 2, 5 );
                n        = L * L;
            }
            d.mu = s.real( 0.01, 0.5 );
            if( sc.kind == DeffuantVector )
            {
                d.use_binary_vector   = true;
                d.dim                 = s.chance( 1, 60 ) ? s.range( 50, 300 ) : s.size( 1, 8 );
                d.homophily_threshold = s.chance( 1, 2 ) ? double( s.range( 1, d.dim + 1 ) ) : s.real( 0.1, d.dim + 1 );
            }
            else
                d.homophily_threshold = s.real( 0.01, 2 );
            sc.opt  = deffuant_options( seed, n, k, d );
            sc.text = fmt::format( "mu={} threshold={} dim={} lattice={}", d.mu, d.homophily_threshold, d.dim, d.use_network );
        }
    }
    if( g.random_output )
        gen_output( s, sc.opt.output_settings, big ? T : std::max<size_t>( g.max_iter, T ) );
    auto & o = sc.opt.output_settings;
    sc.text  = fmt::format(
        "{} n={} k={} seed={} T={} out agents={} network={} initial={} start={} numbering={} {}\n", kind_name( sc.kind ), n, k, sc.opt.rng_seed, T,
        o.n_output_agents ? std::to_string( *o.n_output_agents ) : "never", o.n_output_network ? std::to_string( *o.n_output_network ) : "never", o.output_initial,
        o.start_output, o.start_numbering_from, sc.text );
    return sc;
}

inline std::optional<int> limit_of( const Seldon::Config::SimulationOptions & o )
{
    return std::visit( []( auto & m ) { return m.max_iterations; }, o.model_settings );
}
inline void set_limit( Seldon::Config::SimulationOptions & o, std::optional<int> t )
{
    std::visit( [&]( auto & m ) { m.max_iterations = t; }, o.model_settings );
}

// ---------------------------------------------------------------- TOML
inline std::string toml_real( double v )
{
    if( std::isnan( v ) )
        return "nan";
    if( std::isinf( v ) )
        return v < 0 ? "-inf" : "inf";
    auto t = fmt::format( "{:.17g}", v );
    if( t.find_first_of( ".e" ) == std::string::npos )
        t += ".0";
    return t;
}
inline std::string toml_bool( bool b )
{
    return b ? "true" : "false";
}
struct Toml
{
    std::map<std::string, std::vector<std::pair<std::string, std::string>>> t;
    void set( const std::string & table, const std::string & key, const std::string & value )
    {
        t[table].push_back( { key, value } );
    }
    std::string str() const
    {
        std::string s;
        for( auto & [name, rows] : t )
        {
            s += "[" + name + "]\n";
            for( auto & [k, v] : rows )
                s += k + " = " + v + "\n";
        }
        return s;
    }
};
template<typename V, typename F>
std::string toml_array( const V & v, F f )
{
    std::string s = "[";
    for( size_t i = 0; i < v.size(); i++ )
        s += ( i ? ", " : "" ) + f( v[i] );
    return s + "]";
}
// every option spelled out
inline Toml toml_of( const Seldon::Config::SimulationOptions & o )
{
    Toml t;
    auto num = []( auto v ) { return std::to_string( v ); };
    t.set( "simulation", "model", "\"" + o.model_string + "\"" );
    t.set( "simulation", "rng_seed", num( o.rng_seed ) );
    auto & io = o.output_settings;
    if( io.n_output_agents )
        t.set( "io", "n_output_agents", num( *io.n_output_agents ) );
    if( io.n_output_network )
        t.set( "io", "n_output_network", num( *io.n_output_network ) );
    t.set( "io", "print_progress", toml_bool( io.print_progress ) );
    t.set( "io", "output_initial", toml_bool( io.output_initial ) );
    t.set( "io", "start_output", num( io.start_output ) );
    t.set( "io", "start_numbering_from", num( io.start_numbering_from ) );
    if( auto l = limit_of( o ) )
        t.set( "model", "max_iterations", num( *l ) );
    t.set( "network", "number_of_agents", num( o.network_settings.n_agents ) );
    t.set( "network", "connections_per_agent", num( o.network_settings.n_connections ) );
    auto & M      = o.model_string;
    auto activity = [&]( const Seldon::Config::ActivityDrivenSettings & a ) {
        t.set( M, "dt", toml_real( a.dt ) );
        t.set( M, "m", num( a.m ) );
        t.set( M, "eps", toml_real( a.eps ) );
        t.set( M, "gamma", toml_real( a.gamma ) );
        t.set( M, "alpha", toml_real( a.alpha ) );
        t.set( M, "homophily", toml_real( a.homophily ) );
        t.set( M, "reciprocity", toml_real( a.reciprocity ) );
        t.set( M, "K", toml_real( a.K ) );
        t.set( M, "mean_activities", toml_bool( a.mean_activities ) );
        t.set( M, "mean_weights", toml_bool( a.mean_weights ) );
        t.set( M, "reluctances", toml_bool( a.use_reluctances ) );
        t.set( M, "reluctance_mean", toml_real( a.reluctance_mean ) );
        t.set( M, "reluctance_sigma", toml_real( a.reluctance_sigma ) );
        t.set( M, "reluctance_eps", toml_real( a.reluctance_eps ) );
        t.set( M, "covariance_factor", toml_real( a.covariance_factor ) );
        t.set( M, "n_bots", num( a.n_bots ) );
        t.set( M, "bot_m", toml_array( a.bot_m, []( int v ) { return std::to_string( v ); } ) );
        t.set( M, "bot_activity", toml_array( a.bot_activity, toml_real ) );
        t.set( M, "bot_opinion", toml_array( a.bot_opinion, toml_real ) );
        t.set( M, "bot_homophily", toml_array( a.bot_homophily, toml_real ) );
    };
    if( auto * d = std::get_if<Seldon::Config::DeGrootSettings>( &o.model_settings ) )
        t.set( M, "convergence", toml_real( d->convergence_tol ) );
    else if( auto * d = std::get_if<Seldon::Config::DeffuantSettings>( &o.model_settings ) )
    {
        t.set( M, "homophily_threshold", toml_real( d->homophily_threshold ) );
        t.set( M, "mu", toml_real( d->mu ) );
        t.set( M, "use_network", toml_bool( d->use_network ) );
        t.set( M, "binary_vector", toml_bool( d->use_binary_vector ) );
        t.set( M, "dim", num( d->dim ) );
    }
    else if( auto * a = std::get_if<Seldon::Config::ActivityDrivenSettings>( &o.model_settings ) )
        activity( *a );
    else if( auto * a = std::get_if<Seldon::Config::ActivityDrivenInertialSettings>( &o.model_settings ) )
    {
        activity( *a );
        t.set( M, "friction_coefficient", toml_real( a->friction_coefficient ) );
    }
    return t;
}

// ---------------------------------------------------------------- the state of a simulation and its files
template<typename AgentT>
void check_agents_file( Ctx & c, const std::string & file, const std::vector<std::vector<double>> & rows, const std::string & when )
{
    auto f = parse_agents_text( slurp( file ), c );
    PBT_CHECK( c, f.rows.size() == rows.size(), "{}: agents file has {} rows for {} agents", when, f.rows.size(), rows.size() );
    for( size_t i = 0; i < rows.size(); i++ )
    {
        PBT_CHECK( c, f.rows[i].size() == rows[i].size(), "{}: agent {} has {} columns, expected {}", when, i, f.rows[i].size(), rows[i].size() );
        for( size_t k = 0; k < rows[i].size(); k++ )
            PBT_CHECK( c, same_bits( f.rows[i][k], rows[i][k] ) || ( std::isnan( f.rows[i][k] ) && std::isnan( rows[i][k] ) ), "{}: column {} of agent {} in the file is {:.17g}, the state is {:.17g}", when,
                       k, i, f.rows[i][k], rows[i][k] );
    }
}
inline void check_network_file( Ctx & c, const std::string & file, const NetFile & want, const std::string & when )
{
    auto f = parse_network_text( slurp( file ), c );
    PBT_CHECK( c, f.nbr.size() == want.nbr.size(), "{}: network file has {} rows for {} agents", when, f.nbr.size(), want.nbr.size() );
    for( size_t i = 0; i < f.nbr.size(); i++ )
    {
        auto a = sorted_edges( f.nbr[i], f.w[i] ), b = sorted_edges( want.nbr[i], want.w[i] );
        PBT_CHECK( c, a == b, "{}: edges of agent {} in the file differ from the state", when, i );
    }
}
template<typename NetT>
NetFile net_state( const NetT & net )
{
    NetFile f;
    for( size_t i = 0; i < net.n_agents(); i++ )
    {
        auto n = net.get_neighbours( i );
        auto w = net.get_weights( i );
        f.nbr.emplace_back( n.begin(), n.end() );
        f.w.emplace_back( w.begin(), w.end() );
    }
    return f;
}

} // namespace H

// The program, for harnesses with "BUILD: main"
int seldon_main( int argc, char ** argv );

namespace H
{
// exit status; 1000 if it ended with an exception
inline int run_program( const std::vector<std::string> & args, std::string * what = nullptr )
{
    std::vector<std::string> a{ "seldon" };
    a.insert( a.end(), args.begin(), args.end() );
    std::vector<char *> argv;
    for( auto & x : a )
        argv.push_back( x.data() );
    argv.push_back( nullptr );
    try
    {
        return seldon_main( int( a.size() ), argv.data() );
    }
    catch( const std::exception & e )
    {
        if( what )
            *what = e.what();
        return 1000;
    }
}
inline std::map<std::string, std::string> contents_of( const std::string & dir )
{
    std::map<std::string, std::string> m;
    for( auto & f : files_in( dir ) )
        m[f] = slurp( dir + "/" + f );
    return m;
}
} // namespace H
