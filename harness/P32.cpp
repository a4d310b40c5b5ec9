// BUILD: main
// What the program says about a run
#include "scenario.hpp"
#include <fcntl.h>
#include <unistd.h>
using namespace H;

PBT_PROPERTY( "P32", "a case is a run of the program with any model and settings, with or without a seed; non-trivial: the run has at least one iteration" );

namespace
{
// What the program prints while f runs
template<typename F>
std::string printed( const std::string & file, F f )
{
    fflush( stdout );
    int saved = dup( 1 );
    int fd    = open( file.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600 );
    dup2( fd, 1 );
    close( fd );
    f();
    fflush( stdout );
    dup2( saved, 1 );
    close( saved );
    return slurp( file );
}
// the settings as printed: section / first word -> the rest of the line
std::map<std::string, std::string> report( const std::string & text )
{
    std::map<std::string, std::string> m;
    std::string section;
    for( auto & l : lines_of( text ) )
    {
        auto t = trim( l );
        if( t.rfind( "Random seed:", 0 ) == 0 )
            m["seed"] = trim( t.substr( 12 ) );
        else if( t.size() > 2 && t[0] == '[' && t.back() == ']' && l[0] == '[' )
            section = t + " ";
        else if( !l.empty() && l[0] == ' ' && !section.empty() )
        {
            auto p = t.find( ' ' );
            if( t.rfind( "Bot", 0 ) == 0 )
            {
                p = t.find( "  " ) == std::string::npos ? t.find( ' ', 4 ) : t.find( ' ', 4 );
                m[section + t.substr( 0, p )] = p == std::string::npos ? "" : trim( t.substr( p ) );
            }
            else
                m[section + t.substr( 0, p )] = p == std::string::npos ? "" : trim( t.substr( p ) );
        }
    }
    return m;
}
std::vector<double> numbers_in( const std::string & t )
{
    std::vector<double> v;
    for( size_t i = 0; i < t.size(); )
    {
        char * e;
        if( std::isdigit( (unsigned char)t[i] ) || ( t[i] == '-' && i + 1 < t.size() && std::isdigit( (unsigned char)t[i + 1] ) ) )
        {
            v.push_back( strtod( t.c_str() + i, &e ) );
            i = e - t.c_str();
        }
        else
            i++;
    }
    return v;
}
} // namespace

PBT_FACET( report, 14000, 250000 )
{
    ScenarioGen g;
    g.max_agents = 10;
    g.max_iter   = 10;
    auto sc      = gen_scenario( s, g );
    auto & o     = sc.opt;
    bool seeded  = s.chance( 2, 3 );
    auto toml    = toml_of( o );
    if( !seeded )
        std::erase_if( toml.t["simulation"], []( auto & r ) { return r.first == "rng_seed"; } );
    TempDir d( c, "report" );
    spit( d / "conf.toml", toml.str() );
    c.show( sc.text + ( seeded ? "" : "no seed given\n" ) );
    int rc = -1;
    std::string what;
    auto text = printed( d / "stdout", [&] { rc = run_program( { d / "conf.toml", "-o", d / "out" }, &what ); } );
    PBT_CHECK( c, rc == 0, "the program ended with {} {}", rc, what );
    c.show( text );
    auto r    = report( text );
    auto want = [&]( const std::string & key, const std::vector<double> & v ) {
        PBT_CHECK( c, r.count( key ), "{} is not reported", key );
        auto got = numbers_in( r[key] );
        PBT_CHECK( c, got == v, "{} is reported as {}, it is {}", key, r[key], fmt::join( v, " " ) );
    };
    auto flag = [&]( const std::string & key, bool v ) {
        PBT_CHECK( c, r.count( key ), "{} is not reported", key );
        PBT_CHECK( c, r[key] == ( v ? "true" : "false" ), "{} is reported as {}, it is {}", key, r[key], v );
    };
    auto optional = [&]( const std::string & key, auto v ) { want( key, v ? std::vector<double>{ double( *v ) } : std::vector<double>{} ); };
    if( seeded )
        want( "seed", { double( o.rng_seed ) } );
    PBT_CHECK( c, r["[Model] type"] == o.model_string, "the model is reported as {}, it is {}", r["[Model] type"], o.model_string );
    optional( "[Model] max_iterations", limit_of( o ) );
    auto activity = [&]( const Seldon::Config::ActivityDrivenSettings & a ) {
        want( "[Model] dt", { a.dt } );
        want( "[Model] m", { double( a.m ) } );
        want( "[Model] eps", { a.eps } );
        want( "[Model] gamma", { a.gamma } );
        want( "[Model] alpha", { a.alpha } );
        want( "[Model] homophily", { a.homophily } );
        want( "[Model] reciprocity", { a.reciprocity } );
        want( "[Model] K", { a.K } );
        flag( "[Model] mean_activities", a.mean_activities );
        flag( "[Model] mean_weights", a.mean_weights );
        want( "[Model] n_bots", { double( a.n_bots ) } );
        if( a.n_bots > 0 )
        {
            want( "[Model] Bot opinions", a.bot_opinion );
            want( "[Model] Bot m", std::vector<double>( a.bot_m.begin(), a.bot_m.end() ) );
            want( "[Model] Bot activity(s)", a.bot_activity );
            want( "[Model] Bot homophily(s)", a.bot_homophily );
        }
        flag( "[Model] use_reluctances", a.use_reluctances );
        if( a.use_reluctances )
        {
            want( "[Model] reluctance_mean", { a.reluctance_mean } );
            want( "[Model] reluctance_sigma", { a.reluctance_sigma } );
            want( "[Model] reluctance_eps", { a.reluctance_eps } );
            want( "[Model] covariance_factor", { a.covariance_factor } );
        }
    };
    if( auto * p = std::get_if<Seldon::Config::DeGrootSettings>( &o.model_settings ) )
        want( "[Model] convergence_tol", { p->convergence_tol } );
    else if( auto * p = std::get_if<Seldon::Config::DeffuantSettings>( &o.model_settings ) )
    {
        want( "[Model] homophily_threshold", { p->homophily_threshold } );
        want( "[Model] mu", { p->mu } );
        flag( "[Model] use_network", p->use_network );
        flag( "[Model] use_binary_vector", p->use_binary_vector );
        want( "[Model] dim", { double( p->dim ) } );
    }
    else if( auto * p = std::get_if<Seldon::Config::ActivityDrivenSettings>( &o.model_settings ) )
        activity( *p );
    else if( auto * p = std::get_if<Seldon::Config::ActivityDrivenInertialSettings>( &o.model_settings ) )
    {
        activity( *p );
        want( "[Model] friction_coefficient", { p->friction_coefficient } );
    }
    want( "[Network] n_agents", { double( o.network_settings.n_agents ) } );
    want( "[Network] n_connections", { double( o.network_settings.n_connections ) } );
    auto & io = o.output_settings;
    optional( "[Output] n_output_agents", io.n_output_agents );
    optional( "[Output] n_output_network", io.n_output_network );
    flag( "[Output] print_progress", io.print_progress );
    flag( "[Output] output_initial", io.output_initial );
    want( "[Output] start_output", { double( io.start_output ) } );
    want( "[Output] start_numbering_from", { double( io.start_numbering_from ) } );

    // progress: one line per iteration, or none
    std::vector<double> iterations;
    std::optional<double> finished;
    for( auto & l : lines_of( text ) )
    {
        if( l.rfind( "Iteration ", 0 ) == 0 )
            iterations.push_back( numbers_in( l ).at( 0 ) );
        if( l.rfind( "Finished after ", 0 ) == 0 )
            finished = numbers_in( l ).at( 0 );
    }
    PBT_CHECK( c, finished.has_value(), "the end of the run is not reported" );
    if( sc.kind != DeGroot )
        PBT_CHECK( c, *finished == *limit_of( o ), "the run is said to have finished after {} iterations, the limit is {}", *finished, *limit_of( o ) );
    PBT_CHECK( c, iterations.size() == ( io.print_progress ? size_t( *finished ) : 0 ), "{} iterations are reported of {}, print_progress {}", iterations.size(), *finished, io.print_progress );
    for( size_t i = 0; i < iterations.size(); i++ )
        PBT_CHECK( c, iterations[i] == double( i + 1 ), "iteration {} is reported as {}", i + 1, iterations[i] );

    // the reported seed repeats the run
    auto seed = numbers_in( r["seed"] );
    PBT_CHECK( c, seed.size() == 1, "the seed is reported as {}", r["seed"] );
    auto again = o;
    again.rng_seed = int( seed[0] );
    spit( d / "again.toml", toml_of( again ).str() );
    rc = run_program( { d / "again.toml", "-o", d / "out2" }, &what );
    PBT_CHECK( c, rc == 0, "the program with the reported seed ended with {} {}", rc, what );
    auto a = contents_of( d / "out" ), b = contents_of( d / "out2" );
    PBT_CHECK( c, a == b, "a run with the reported seed {} writes different files", r["seed"] );
    c.nontrivial( *finished > 0 );
    c.label( kind_name( sc.kind ) );
    c.label( "seed not given", !seeded );
    c.label( "a thousand reported iterations", iterations.size() > 999 );
}

PBT_LARGE( report, 1200, 300, 4000 );
