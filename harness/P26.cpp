// BUILD: main
// What a configuration file means
#include "scenario.hpp"
using namespace H;

PBT_PROPERTY( "P26", "a case is a configuration file written by the harness from values of its own, with any subset of the options, in any order and notation, and the options expected from it; "
                     "non-trivial: at least three options are given and at least three left out" );

namespace
{
// The documented defaults, independent of the code
struct Ref
{
    std::string model;
    std::optional<long> seed;
    std::optional<size_t> out_agents, out_network;
    bool progress = false, initial = true;
    size_t start = 1, numbering = 0;
    std::optional<int> max_iterations;
    size_t n_agents = 200, n_connections = 10;
    double tol = 1e-6;                                   // DeGroot
    double threshold = 0.2, mu = 0.5;                    // Deffuant
    bool lattice = false, vector = false;
    size_t dim = 1;
    double dt = 0.01, eps = 0.01, gamma = 2.1, alpha = 3, homophily = 0.5, reciprocity = 0.5, K = 3; // activity driven
    int m = 10;
    bool mean_activities = false, mean_weights = false, reluctances = false;
    double r_mean = 1, r_sigma = 0.25, r_eps = 0.01, cov = 0;
    size_t n_bots = 0;
    std::optional<std::vector<long>> bot_m;
    std::optional<std::vector<double>> bot_activity, bot_opinion, bot_homophily;
    double friction = 1;
};

enum Type
{
    Real,
    Int,
    Size,
    Bool,
    Ints,
    Reals
};
struct Row
{
    std::string table, key, text;
    Type type;
};

std::string int_text( Src & s, long v )
{
    auto t = std::to_string( v );
    switch( s.draw( 5 ) )
    {
        case 1:
            return v >= 0 ? "+" + t : t;
        case 2:
            return v >= 0 ? fmt::format( "0x{:x}", v ) : t;
        case 3:
            if( v >= 1000 )
                return t.substr( 0, t.size() - 3 ) + "_" + t.substr( t.size() - 3 );
            return t;
        case 4:
            return v >= 0 ? fmt::format( "0b{:b}", v ) : t;
        default:
            return t;
    }
}
std::string real_text( Src & s, double v )
{
    if( std::isfinite( v ) && v == std::trunc( v ) && std::abs( v ) < 1e15 && !( v == 0 && std::signbit( v ) ) && s.flip() )
        return int_text( s, long( v ) ); // a whole number may be written without a point
    if( std::isfinite( v ) && s.chance( 1, 4 ) )
        return fmt::format( "{:.17e}", v );
    return toml_real( v );
}
double any_real( Src & s )
{
    switch( s.draw( 7 ) )
    {
        case 0:
            return s.finite();
        case 1:
            return double( s.range( -5, 5 ) );
        case 2:
            return s.chance( 1, 2 ) ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
        default:
            return s.real( 0, 4 );
    }
}
long any_int( Src & s )
{
    switch( s.draw( 4 ) )
    {
        case 0:
            return std::numeric_limits<int>::max() - long( s.draw( 2 ) );
        case 1:
            return -long( s.draw( 1000 ) ) - 1;
        case 2:
            return std::numeric_limits<int>::min() + long( s.draw( 2 ) );
        default:
            return long( s.draw( 3000 ) );
    }
}
size_t any_size( Src & s )
{
    return s.chance( 1, 5 ) ? s.draw( 1ULL << 53 ) : s.draw( 3000 );
}

struct Writer
{
    Src & s;
    std::vector<Row> rows;
    size_t left_out = 0;
    bool given()
    {
        bool g = s.flip();
        left_out += !g;
        return g;
    }
    void real( const std::string & t, const std::string & k, double & v )
    {
        if( given() )
            v = any_real( s ), rows.push_back( { t, k, real_text( s, v ), Real } );
    }
    void flag( const std::string & t, const std::string & k, bool & v )
    {
        if( given() )
            v = s.flip(), rows.push_back( { t, k, toml_bool( v ), Bool } );
    }
    template<typename T>
    void size( const std::string & t, const std::string & k, T & v, size_t hi = 0 )
    {
        if( given() )
        {
            size_t x = hi ? s.draw( hi ) : any_size( s );
            v        = x;
            rows.push_back( { t, k, int_text( s, long( x ) ), Size } );
        }
    }
    template<typename T>
    void integer( const std::string & t, const std::string & k, T & v )
    {
        if( given() )
        {
            long x = any_int( s );
            v      = x;
            rows.push_back( { t, k, int_text( s, x ), Int } );
        }
    }
    void reals( const std::string & t, const std::string & k, std::optional<std::vector<double>> & v )
    {
        if( given() )
        {
            v.emplace();
            std::string text = "[";
            for( size_t n = s.chance( 1, 100 ) ? s.range( 20, 150 ) : s.size( 0, 5 ); n-- > 0; )
            {
                v->push_back( any_real( s ) );
                text += ( v->size() > 1 ? s.pick( std::vector<std::string>{ ",", ", ", " ,\n  " } ) : "" ) + real_text( s, v->back() );
            }
            rows.push_back( { t, k, text + "]", Reals } );
        }
    }
    void ints( const std::string & t, const std::string & k, std::optional<std::vector<long>> & v )
    {
        if( given() )
        {
            v.emplace();
            std::string text = "[";
            for( size_t n = s.chance( 1, 100 ) ? s.range( 20, 150 ) : s.size( 0, 5 ); n-- > 0; )
            {
                v->push_back( any_int( s ) );
                text += ( v->size() > 1 ? ", " : "" ) + int_text( s, v->back() );
            }
            rows.push_back( { t, k, text + "]", Ints } );
        }
    }
    void model( const std::string & M, Ref & r )
    {
        if( M == "DeGroot" )
            real( M, "convergence", r.tol );
        else if( M == "Deffuant" )
        {
            real( M, "homophily_threshold", r.threshold );
            real( M, "mu", r.mu );
            flag( M, "use_network", r.lattice );
            flag( M, "binary_vector", r.vector );
            size( M, "dim", r.dim );
        }
        else
        {
            real( M, "dt", r.dt );
            integer( M, "m", r.m );
            real( M, "eps", r.eps );
            real( M, "gamma", r.gamma );
            real( M, "alpha", r.alpha );
            real( M, "homophily", r.homophily );
            real( M, "reciprocity", r.reciprocity );
            real( M, "K", r.K );
            flag( M, "mean_activities", r.mean_activities );
            flag( M, "mean_weights", r.mean_weights );
            flag( M, "reluctances", r.reluctances );
            real( M, "reluctance_mean", r.r_mean );
            real( M, "reluctance_sigma", r.r_sigma );
            real( M, "reluctance_eps", r.r_eps );
            real( M, "covariance_factor", r.cov );
            size( M, "n_bots", r.n_bots, 6 );
            ints( M, "bot_m", r.bot_m );
            reals( M, "bot_activity", r.bot_activity );
            reals( M, "bot_opinion", r.bot_opinion );
            reals( M, "bot_homophily", r.bot_homophily );
            if( M == "ActivityDrivenInertial" )
                real( M, "friction_coefficient", r.friction );
        }
    }
};
const std::vector<std::string> models{ "DeGroot", "ActivityDriven", "ActivityDrivenInertial", "Deffuant" };

template<typename V>
void shuffle( Src & s, V & v )
{
    for( size_t i = v.size(); i > 1; i-- )
        std::swap( v[i - 1], v[s.draw( i - 1 )] );
}

// The rows as text: tables in any order, in any of the notations TOML has
std::string layout( Src & s, std::vector<Row> rows )
{
    shuffle( s, rows );
    std::vector<std::string> order;
    std::map<std::string, std::vector<Row>> t;
    for( auto & r : rows )
    {
        if( !t.count( r.table ) )
            order.push_back( r.table );
        t[r.table].push_back( r );
    }
    shuffle( s, order );
    std::string head, body; // entries outside any table come first
    auto pad = [&] { return std::string( s.draw( 2 ), ' ' ); };
    auto eol = [&] { return s.chance( 1, 4 ) ? " # a comment = 3 [io]\n" : ( s.chance( 1, 6 ) ? "\n\n" : "\n" ); };
    auto key = [&]( const std::string & k ) { return s.chance( 1, 8 ) ? "\"" + k + "\"" : k; };
    for( auto & name : order )
    {
        switch( s.draw( 5 ) )
        {
            case 1: // dotted keys
                for( auto & r : t[name] )
                    head += key( name ) + "." + key( r.key ) + pad() + "=" + pad() + r.text + eol();
                break;
            case 2: // inline table
            {
                bool multi = false;
                for( auto & r : t[name] )
                    multi = multi || r.text.find( '\n' ) != std::string::npos;
                if( !multi )
                {
                    head += key( name ) + " = {";
                    for( size_t i = 0; i < t[name].size(); i++ )
                        head += ( i ? ", " : " " ) + key( t[name][i].key ) + " = " + t[name][i].text;
                    head += " }" + std::string( eol() );
                    break;
                }
                [[fallthrough]];
            }
            default:
                body += "[" + pad() + key( name ) + pad() + "]" + eol();
                for( auto & r : t[name] )
                    body += pad() + key( r.key ) + pad() + "=" + pad() + r.text + eol();
        }
    }
    return head + body;
}

struct File
{
    Ref ref;
    std::vector<Row> rows;
    size_t left_out = 0;
};
File gen_file( Src & s )
{
    File f;
    Writer w{ s };
    Ref & r = f.ref;
    r.model = s.pick( models );
    w.rows.push_back( { "simulation", "model", s.chance( 1, 4 ) ? "'" + r.model + "'" : "\"" + r.model + "\"", Bool } );
    w.integer( "simulation", "rng_seed", r.seed );
    w.size( "io", "n_output_agents", r.out_agents );
    w.size( "io", "n_output_network", r.out_network );
    w.flag( "io", "print_progress", r.progress );
    w.flag( "io", "output_initial", r.initial );
    w.size( "io", "start_output", r.start );
    w.size( "io", "start_numbering_from", r.numbering );
    w.integer( "model", "max_iterations", r.max_iterations );
    w.size( "network", "number_of_agents", r.n_agents );
    w.size( "network", "connections_per_agent", r.n_connections );
    w.model( r.model, r );
    f.left_out = w.left_out;
    // the options of models that are not run
    Ref ignored;
    for( auto & M : models )
        if( M != r.model && s.chance( 1, 3 ) )
            w.model( M, ignored );
    f.rows = w.rows;
    return f;
}

bool same( double a, double b )
{
    return same_bits( a, b ) || ( std::isnan( a ) && std::isnan( b ) ) || ( a == 0 && b == 0 );
}

#define FIELD( what, got, want ) PBT_CHECK( c, ( got ) == ( want ), "{} is {}, the file means {}", what, got, want )
#define REAL( what, got, want ) PBT_CHECK( c, same( got, want ), "{} is {:.17g}, the file means {:.17g}", what, double( got ), double( want ) )

template<typename A, typename B>
void compare_list( Ctx & c, const char * what, const A & got, const B & want )
{
    PBT_CHECK( c, got.size() == want.size(), "{} has {} entries, the file means {}", what, got.size(), want.size() );
    for( size_t i = 0; i < got.size(); i++ )
        REAL( fmt::format( "{}[{}]", what, i ), got[i], want[i] );
}
std::string opt_text( const std::optional<size_t> & o )
{
    return o ? std::to_string( *o ) : "not set";
}
void compare( Ctx & c, const Seldon::Config::SimulationOptions & o, const Ref & r )
{
    using namespace Seldon::Config;
    FIELD( "the model string", o.model_string, r.model );
    Model want = r.model == "DeGroot" ? Model::DeGroot : r.model == "Deffuant" ? Model::DeffuantModel : r.model == "ActivityDriven" ? Model::ActivityDrivenModel : Model::ActivityDrivenInertial;
    FIELD( "the model", int( o.model ), int( want ) );
    if( r.seed )
        FIELD( "rng_seed", long( o.rng_seed ), *r.seed );
    auto & io = o.output_settings;
    FIELD( "n_output_agents", opt_text( io.n_output_agents ), opt_text( r.out_agents ) );
    FIELD( "n_output_network", opt_text( io.n_output_network ), opt_text( r.out_network ) );
    FIELD( "print_progress", io.print_progress, r.progress );
    FIELD( "output_initial", io.output_initial, r.initial );
    FIELD( "start_output", io.start_output, r.start );
    FIELD( "start_numbering_from", io.start_numbering_from, r.numbering );
    FIELD( "number_of_agents", o.network_settings.n_agents, r.n_agents );
    FIELD( "connections_per_agent", o.network_settings.n_connections, r.n_connections );
    auto lim = limit_of( o );
    PBT_CHECK( c, lim.has_value() == r.max_iterations.has_value(), "max_iterations is {}set", lim ? "" : "not " );
    if( lim )
        FIELD( "max_iterations", *lim, *r.max_iterations );
    auto activity = [&]( const ActivityDrivenSettings & a ) {
        REAL( "dt", a.dt, r.dt );
        FIELD( "m", a.m, r.m );
        REAL( "eps", a.eps, r.eps );
        REAL( "gamma", a.gamma, r.gamma );
        REAL( "alpha", a.alpha, r.alpha );
        REAL( "homophily", a.homophily, r.homophily );
        REAL( "reciprocity", a.reciprocity, r.reciprocity );
        REAL( "K", a.K, r.K );
        FIELD( "mean_activities", a.mean_activities, r.mean_activities );
        FIELD( "mean_weights", a.mean_weights, r.mean_weights );
        FIELD( "reluctances", a.use_reluctances, r.reluctances );
        REAL( "reluctance_mean", a.reluctance_mean, r.r_mean );
        REAL( "reluctance_sigma", a.reluctance_sigma, r.r_sigma );
        REAL( "reluctance_eps", a.reluctance_eps, r.r_eps );
        REAL( "covariance_factor", a.covariance_factor, r.cov );
        FIELD( "n_bots", a.n_bots, r.n_bots );
        compare_list( c, "bot_m", a.bot_m, r.bot_m.value_or( std::vector<long>( r.n_bots, r.m ) ) );
        compare_list( c, "bot_activity", a.bot_activity, r.bot_activity.value_or( std::vector<double>( r.n_bots, 1.0 ) ) );
        compare_list( c, "bot_opinion", a.bot_opinion, r.bot_opinion.value_or( std::vector<double>( r.n_bots, 0.0 ) ) );
        compare_list( c, "bot_homophily", a.bot_homophily, r.bot_homophily.value_or( std::vector<double>( r.n_bots, r.homophily ) ) );
    };
    if( r.model == "DeGroot" )
        REAL( "convergence", std::get<DeGrootSettings>( o.model_settings ).convergence_tol, r.tol );
    else if( r.model == "Deffuant" )
    {
        auto & d = std::get<DeffuantSettings>( o.model_settings );
        REAL( "homophily_threshold", d.homophily_threshold, r.threshold );
        REAL( "mu", d.mu, r.mu );
        FIELD( "use_network", d.use_network, r.lattice );
        FIELD( "binary_vector", d.use_binary_vector, r.vector );
        FIELD( "dim", d.dim, r.dim );
    }
    else if( r.model == "ActivityDriven" )
        activity( std::get<ActivityDrivenSettings>( o.model_settings ) );
    else
    {
        auto & a = std::get<ActivityDrivenInertialSettings>( o.model_settings );
        activity( a );
        REAL( "friction_coefficient", a.friction_coefficient, r.friction );
    }
}

bool refused( const std::string & file )
{
    try
    {
        Seldon::Config::parse_config_file( file );
        return false;
    }
    catch( const std::exception & )
    {
        return true;
    }
}

std::string wrong_value( Src & s, Type t )
{
    std::vector<std::string> v{ "\"a\"", "1979-05-27", "{ a = 1 }", "07:32:00" };
    switch( t )
    {
        case Real:
            v.insert( v.end(), { "[1.0]", "\"1.5\"", "[]" } );
            break;
        case Int:
            v.insert( v.end(), { "1.5", "2147483648", "-2147483649", "9223372036854775807", "[1]", "\"3\"" } );
            break;
        case Size:
            v.insert( v.end(), { "-1", "0.5", "-9223372036854775808", "[1]", "\"3\"" } );
            break;
        case Bool:
            v.insert( v.end(), { "\"true\"", "[true]", "'yes'" } );
            break;
        case Ints:
            v.insert( v.end(), { "3", "[1, \"2\"]", "[1.5]", "[3000000000]", "[[1]]", "true", "[\"a\", 1]" } );
            break;
        case Reals:
            v.insert( v.end(), { "3", "0.5", "[1, \"2\"]", "[[1.0]]", "true", "[1.0, 1979-05-27]" } );
            break;
    }
    return s.pick( v );
}
} // namespace

PBT_FACET( options, 120000, 5000000 )
{
    auto f    = gen_file( s );
    auto text = layout( s, f.rows );
    c.show( text );
    TempDir d( c, "cfg" );
    spit( d / "conf.toml", text );
    auto o = Seldon::Config::parse_config_file( d / "conf.toml" );
    compare( c, o, f.ref );
    if( !f.ref.seed )
    {
        auto a = Seldon::Config::parse_config_file( d / "conf.toml" ).rng_seed, b = Seldon::Config::parse_config_file( d / "conf.toml" ).rng_seed;
        PBT_CHECK( c, !( a == b && b == o.rng_seed ), "three files without rng_seed were all given the seed {}", a );
    }
    c.nontrivial( f.rows.size() >= 4 && f.left_out >= 3 );
    c.label( f.ref.model );
    c.label( "rng_seed left out", !f.ref.seed );
    c.label( "bots", f.ref.n_bots > 0 );
}

PBT_FACET( refusals, 60000, 2000000 )
{
    auto f = gen_file( s );
    TempDir d( c, "cfg" );
    std::string text, what;
    auto rows = f.rows;
    switch( s.draw( 5 ) )
    {
        case 0: // an option of the wrong type
        case 1:
        {
            std::vector<size_t> mine;
            for( size_t i = 0; i < rows.size(); i++ )
                if( rows[i].key != "model" && ( rows[i].table == "io" || rows[i].table == "simulation" || rows[i].table == "model" || rows[i].table == "network" || rows[i].table == f.ref.model ) )
                    mine.push_back( i );
            if( mine.empty() )
                throw pbt::Discard();
            auto & r = rows[s.pick( mine )];
            r.text   = wrong_value( s, r.type );
            what     = fmt::format( "{}.{} = {}", r.table, r.key, r.text );
            text     = layout( s, rows );
            break;
        }
        case 2: // no model
            what = "no model";
            std::erase_if( rows, []( auto & r ) { return r.key == "model"; } );
            if( s.flip() )
                rows.push_back( { "model", "model", "\"DeGroot\"", Bool } );
            text = layout( s, rows );
            break;
        case 3: // a model there is not
        {
            std::vector<std::string> v{ "\"\"", "\"degroot\"", "\"DeGroot \"", "\"Activity\"", "\"ActivityDrivenModel\"", "\"DeffuantModel\"", "\"DeffuantVector\"", "1", "true", "[\"DeGroot\"]",
                                        "\"Inertial\"", "\"ActivityDrivenInertia\"", "\"ActivityDrivenInertialModel\"", "\"Deffuan\"", "\"DEFFUANT\"", "\"DeGroo\"" };
            for( auto & r : rows )
                if( r.key == "model" )
                    r.text = s.pick( v ), what = "model = " + r.text;
            text = layout( s, rows );
            break;
        }
        case 4: // not TOML
        {
            text = layout( s, rows );
            std::vector<std::string> v{ "[io\n", "x = \n", "x y\n", "= 3\n", "x = 1 2\n", "x = \"open\n", "x = [1, 2\n", "x = { a = 1\n", "x = 1.\n", "x = 01\n", "x = tru\n", "x = 1\nx = 2\n", "[zz]\n[zz]\n", "x == 1\n" };
            auto bad = s.pick( v );
            what     = "not TOML: " + bad;
            text     = s.flip() ? text + bad : bad + text;
            break;
        }
        default:
            what = "no such file";
            c.show( what );
            PBT_CHECK( c, refused( d / "missing.toml" ), "a configuration file that does not exist was accepted" );
            return;
    }
    c.show( what + "\n" + text );
    spit( d / "conf.toml", text );
    PBT_CHECK( c, refused( d / "conf.toml" ), "accepted: {}", what );
    c.nontrivial( f.rows.size() >= 4 && f.left_out >= 3 );
    c.label( what.substr( 0, what.find_first_of( ":=." ) ) );
}

// From the file to the behaviour: the program run with the file writes what a simulation with the same options, set without a file, writes
PBT_FACET( program, 6000, 150000 )
{
    ScenarioGen g;
    g.max_agents = 10;
    g.max_iter   = 8;
    auto sc      = gen_scenario( s, g );
    auto full    = toml_of( sc.opt );
    // options whose value is the default may be left out
    std::vector<Row> rows;
    auto fresh = [&] {
        auto o = sc.opt;
        o.output_settings  = {};
        o.network_settings = {};
        std::visit( []( auto & m ) { m = std::decay_t<decltype( m )>(); }, o.model_settings );
        return toml_of( o );
    }();
    for( auto & [t, entries] : full.t )
        for( auto & [k, v] : entries )
        {
            bool is_default = k != "model" && k != "rng_seed" && k.rfind( "bot_", 0 ) != 0
                              && std::count( fresh.t[t].begin(), fresh.t[t].end(), std::pair<std::string, std::string>{ k, v } );
            if( is_default && s.flip() )
                continue;
            rows.push_back( { t, k, v, Real } );
        }
    auto text = layout( s, rows );
    c.show( sc.text + text );
    TempDir d( c, "run" );
    spit( d / "conf.toml", text );
    std::string what;
    int rc = run_program( { d / "conf.toml", "-o", d / "a" }, &what );
    PBT_CHECK( c, rc == 0, "the program ended with {} {}", rc, what );
    std::filesystem::create_directory( d / "b" );
    dispatch( sc.kind, [&]<typename A>() {
        Seldon::Simulation<A> sim( sc.opt, std::nullopt, std::nullopt );
        sim.run( d / "b" );
    } );
    auto a = contents_of( d / "a" ), b = contents_of( d / "b" );
    PBT_CHECK( c, a.size() == b.size(), "the program wrote {} files, the simulation {}", a.size(), b.size() );
    for( auto & [name, t] : b )
        PBT_CHECK( c, a.count( name ) && a[name] == t, "{} of the program differs from that of a simulation with the same options", name );
    c.nontrivial( b.size() >= 2 );
    c.label( kind_name( sc.kind ) );
}
