// BUILD: main
// Which configurations are accepted
#include "scenario.hpp"
using namespace H;

PBT_PROPERTY( "P27", "a case is a configuration, in range or with values at, around or far outside the limits of some options, and the verdict of an independent predicate; "
                     "non-trivial: at least one option is at a limit or outside" );

namespace
{
const double inf    = std::numeric_limits<double>::infinity();
const double nan_   = std::numeric_limits<double>::quiet_NaN();
const double tiny   = std::numeric_limits<double>::denorm_min();

// Values in range and out of range of one real option
struct Range
{
    double lo, hi;          // ordinary values in range
    double limit;           // the lower limit
    bool included;          // does it belong to the range
    std::optional<double> upper = std::nullopt; // upper limit, included
};
struct Breaker
{
    Src & s;
    int bad = 0, edge = 0;
    std::string text;
    double p_bad; // chance per option

    bool break_it()
    {
        return s.chance( uint64_t( p_bad * 1000 ), 1000 );
    }
    void note( const std::string & name, const std::string & v )
    {
        text += name + " = " + v + "\n";
    }
    void real( const char * name, double & v, const Range & r )
    {
        if( break_it() )
        {
            switch( s.draw( 5 ) )
            {
                case 0:
                    v = std::nextafter( r.limit, -inf );
                    break;
                case 1:
                    v = r.limit - s.logreal( 1e-9, 1e6 );
                    break;
                case 2:
                    v = nan_;
                    break;
                case 3:
                    v = r.upper ? ( s.flip() ? std::nextafter( *r.upper, inf ) : *r.upper + s.logreal( 1e-9, 1e6 ) ) : -inf;
                    break;
                case 4:
                    v = r.included ? -s.logreal( 1e-300, 1e300 ) + r.limit : r.limit;
                    if( v == r.limit && r.included )
                        v = std::nextafter( r.limit, -inf );
                    break;
                default:
                    v = -1e300;
            }
            bad++;
            note( name, fmt::format( "{:.17g}", v ) );
        }
        else if( s.chance( 1, 6 ) )
        {
            switch( s.draw( 2 ) )
            {
                case 0:
                    v = r.included ? r.limit : std::nextafter( r.limit, inf );
                    break;
                case 1:
                    v = r.upper ? *r.upper : ( r.limit == 0 ? s.logreal( 1e-300, 1e-3 ) : std::nextafter( r.limit, inf ) );
                    break;
                default:
                    v = r.limit == 0 && !r.included ? tiny : r.limit + ( r.upper ? 0.5 : 1.0 ) * ( *( r.upper ? r.upper : std::optional<double>( r.limit + 1 ) ) - r.limit );
            }
            edge++;
            note( name, fmt::format( "{:.17g}", v ) );
        }
        else
            v = s.real( r.lo, r.hi );
    }
};

struct Generated
{
    int kind = 0;
    Seldon::Config::SimulationOptions opt;
    std::string text;
    int bad = 0, edge = 0;
};

// small: the values keep a run of the program short
Generated gen( Src & s, bool small, bool negative_m = true )
{
    Generated g;
    // most configurations have at most one option out of range
    double p = s.chance( 1, 3 ) ? 0.0 : s.pick( std::vector<double>{ 0.03, 0.08, 0.08, 0.5 } );
    Breaker b{ s, 0, 0, "", p };
    ScenarioGen sg;
    sg.max_agents = 8;
    sg.max_iter   = 4;
    auto sc       = gen_scenario( s, sg );
    g.kind        = sc.kind;
    g.opt         = sc.opt;
    auto & o      = g.opt;
    auto & io     = o.output_settings;
    auto interval = [&]( const char * name, std::optional<size_t> & v ) {
        if( b.break_it() )
            v = 0, b.bad++, b.note( name, "0" );
        else if( s.chance( 1, 6 ) )
            v = s.flip() ? 1 : std::numeric_limits<int64_t>::max(), b.edge++, b.note( name, std::to_string( *v ) );
    };
    interval( "n_output_agents", io.n_output_agents );
    interval( "n_output_network", io.n_output_network );
    if( b.break_it() )
        io.start_output = 0, b.bad++, b.note( "start_output", "0" );
    else if( s.chance( 1, 6 ) )
        io.start_output = s.flip() ? 1 : std::numeric_limits<int64_t>::max(), b.edge++;

    auto activity = [&]( Seldon::Config::ActivityDrivenSettings & a ) {
        b.real( "dt", a.dt, { 0.001, 0.1, 0, false } );
        b.real( "eps", a.eps, { 0.001, 0.9, 0, false } );
        b.real( "gamma", a.gamma, { 2.01, 6, 2, false } );
        b.real( "alpha", a.alpha, { 0.01, 6, 0, true } );
        b.real( "reciprocity", a.reciprocity, { 0, 1, 0, true } );
        b.real( "reluctance_mean", a.reluctance_mean, { 0.1, 3, 0, false } );
        b.real( "reluctance_sigma", a.reluctance_sigma, { 0.1, 2, 0, false } );
        b.real( "reluctance_eps", a.reluctance_eps, { 0.01, 1, 0, false } );
        b.real( "covariance_factor", a.covariance_factor, { -1, 1, -1, true, 1.0 } );
        a.homophily = s.real( -2, 4 );
        a.K         = s.real( -3, 6 );
        if( b.break_it() )
            a.m = negative_m && s.flip() ? std::numeric_limits<int>::min() : -1 - int( s.draw( 20 ) ), b.bad++, b.note( "m", std::to_string( a.m ) );
        else if( s.chance( 1, 6 ) )
            a.m = small ? 0 : s.pick( std::vector<int>{ 0, 1, std::numeric_limits<int>::max() } ), b.edge++;
        else
            a.m = int( s.size( 0, 20 ) );
        // the lists of the bots
        a.n_bots   = s.flip() ? 0 : s.size( 1, std::min<size_t>( 4, o.network_settings.n_agents ) );
        auto list  = [&]( const char * name, auto & v, auto fill ) {
            size_t len = a.n_bots;
            if( a.n_bots > 0 && b.break_it() )
                len = s.flip() ? 0 : a.n_bots - 1, b.bad++, b.note( name, fmt::format( "list of {} for {} bots", len, a.n_bots ) );
            else if( s.chance( 1, 3 ) )
                len += s.size( 1, 3 ), b.edge++;
            v.clear();
            for( size_t i = 0; i < len; i++ )
                v.push_back( fill() );
        };
        list( "bot_m", a.bot_m, [&] { return int( s.size( 0, 20 ) ); } );
        list( "bot_activity", a.bot_activity, [&] { return s.unit(); } );
        list( "bot_opinion", a.bot_opinion, [&] { return s.real( -3, 3 ); } );
        list( "bot_homophily", a.bot_homophily, [&] { return s.real( -1, 3 ); } );
    };
    if( auto * d = std::get_if<Seldon::Config::DeGrootSettings>( &o.model_settings ) )
        b.real( "convergence", d->convergence_tol, { 1e-9, 0.1, 0, true } );
    else if( auto * d = std::get_if<Seldon::Config::DeffuantSettings>( &o.model_settings ) )
    {
        b.real( "homophily_threshold", d->homophily_threshold, { 0.01, 3, 0, false } );
        // documented as (0, 0.5] for the model; validation takes all of [0, 1]
        if( b.break_it() )
        {
            d->mu = s.pick( std::vector<double>{ -tiny, -1e-9, -0.5, -1e300, -inf, nan_, std::nextafter( 1.0, 2.0 ), 1.001, 2, 1e300, inf } );
            b.bad++;
            b.note( "mu", fmt::format( "{:.17g}", d->mu ) );
        }
        else
            d->mu = s.chance( 1, 3 ) ? s.pick( std::vector<double>{ 0, tiny, 0.5, std::nextafter( 0.5, 1 ), std::nextafter( 1.0, 0 ), 1 } ) : s.unit();
        if( b.break_it() )
        {
            d->dim = d->use_binary_vector || s.flip() ? 0 : s.size( 2, 9 );
            b.bad++;
            b.note( "dim", fmt::format( "{}, binary_vector = {}", d->dim, d->use_binary_vector ) );
        }
    }
    else if( auto * a = std::get_if<Seldon::Config::ActivityDrivenSettings>( &o.model_settings ) )
        activity( *a );
    else if( auto * a = std::get_if<Seldon::Config::ActivityDrivenInertialSettings>( &o.model_settings ) )
    {
        activity( *a );
        b.real( "friction_coefficient", a->friction_coefficient, { 0, 4, 0, true } );
    }
    g.bad  = b.bad;
    g.edge = b.edge;
    g.text = fmt::format( "{}\n{}", sc.text, b.text );
    return g;
}
} // namespace

PBT_FACET( validation, 250000, 6000000 )
{
    auto g = gen( s, false );
    // what does not matter to the limits of the others
    if( s.flip() )
        set_limit( g.opt, s.flip() ? std::nullopt : std::optional<size_t>( s.big( 0, 2000000000 ) ) );
    if( s.chance( 1, 3 ) )
        g.opt.network_settings.n_agents += s.big( 1, 1000000 );
    if( s.chance( 1, 3 ) )
        g.opt.network_settings.n_connections = s.big( 0, 1000000 );
    if( s.chance( 1, 3 ) )
        g.opt.output_settings.start_numbering_from = s.big( 0, 1000000 );
    c.show( fmt::format( "{} options out of range, {} at a limit\n{}", g.bad, g.edge, g.text ) );
    bool refused = false;
    std::string what;
    try
    {
        Seldon::Config::validate_settings( g.opt );
    }
    catch( const std::exception & e )
    {
        refused = true;
        what    = e.what();
    }
    if( g.bad )
        PBT_CHECK( c, refused, "accepted a configuration with {} options out of range", g.bad );
    else
        PBT_CHECK( c, !refused, "refused a configuration in range: {}", what );
    c.nontrivial( g.bad + g.edge > 0 );
    c.label( kind_name( g.kind ) );
    c.label( "in range", g.bad == 0 );
    c.label( "exactly one option out of range", g.bad == 1 );
}

// The program: a refused configuration ends with an error and leaves no simulation output
PBT_FACET( program, 9000, 150000 )
{
    auto g    = gen( s, true );
    auto toml = toml_of( g.opt );
    std::string why = g.text;
    bool bad        = g.bad > 0;
    auto & n        = g.opt.network_settings.n_agents;
    auto replace    = [&]( const std::string & table, const std::string & key, const std::string & v ) {
        for( auto & [k, x] : toml.t[table] )
            if( k == key )
            {
                x = v;
                return;
            }
        toml.set( table, key, v );
    };
    if( auto * d = std::get_if<Seldon::Config::DeffuantSettings>( &g.opt.model_settings ); d && s.chance( 1, 4 ) )
    {
        // a lattice needs a square number of agents
        n = s.pick( std::vector<size_t>{ 2, 3, 5, 8, 10, 15, 17, 24, 26, 99 } );
        replace( "network", "number_of_agents", std::to_string( n ) );
        replace( "Deffuant", "use_network", "true" );
        bad = true;
        why += fmt::format( "lattice of {} agents\n", n );
    }
    else if( g.kind == Activity || g.kind == InertialKind )
    {
        if( s.chance( 1, 6 ) )
        {
            auto M    = g.opt.model_string;
            size_t nb = n + s.size( 1, 3 );
            replace( M, "n_bots", std::to_string( nb ) );
            for( auto k : { "bot_m", "bot_activity", "bot_opinion", "bot_homophily" } )
                replace( M, k, toml_array( std::vector<int>( nb, 1 ), []( int v ) { return std::to_string( v ); } ) );
            bad = true;
            why += fmt::format( "{} bots among {} agents\n", nb, n );
        }
    }
    if( s.chance( 1, 8 ) )
    {
        auto [t, k] = s.pick( std::vector<std::pair<std::string, std::string>>{ { "io", "n_output_agents" }, { "io", "n_output_network" }, { "io", "start_output" }, { "io", "start_numbering_from" },
                                                                                { "network", "number_of_agents" }, { "network", "connections_per_agent" } } );
        replace( t, k, "-" + std::to_string( s.size( 1, 1000 ) ) );
        bad = true;
        why += k + " is negative\n";
    }
    if( !bad )
        throw pbt::Discard(); // complete runs are P28's
    c.show( why + toml.str() );
    TempDir d( c, "run" );
    spit( d / "conf.toml", toml.str() );
    bool given = s.flip(); // into a directory that is there
    if( given )
    {
        std::filesystem::create_directory( d / "out" );
        spit( d / "out/opinions_0.txt", "untouched" );
    }
    std::string what;
    int rc = run_program( { d / "conf.toml", "-o", d / "out" }, &what );
    PBT_CHECK( c, rc != 0, "the program accepted the configuration" );
    auto files = std::filesystem::exists( d / "out" ) ? contents_of( d / "out" ) : std::map<std::string, std::string>{};
    if( given )
    {
        PBT_CHECK( c, files.count( "opinions_0.txt" ) && files["opinions_0.txt"] == "untouched", "the refused run changed a file" );
        files.erase( "opinions_0.txt" );
    }
    PBT_CHECK( c, files.empty(), "the refused run wrote {}", files.begin()->first );
    c.nontrivial();
    c.label( kind_name( g.kind ) );
}
