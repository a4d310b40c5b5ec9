// BUILD: main
// Whole runs of the program
#include "scenario.hpp"
#include <unistd.h>
using namespace H;

PBT_PROPERTY( "P28", "a case is a run of the program with a valid configuration (any model, with or without given files, any way of naming the output directory), or a wrong use of it; "
                     "non-trivial: the run has at least one iteration, or the use is wrong" );

namespace
{
struct Cwd
{
    std::string old = sfs::current_path().string();
    Cwd( const std::string & d )
    {
        sfs::current_path( d );
    }
    ~Cwd()
    {
        sfs::current_path( old );
    }
};
// every regular file below d
std::map<std::string, std::string> tree( const std::string & d )
{
    std::map<std::string, std::string> m;
    for( auto & e : sfs::recursive_directory_iterator( d ) )
        if( e.is_regular_file() )
            m[sfs::relative( e.path(), d ).string()] = slurp( e.path().string() );
    return m;
}

struct Given
{
    std::optional<std::string> net, agents;
    size_t n = 0;
    double lo = -1, hi = 1; // hull of the given opinions
};

Given give_files( Src & s, const Scenario & sc, const TempDir & d )
{
    Given g;
    auto & o = sc.opt;
    g.n      = o.network_settings.n_agents;
    bool lattice = false;
    size_t dim = 1, bots = 0;
    if( auto * p = std::get_if<Seldon::Config::DeffuantSettings>( &o.model_settings ) )
        lattice = p->use_network, dim = p->dim;
    std::visit( [&]( auto & m ) {
        if constexpr( requires { m.n_bots; } )
            bots = m.n_bots;
    }, o.model_settings );
    if( s.chance( 1, 3 ) )
    {
        if( !lattice && s.flip() )
            g.n = std::max<size_t>( { 1, bots, s.size( 1, 18 ) } );
        auto r = sc.kind == DeGroot ? stochastic_net( s, g.n, 5 ) : random_net( s, g.n, 5, false );
        spit( d / "n.txt", write_network_text( r.nbr, r.w ) );
        g.net = d / "n.txt";
    }
    if( s.chance( 1, 3 ) )
    {
        std::vector<std::vector<double>> rows;
        for( size_t i = 0; i < g.n; i++ )
            switch( sc.kind )
            {
                case Activity:
                    rows.push_back( { s.real( -3, 3 ), s.real( 0, 1 ), s.logreal( 0.1, 10 ) } );
                    break;
                case InertialKind:
                    rows.push_back( { s.real( -3, 3 ), s.real( -3, 3 ), s.real( 0, 1 ), s.logreal( 0.1, 10 ) } );
                    break;
                case DeffuantVector:
                {
                    std::vector<double> v;
                    for( size_t k = 0; k < dim; k++ )
                        v.push_back( double( s.draw( 1 ) ) );
                    rows.push_back( v );
                    break;
                }
                default:
                    rows.push_back( { s.real( -5, 5 ) } );
            }
        if( sc.kind == DeGroot || sc.kind == DeffuantScalar )
        {
            g.lo = g.hi = rows[0][0];
            for( auto & r : rows )
                g.lo = std::min( g.lo, r[0] ), g.hi = std::max( g.hi, r[0] );
        }
        spit( d / "a.txt", write_agents_text( rows ) );
        g.agents = d / "a.txt";
    }
    return g;
}
} // namespace

PBT_FACET( runs, 26000, 400000 )
{
    ScenarioGen g;
    g.max_agents = s.chance( 1, 20 ) ? 300 : 16;
    g.max_iter   = s.chance( 1, 20 ) ? 60 : 10;
    auto sc      = gen_scenario( s, g );
    auto & o     = sc.opt;
    // sizes no model's formulas were written for
    if( s.chance( 1, 12 ) && !( sc.kind == DeffuantScalar || sc.kind == DeffuantVector ) )
        o.network_settings.n_agents = 1;
    if( s.chance( 1, 8 ) )
        o.network_settings.n_connections = s.pick( std::vector<size_t>{ 0, o.network_settings.n_agents, o.network_settings.n_agents + 1, 1000, 1u << 20 } );
    size_t bots = 0;
    std::visit( [&]( auto & m ) {
        if constexpr( requires { m.n_bots; } )
        {
            if( s.chance( 1, 6 ) )
                m.m = s.pick( std::vector<int>{ 0, int( o.network_settings.n_agents ) - 1, int( o.network_settings.n_agents ), 100000 } );
            if( m.m > 1000 ) // the mean-field weights take m powers for every pair of agents
            {
                size_t n = o.network_settings.n_agents;
                m.m      = std::max<int>( n, std::min<size_t>( m.m, 10'000'000 / ( n * n * ( *m.max_iterations + 1 ) ) ) );
            }
            m.n_bots = std::min( m.n_bots, o.network_settings.n_agents );
            bots     = m.n_bots;
        }
    }, o.model_settings );
    TempDir d( c, "run dir" );
    spit( d / "my conf.toml", toml_of( o ).str() );
    sfs::create_directories( d / "cwd" );
    auto given = give_files( s, sc, d );
    Cwd cwd( d / "cwd" );
    std::string out;
    std::vector<std::string> args{ s.flip() ? d / "my conf.toml" : "../my conf.toml" };
    if( given.net )
        args.insert( args.end(), { s.flip() ? "-n" : "--network", *given.net } );
    if( given.agents )
        args.insert( args.end(), { s.flip() ? "-a" : "--agents", *given.agents } );
    switch( s.draw( 6 ) )
    {
        case 0: // the default
            out = d / "cwd/output";
            break;
        case 1:
            out = d / "out put/deep/er";
            args.insert( args.end(), { "-o", out } );
            break;
        case 2:
            out = d / "cwd/rel";
            args.insert( args.end(), { "--output", "rel/" } );
            break;
        case 3:
            out = d / "up";
            args.insert( args.end(), { "-o", "../up" } );
            break;
        case 4: // it is there, with files in it
            out = d / "there";
            sfs::create_directories( out );
            spit( out + "/notes.txt", "keep" );
            spit( out + fmt::format( "/opinions_{}.txt", o.output_settings.start_numbering_from ), std::string( 100000, '#' ) );
            args.insert( args.end(), { "-o", out } );
            break;
        case 5: // a link to a directory elsewhere
            out = d / "disk 2";
            sfs::create_directories( out );
            sfs::create_directory_symlink( out, d / "link" );
            args.insert( args.end(), { "-o", d / "link" } );
            break;
        default:
            out = d / "cwd";
            args.insert( args.end(), { "-o", "." } );
    }
    auto before = tree( d.path );
    c.show( sc.text + toml_of( o ).str() + fmt::format( "network file {} agents file {} output {}\n", given.net.value_or( "-" ), given.agents.value_or( "-" ), out ) );
    std::string what;
    int rc = run_program( args, &what );
    PBT_CHECK( c, rc == 0, "a valid run ended with {} {}", rc, what );

    auto after  = tree( d.path );
    auto & io   = o.output_settings;
    size_t s0   = io.start_numbering_from;
    long T      = *limit_of( o );
    auto prefix = sfs::relative( out, d.path ).string() + "/";
    std::set<std::string> written;
    for( auto & [f, t] : after )
    {
        if( before.count( f ) && before[f] == t )
            continue;
        PBT_CHECK( c, f.rfind( prefix, 0 ) == 0, "the run wrote {} outside the output directory", f );
        written.insert( f.substr( prefix.size() ) );
    }
    for( auto & [f, t] : before )
        PBT_CHECK( c, after.count( f ), "the run deleted {}", f );
    // the schedule; DeGroot may stop earlier
    std::set<std::string> want, must;
    for( long i = 0; i <= T; i++ )
        for( bool net : { false, true } )
        {
            auto & n = net ? io.n_output_network : io.n_output_agents;
            bool due = i == 0 ? io.output_initial : n && size_t( i ) >= io.start_output && size_t( i ) % *n == 0;
            if( !due )
                continue;
            auto f = fmt::format( "{}_{}.txt", net ? "network" : "opinions", s0 + i );
            want.insert( f );
            if( i == 0 || sc.kind != DeGroot )
                must.insert( f );
        }
    for( auto & f : must )
        PBT_CHECK( c, after.count( prefix + f ), "{} was not written", f );
    for( auto & f : written )
        PBT_CHECK( c, want.count( f ), "{} was written, but is not on the schedule", f );

    double lo = given.lo - 1e-9, hi = given.hi + 1e-9;
    for( auto & f : written )
        if( f[0] == 'o' )
        {
            auto a = parse_agents_text( after[prefix + f], c );
            PBT_CHECK( c, a.rows.size() == given.n, "{} has {} agents, the run {}", f, a.rows.size(), given.n );
            for( size_t i = 0; i < given.n; i++ )
            {
                auto & r    = a.rows[i];
                size_t cols = sc.kind == Activity ? 3 : sc.kind == InertialKind ? 4 : sc.kind == DeffuantVector ? std::get<Seldon::Config::DeffuantSettings>( o.model_settings ).dim : 1;
                PBT_CHECK( c, r.size() == cols, "{}: agent {} has {} columns", f, i, r.size() );
                for( auto & x : r )
                    PBT_CHECK( c, std::isfinite( x ), "{}: agent {} has the value {}", f, i, x );
                if( sc.kind == DeGroot || sc.kind == DeffuantScalar )
                {
                    // initial opinions of DeGroot and Deffuant lie in [-1,1] or [0,1]; interactions are convex combinations
                    PBT_CHECK( c, r[0] >= lo && r[0] <= hi, "{}: opinion {:.17g} of agent {} outside [{}, {}]", f, r[0], i, lo, hi );
                }
                if( sc.kind == DeffuantVector )
                    for( auto & x : r )
                        PBT_CHECK( c, x == 0 || x == 1, "{}: agent {} has the entry {}", f, i, x );
                if( ( sc.kind == Activity || sc.kind == InertialKind ) && !given.agents )
                {
                    PBT_CHECK( c, r[cols - 1] > 0, "{}: agent {} has the reluctance {}", f, i, r[cols - 1] );
                    // the common activity of mean_activities: see the finding power-law-mean of P18
                    bool mean = std::visit( []( auto & m ) {
                        if constexpr( requires { m.mean_activities; } )
                            return m.mean_activities;
                        return false;
                    }, o.model_settings );
                    if( i >= bots && !mean )
                        PBT_CHECK( c, r[cols - 2] > 0 && r[cols - 2] <= 1, "{}: agent {} has the activity {}", f, i, r[cols - 2] );
                }
            }
        }
        else
        {
            auto n = parse_network_text( after[prefix + f], c );
            PBT_CHECK( c, n.nbr.size() == given.n, "{} has {} agents, the run {}", f, n.nbr.size(), given.n );
            for( size_t i = 0; i < given.n; i++ )
                for( size_t k = 0; k < n.nbr[i].size(); k++ )
                {
                    PBT_CHECK( c, n.nbr[i][k] < given.n, "{}: agent {} has the neighbour {}", f, i, n.nbr[i][k] );
                    PBT_CHECK( c, std::isfinite( n.w[i][k] ), "{}: agent {} has the weight {}", f, i, n.w[i][k] );
                }
        }
    c.nontrivial( T > 0 );
    c.label( kind_name( sc.kind ) );
    c.label( "network file", given.net.has_value() );
    c.label( "agents file", given.agents.has_value() );
    c.label( "one agent", given.n == 1 );
}

// Wrong usage ends with an error and leaves no simulation output anywhere
PBT_FACET( wrong_usage, 12000, 150000 )
{
    ScenarioGen g;
    g.max_agents = 6;
    g.max_iter   = 2;
    auto sc      = gen_scenario( s, g );
    sc.opt.output_settings.output_initial = true;
    TempDir d( c, "usage" );
    spit( d / "conf.toml", toml_of( sc.opt ).str() );
    sfs::create_directories( d / "cwd" );
    Cwd cwd( d / "cwd" );
    auto conf = d / "conf.toml";
    std::vector<std::string> args;
    std::string what;
    std::vector<std::string> o = s.flip() ? std::vector<std::string>{ "-o", d / "out" } : std::vector<std::string>{};
    switch( s.draw( 9 ) )
    {
        case 0:
            what = "no configuration";
            args = o;
            break;
        case 1:
            what = "configuration that is not there";
            args = { d / "other.toml" };
            args.insert( args.end(), o.begin(), o.end() );
            break;
        case 2:
            what = "unknown option";
            args = { conf, s.pick( std::vector<std::string>{ "--foo", "-x", "--outputs", "--agent", "--net" } ), "1" };
            break;
        case 3:
            what = "two configurations";
            args = { conf, conf };
            args.insert( args.end(), o.begin(), o.end() );
            break;
        case 4:
            what = "option without its value";
            args = { conf, s.pick( std::vector<std::string>{ "-o", "-a", "-n", "--output", "--agents", "--network" } ) };
            break;
        case 5:
            what = "network file that is not there";
            args = { conf, "-n", d / "none.txt" };
            args.insert( args.end(), o.begin(), o.end() );
            break;
        case 6:
            what = "agents file that is not there";
            args = { conf, "-a", d / "none.txt" };
            args.insert( args.end(), o.begin(), o.end() );
            break;
        case 7:
        {
            what = "network file with an index out of range";
            size_t n = s.size( 1, 5 );
            std::string t;
            for( size_t i = 0; i < n; i++ )
                t += fmt::format( "{}, 1, {}, 0.5\n", i, i + 1 < n ? i + 1 : n );
            spit( d / "n.txt", t );
            args = { conf, "-n", d / "n.txt" };
            args.insert( args.end(), o.begin(), o.end() );
            break;
        }
        case 8:
        {
            what = "agents file with other agents than the network";
            size_t n = sc.opt.network_settings.n_agents + 1 + s.draw( 2 );
            if( s.flip() )
                n = sc.opt.network_settings.n_agents - 1;
            std::vector<std::vector<double>> rows( n, std::vector<double>( 4, 0.5 ) );
            if( sc.kind == DeffuantVector )
                rows.assign( n, std::vector<double>( std::get<Seldon::Config::DeffuantSettings>( sc.opt.model_settings ).dim, 1 ) );
            spit( d / "a.txt", write_agents_text( rows ) );
            args = { conf, "-a", d / "a.txt" };
            args.insert( args.end(), o.begin(), o.end() );
            break;
        }
        default:
            what = "text instead of numbers in the agents file";
            spit( d / "a.txt", std::string( "# agents\n0, abc, 1, 1, 1\n" ) );
            sc.opt.network_settings.n_agents = 1;
            spit( conf, toml_of( sc.opt ).str() );
            args = { conf, "-a", d / "a.txt" };
            args.insert( args.end(), o.begin(), o.end() );
    }
    c.show( what + "\n" + sc.text );
    auto before = tree( d.path );
    int rc      = run_program( args );
    PBT_CHECK( c, rc != 0, "{}: the program reports success", what );
    auto after = tree( d.path );
    for( auto & [f, t] : after )
        PBT_CHECK( c, before.count( f ) && before[f] == t, "{}: the program wrote {}", what, f );
    c.nontrivial();
    c.label( what );
}

// The configurations that come with the program
PBT_FACET( examples, 60, 200 )
{
    std::vector<std::string> dirs;
    const char * repo = getenv( "VERIF_REPO_DIR" );
    for( auto & e : sfs::directory_iterator( std::string( repo ? repo : "/repo" ) + "/examples" ) )
        if( sfs::exists( e.path() / "conf.toml" ) )
            dirs.push_back( e.path().string() );
    std::sort( dirs.begin(), dirs.end() );
    PBT_CHECK( c, !dirs.empty(), "no examples" );
    auto dir = s.pick( dirs );
    c.show( dir );
    TempDir d( c, "example" );
    // with fewer agents and iterations, to keep it short
    auto text = slurp( dir + "/conf.toml" );
    std::string small;
    size_t n = s.pick( std::vector<size_t>{ 4, 9, 25, 36 } );
    for( auto & l : lines_of( text ) )
    {
        if( l.rfind( "max_iterations", 0 ) == 0 )
            small += fmt::format( "max_iterations = {}\n", s.size( 1, 12 ) );
        else if( l.rfind( "number_of_agents", 0 ) == 0 )
            small += fmt::format( "number_of_agents = {}\n", n );
        else
            small += l + "\n";
    }
    spit( d / "conf.toml", small );
    std::string what;
    int rc = run_program( { d / "conf.toml", "-o", d / "out" }, &what );
    PBT_CHECK( c, rc == 0, "the example {} ended with {} {}", dir, rc, what );
    size_t opinions = 0;
    for( auto & f : files_in( d / "out" ) )
        if( f.rfind( "opinions_", 0 ) == 0 )
        {
            opinions++;
            for( auto & r : parse_agents_text( slurp( d / ( "out/" + f ) ), c ).rows )
                for( auto & x : r )
                    PBT_CHECK( c, std::isfinite( x ), "the example {} wrote {} into {}", dir, x, f );
        }
    PBT_CHECK( c, opinions > 0, "the example {} wrote no opinions", dir );
    c.nontrivial();
    c.label( dir.substr( dir.rfind( '/' ) + 1 ) );
}
