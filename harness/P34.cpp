// BUILD: main
// What a run may touch
#include "scenario.hpp"
#include <sys/stat.h>
#include <unistd.h>
using namespace H;

PBT_PROPERTY( "P34", "a case is a run of the program, a simulation or a writer in a directory tree full of other files, some of them with the names of files to be written, some of them its own inputs; "
                     "non-trivial: at least one file is written and at least one was there before" );

namespace
{
// The program runs as an unprivileged user who owns the scratch tree and nothing else
struct Unprivileged
{
    bool on = geteuid() == 0;
    Unprivileged( Ctx & c, const std::string & tree )
    {
        if( !on )
            return;
        for( auto & e : sfs::recursive_directory_iterator( tree ) )
            if( lchown( e.path().c_str(), 65534, 65534 ) )
                throw std::runtime_error( "chown" );
        if( chown( tree.c_str(), 65534, 65534 ) )
            throw std::runtime_error( "chown" );
        // the way to it: only directories of this check
        for( sfs::path p = sfs::path( tree ).parent_path(); p.string().find( "verif_P34" ) != std::string::npos; p = p.parent_path() )
            chmod( p.c_str(), 0711 );
        if( setegid( 65534 ) || seteuid( 65534 ) )
            throw std::runtime_error( "seteuid" );
    }
    ~Unprivileged()
    {
        if( on && ( seteuid( 0 ) || setegid( 0 ) ) )
            _exit( 99 );
    }
};
struct Cwd
{
    std::string old = sfs::current_path().string();
    Cwd( const std::string & d )
    {
        sfs::current_path( d );
    }
    ~Cwd()
    {
        sfs::current_path( old );
    }
};
// every entry below d: what kind it is and, for files, what it holds
std::map<std::string, std::string> tree( const std::string & d )
{
    std::map<std::string, std::string> m;
    for( auto & e : sfs::recursive_directory_iterator( d ) )
    {
        auto name = sfs::relative( e.path(), d ).string();
        if( e.is_symlink() )
            m[name] = "link to " + sfs::read_symlink( e.path() ).string();
        else if( e.is_directory() )
            m[name + "/"] = "";
        else
            m[name] = fmt::format( "{:o}\n", unsigned( e.status().permissions() ) ) + slurp( e.path().string() );
    }
    return m;
}
std::string content( const std::string & entry )
{
    return entry.substr( entry.find( '\n' ) + 1 );
}
// Files of all sorts: of other programs, of other runs, and with the names of the schedule
void litter( Src & s, const std::string & dir, size_t s0, size_t T, const std::vector<std::string> & names )
{
    sfs::create_directories( dir );
    for( size_t k = s.size( 0, 6 ); k-- > 0; )
    {
        std::string f;
        switch( s.draw( 7 ) )
        {
            case 0:
                f = s.pick( std::vector<std::string>{ "notes.txt", ".hidden", "opinions.txt", "network.txt", "opinions_.txt", "opinions_1.txt.bak", "outputs", "a b.txt", "network_x.txt", "conf.toml", "seldon.log", "tmp", "opinions_0.csv" } );
                break;
            case 1:
                f = fmt::format( "opinions_{}.txt", s0 + s.size( 0, T + 20 ) );
                break;
            case 2:
                f = fmt::format( "network_{}.txt", s0 + s.size( 0, T + 20 ) );
                break;
            case 3:
                f = fmt::format( "{}_{}.txt", s.flip() ? "network" : "opinions", s.size( 0, 5000 ) );
                break;
            case 4:
                f = fmt::format( "sub/{}_{}.txt", s.flip() ? "network" : "opinions", s0 + s.size( 0, T + 2 ) );
                break;
            default:
                if( !names.empty() )
                    f = s.pick( names );
        }
        if( f.empty() )
            continue;
        auto p = sfs::path( dir ) / f;
        sfs::create_directories( p.parent_path() );
        if( sfs::is_directory( p ) )
            continue;
        std::string text;
        switch( s.draw( 3 ) )
        {
            case 0:
                break;
            case 1:
                text = "some text without an end";
                break;
            case 2:
                text = std::string( 100 + s.draw( 5000 ), s.flip() ? '9' : '\n' );
                break;
            default:
                for( size_t i = s.size( 0, 30 ); i-- > 0; )
                    text += fmt::format( "{}, {}, 0\n", i, i );
        }
        spit( p.string(), text );
        if( s.chance( 1, 6 ) )
            chmod( p.c_str(), 0600 );
    }
}
std::vector<std::vector<double>> agent_rows( Src & s, int kind, size_t n, size_t dim )
{
    std::vector<std::vector<double>> rows;
    for( size_t i = 0; i < n; i++ )
    {
        std::vector<double> row;
        if( kind == DeffuantVector )
            for( size_t k = 0; k < dim; k++ )
                row.push_back( double( s.draw( 1 ) ) );
        else
            row = { s.real( -1, 1 ) };
        rows.push_back( row );
    }
    return rows;
}
size_t dim_of( const Scenario & sc )
{
    auto * q = std::get_if<Seldon::Config::DeffuantSettings>( &sc.opt.model_settings );
    return q ? q->dim : 1;
}
// names of the schedule; DeGroot may stop earlier
std::vector<std::string> schedule( const Scenario & sc )
{
    auto & io = sc.opt.output_settings;
    std::vector<std::string> v;
    for( long i = 0; i <= *limit_of( sc.opt ); i++ )
        for( bool net : { false, true } )
        {
            auto & n = net ? io.n_output_network : io.n_output_agents;
            if( i == 0 ? io.output_initial : n && size_t( i ) >= io.start_output && size_t( i ) % *n == 0 )
                v.push_back( fmt::format( "{}_{}.txt", net ? "network" : "opinions", io.start_numbering_from + i ) );
        }
    return v;
}
// before and after may differ in the files of the schedule below `out` only; returns those that are there afterwards
std::set<std::string> judge( Ctx & c, std::map<std::string, std::string> before, std::map<std::string, std::string> after, const std::string & out, const std::vector<std::string> & names )
{
    std::set<std::string> mine, there;
    for( auto & f : names )
        mine.insert( out + "/" + f );
    for( auto & [f, t] : before )
    {
        PBT_CHECK( c, after.count( f ), "the run removed {}", f );
        if( !mine.count( f ) )
            PBT_CHECK( c, after[f] == t, "the run changed {}, which it has nothing to do with", f );
    }
    for( auto & [f, t] : after )
    {
        if( mine.count( f ) )
            there.insert( f.substr( out.size() + 1 ) );
        else if( !before.count( f ) )
            PBT_CHECK( c, ( f.back() == '/' && ( out + "/" ).rfind( f, 0 ) == 0 ), "the run left {} behind", f );
    }
    return there;
}
} // namespace

// The program
PBT_FACET( program, 12000, 250000 )
{
    ScenarioGen g;
    g.max_agents = 9;
    g.max_iter   = 8;
    auto sc      = gen_scenario( s, g );
    auto & io    = sc.opt.output_settings;
    size_t n     = sc.opt.network_settings.n_agents;
    auto names   = schedule( sc );
    size_t T     = *limit_of( sc.opt );
    TempDir d( c, "files" );
    for( auto dir : { "/cwd", "/elsewhere", "/clean" } )
        sfs::create_directories( d.path + dir );
    // where the output goes
    std::string out, arg;
    switch( s.draw( 4 ) )
    {
        case 0:
            out = "cwd/output";
            break;
        case 1:
            out = "elsewhere/results", arg = d / "elsewhere/results";
            break;
        case 2:
            out = "elsewhere/deep/in it", arg = "../elsewhere/deep/in it/";
            break;
        case 3:
            out = "elsewhere", arg = "../elsewhere";
            break;
        default:
            out = "cwd", arg = ".";
    }
    bool there_before = s.chance( 3, 4 );
    if( there_before )
        litter( s, d / out, io.start_numbering_from, T, names );
    litter( s, d / "cwd", io.start_numbering_from, T, names );
    litter( s, d / "elsewhere", io.start_numbering_from, T, names );
    // the inputs, which may lie in the output directory and even have the name of a file to be written
    std::string conf_dir = there_before && s.flip() ? out : "cwd";
    spit( d / ( conf_dir + "/my.toml" ), toml_of( sc.opt ).str() );
    std::vector<std::string> args{ d / ( conf_dir + "/my.toml" ) };
    std::string clean_n, clean_a;
    auto input = [&]( const char * option, const std::string & text, const char * stem ) {
        std::string f = "cwd/" + std::string( stem ) + "_in.txt";
        if( there_before && s.flip() )
            f = out + "/" + ( s.flip() && !names.empty() ? s.pick( names ) : fmt::format( "{}_{}.txt", stem, io.start_numbering_from ) );
        if( sfs::exists( d / f ) && slurp( d / f ).find( "#given" ) == 0 )
            f = "cwd/" + std::string( stem ) + "_in.txt"; // the other input
        spit( d / f, "#given\n" + text );
        args.insert( args.end(), { option, d / f } );
        spit( d / ( "clean/" + std::string( stem ) ), text );
    };
    std::vector<std::string> clean_args{ d / "clean/my.toml" };
    spit( d / "clean/my.toml", toml_of( sc.opt ).str() );
    if( s.chance( 1, 3 ) )
    {
        auto r = sc.kind == DeGroot ? stochastic_net( s, n, 4 ) : random_net( s, n, 4, false );
        input( "-n", write_network_text( r.nbr, r.w ), "network" );
        clean_args.insert( clean_args.end(), { "-n", d / "clean/network" } );
    }
    if( s.chance( 1, 3 ) )
    {
        input( "-a", write_agents_text( agent_rows( s, sc.kind, n, dim_of( sc ) ) ), "opinions" );
        clean_args.insert( clean_args.end(), { "-a", d / "clean/opinions" } );
    }
    if( !arg.empty() )
        args.insert( args.end(), { "-o", arg } );
    clean_args.insert( clean_args.end(), { "-o", d / "clean/out" } );
    // sometimes the run is refused: then nothing at all may change
    bool broken = s.chance( 1, 8 );
    if( broken )
        spit( args[0], s.flip() ? toml_of( sc.opt ).str() + "\n[model\n" : "[simulation]\nmodel = \"DeGroot\"\n[DeGroot]\nconvergence = -1.0\n" );
    c.show( sc.text + fmt::format( "output in {} ({}), {} files of the schedule{}, arguments {}\n", out, there_before ? "there before" : "new", names.size(), broken ? ", configuration refused" : "", fmt::join( args, " " ) ) );

    std::map<std::string, std::string> before, after, clean;
    {
        Unprivileged user( c, d.path );
        Cwd cwd( d / "cwd" );
        std::string what;
        int rc = run_program( clean_args, &what );
        PBT_CHECK( c, rc == 0, "the run into a new directory ended with {} {}", rc, what );
        before = tree( d.path );
        for( auto & [f, t] : before )
            if( f.rfind( "clean/out/", 0 ) == 0 && f.back() != '/' )
                clean[f.substr( 10 )] = t;
        rc = run_program( args, &what );
        PBT_CHECK( c, ( rc == 0 ) == !broken, "the run ended with {} {}", rc, what );
        after = tree( d.path );
    }
    auto there = judge( c, before, after, out, broken ? std::vector<std::string>{} : names );
    if( !broken )
        for( auto & [f, t] : clean )
        {
            PBT_CHECK( c, there.count( f ), "{} was written into a new directory, but not into this one", f );
            PBT_CHECK( c, content( after[out + "/" + f] ) == content( t ), "{} depends on what was in the output directory", f );
        }
    c.nontrivial( broken || ( !clean.empty() && there_before ) );
    c.label( kind_name( sc.kind ) );
    c.label( "refused", broken );
    size_t replaced = 0;
    for( auto & [f, t] : clean )
        replaced += before.count( out + "/" + f );
    c.label( "files replaced", replaced > 0 );
    c.label( "an input in the output directory", args.size() > 2 && args[2].find( d / out + "/" ) == 0 );
}

// A simulation in a program, and the writers themselves
PBT_FACET( library, 15000, 300000 )
{
    ScenarioGen g;
    g.max_agents = 9;
    g.max_iter   = 6;
    auto sc      = gen_scenario( s, g );
    auto & io    = sc.opt.output_settings;
    auto names   = schedule( sc );
    TempDir d( c, "files" );
    for( auto dir : { "/cwd", "/clean" } )
        sfs::create_directories( d.path + dir );
    std::string out = s.flip() ? "cwd/out" : "cwd";
    litter( s, d / "cwd", io.start_numbering_from, *limit_of( sc.opt ), names );
    litter( s, d / out, io.start_numbering_from, *limit_of( sc.opt ), names );
    std::string single = s.flip() ? "net.dot" : "sub/a file";
    sfs::create_directories( d / "cwd/sub" );
    if( s.flip() )
        spit( d / ( "cwd/" + single ), std::string( s.draw( 20000 ), 'x' ) );
    bool whole = s.flip();
    int writer = int( s.draw( 2 ) );
    c.show( sc.text + fmt::format( "{}\n", whole ? "a run of a simulation" : fmt::format( "writer {}", writer ) ) );
    bool existed = whole ? sfs::exists( d / out ) : sfs::exists( d / ( "cwd/" + single ) );
    dispatch( sc.kind, [&]<typename A>() {
        std::map<std::string, std::string> before, after;
        Unprivileged user( c, d.path );
        Cwd cwd( d / "cwd" );
        Seldon::Simulation<A> sim( sc.opt, std::nullopt, std::nullopt ), twin( sc.opt, std::nullopt, std::nullopt );
        auto write = [&]( const std::string & f ) {
            if( writer == 0 )
                Seldon::network_to_file( sim.network, f );
            else if( writer == 1 )
                Seldon::agents_to_file( sim.network, f );
            else
                Seldon::network_to_dot_file( sim.network, f );
        };
        if( whole )
            twin.run( d / "clean" );
        else
            write( d / "clean/x" );
        before = tree( d.path );
        if( whole )
            sim.run( s.flip() ? d / out : out == "cwd" ? "." : "out" );
        else
            write( s.flip() ? single : d / ( "cwd/" + single ) );
        after = tree( d.path );
        auto there = whole ? judge( c, before, after, out, names ) : judge( c, before, after, "cwd", { single } );
        for( auto & [f, t] : before )
            if( f.rfind( "clean/", 0 ) == 0 && f.size() > 6 )
            {
                auto name = whole ? out + "/" + f.substr( 6 ) : "cwd/" + single;
                PBT_CHECK( c, after.count( name ), "{} was not written", name );
                PBT_CHECK( c, content( after[name] ) == content( t ), "{} depends on what was there before", name );
            }
    } );
    c.nontrivial( existed );
    c.label( whole ? "simulation" : "writer" );
    c.label( kind_name( sc.kind ) );
}
