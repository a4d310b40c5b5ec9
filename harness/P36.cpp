// BUILD: main
// Results that cannot be written are reported
#include "scenario.hpp"
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace H;

PBT_PROPERTY( "P36", "a case is a run (program or simulation) or a writer with one injected fault: a full device, a read-only file or directory, a directory or a broken link in the place of a file, a limit on the size of files, "
                     "no free file descriptors, a missing directory; non-trivial: the fault hits a file that the undisturbed run writes" );

namespace
{
// As an unprivileged user, for whom permissions count, and who can reach the scratch tree only
struct Unprivileged
{
    bool on = geteuid() == 0;
    Unprivileged( const std::string & tree )
    {
        if( !on )
            return;
        for( auto & e : sfs::recursive_directory_iterator( tree ) )
            if( lchown( e.path().c_str(), 65534, 65534 ) )
                throw std::runtime_error( "chown" );
        if( chown( tree.c_str(), 65534, 65534 ) )
            throw std::runtime_error( "chown" );
        for( sfs::path p = sfs::path( tree ).parent_path(); p.string().find( "verif_P36" ) != std::string::npos; p = p.parent_path() )
            chmod( p.c_str(), 0711 );
        if( setegid( 65534 ) || seteuid( 65534 ) )
            throw std::runtime_error( "seteuid" );
    }
    ~Unprivileged()
    {
        if( on && ( seteuid( 0 ) || setegid( 0 ) ) )
            _exit( 99 );
    }
};
struct Limit
{
    __rlimit_resource what;
    rlimit old;
    Limit( __rlimit_resource what, rlim_t v ) : what( what )
    {
        getrlimit( what, &old );
        rlimit n{ std::min( v, old.rlim_max ), old.rlim_max };
        setrlimit( what, &n );
    }
    ~Limit()
    {
        setrlimit( what, &old );
    }
};
enum Fault
{
    None,
    FullDevice,
    ReadOnlyFile,
    Directory,
    BrokenLink,
    ReadOnlyDirectory,
    SizeLimit,
    NoDescriptors,
    MissingDirectory, // only for single writers
    n_faults
};
const char * fault_name( int f )
{
    static const char * names[] = { "none", "full device", "read-only file", "directory in its place", "broken link", "read-only directory", "size limit", "no file descriptors", "missing directory" };
    return names[f];
}
// Prepares the fault for the file `name` in `dir` (which exists)
void prepare( int f, const std::string & dir, const std::string & name )
{
    auto p = dir + "/" + name;
    switch( f )
    {
        case FullDevice:
            sfs::create_symlink( "/dev/full", p );
            break;
        case ReadOnlyFile:
            spit( p, "old\n" );
            chmod( p.c_str(), 0444 );
            break;
        case Directory:
            sfs::create_directory( p );
            break;
        case BrokenLink:
            sfs::create_symlink( "nowhere/at all", p );
            break;
        case ReadOnlyDirectory:
            chmod( dir.c_str(), 0555 );
            break;
        default:
            break;
    }
}
// Runs f under the fault; true if it reported success
template<typename F>
bool under( int fault, size_t limit, F f )
{
    std::optional<Limit> l;
    if( fault == SizeLimit )
    {
        signal( SIGXFSZ, SIG_IGN );
        l.emplace( RLIMIT_FSIZE, limit );
    }
    if( fault == NoDescriptors )
    {
        int fd = dup( 0 ); // the lowest free one
        close( fd );
        l.emplace( RLIMIT_NOFILE, rlim_t( fd ) );
    }
    return f();
}
std::map<std::string, std::string> complete( const std::string & dir )
{
    std::map<std::string, std::string> m;
    std::error_code ec;
    for( auto & e : sfs::directory_iterator( dir, ec ) )
        if( e.is_regular_file( ec ) && !e.is_symlink() )
            m[e.path().filename().string()] = slurp( e.path().string() );
    return m;
}
} // namespace

PBT_FACET( runs, 25000, 400000 )
{
    ScenarioGen g;
    g.max_agents = 12;
    g.max_iter   = 8;
    auto sc      = gen_scenario( s, g );
    TempDir d( c, "faults" );
    sfs::create_directories( d / "clean" );
    sfs::create_directories( d / "out" );
    bool program = s.flip();
    spit( d / "conf.toml", toml_of( sc.opt ).str() );
    auto run = [&]( const std::string & dir ) {
        if( program )
            return run_program( { d / "conf.toml", "-o", dir } ) == 0;
        try
        {
            dispatch( sc.kind, [&]<typename A>() {
                Seldon::Simulation<A> sim( sc.opt, std::nullopt, std::nullopt );
                sim.run( dir );
            } );
            return true;
        }
        catch( const std::exception & )
        {
            return false;
        }
    };
    // no inputs can be read without descriptors: the program fails anyway
    int fault = int( s.draw( MissingDirectory - 1 ) );
    auto expected_names = std::vector<std::string>{};
    std::map<std::string, std::string> want, got;
    std::string name;
    size_t limit = 0;
    bool ok;
    {
        Unprivileged user( d.path );
        c.check( run( d / "clean" ), "the undisturbed run failed" );
        want = complete( d / "clean" );
        for( auto & [f, t] : want )
            expected_names.push_back( f );
        // mostly a file that will be written
        if( want.empty() || s.chance( 1, 8 ) )
            name = fmt::format( "{}_{}.txt", s.flip() ? "opinions" : "network", sc.opt.output_settings.start_numbering_from + s.size( 0, 12 ) );
        else
            name = s.pick( expected_names );
        size_t largest = 0;
        for( auto & [f, t] : want )
            largest = std::max( largest, t.size() );
        limit = s.flip() && want.count( name ) ? want[name].size() - s.draw( std::min<size_t>( want[name].size(), 3 ) ) : s.draw( largest + 50 );
        prepare( fault, d / "out", name );
        ok  = under( fault, limit, [&] { return run( d / "out" ); } );
        chmod( ( d / "out" ).c_str(), 0755 );
        got = complete( d / "out" );
    }
    c.show( sc.text + fmt::format( "{}, fault: {} at {} (limit {}), files written without it: {}\n", program ? "program" : "simulation", fault_name( fault ), name, limit, fmt::join( expected_names, " " ) ) );
    bool hit = false;
    for( auto & [f, t] : want )
        hit = hit || fault == ReadOnlyDirectory || fault == NoDescriptors || ( fault == SizeLimit && t.size() > limit ) || ( fault != None && fault != SizeLimit && f == name );
    c.nontrivial( hit );
    c.label( fault_name( fault ) );
    c.label( kind_name( sc.kind ) );
    if( ok )
        for( auto & [f, t] : want )
        {
            PBT_CHECK( c, got.count( f ), "the run succeeded, but {} could not be written", f );
            PBT_CHECK( c, got[f] == t, "the run succeeded, but {} is incomplete: {} of {} bytes", f, got[f].size(), t.size() );
        }
    else
        PBT_CHECK( c, hit || fault == NoDescriptors, "the run failed although everything it writes can be written" );
}

// The writers themselves
PBT_FACET( writers, 40000, 600000 )
{
    size_t n = s.chance( 1, 40 ) ? s.range( 100, 1500 ) : s.size( 0, 12 );
    auto r   = random_net( s, n, n > 100 ? 3 : 6, true );
    int writer = int( s.draw( 2 ) ), fault = int( s.draw( n_faults - 1 ) );
    auto net = make_network<Seldon::ActivityAgent>( r );
    TempDir d( c, "faults" );
    sfs::create_directories( d / "clean" );
    sfs::create_directories( d / "out" );
    std::string file = fault == MissingDirectory ? "out/sub/x.txt" : "out/x.txt";
    auto write = [&]( const std::string & f ) {
        try
        {
            if( writer == 0 )
                Seldon::network_to_file( net, f );
            else if( writer == 1 )
                Seldon::agents_to_file( net, f );
            else
                Seldon::network_to_dot_file( net, f );
            return true;
        }
        catch( const std::exception & )
        {
            return false;
        }
    };
    bool ok;
    std::string want, got;
    size_t limit = 0;
    {
        Unprivileged user( d.path );
        c.check( write( d / "clean/x" ), "an undisturbed write failed" );
        want  = slurp( d / "clean/x" );
        limit = s.flip() ? want.size() - s.draw( std::min<size_t>( want.size(), 3 ) ) : s.draw( want.size() + 20 );
        prepare( fault, d / "out", "x.txt" );
        ok = under( fault, limit, [&] { return write( d / file ); } );
        chmod( ( d / "out" ).c_str(), 0755 );
        if( sfs::is_regular_file( sfs::symlink_status( d / file ) ) )
            got = slurp( d / file );
    }
    c.show( fmt::format( "writer {} fault: {} (limit {} of {} bytes)\n{}", writer, fault_name( fault ), limit, want.size(), show_net( r ) ) );
    bool hit = fault != None && ( fault != SizeLimit || limit < want.size() );
    c.nontrivial( hit );
    c.label( fault_name( fault ) );
    if( ok )
        PBT_CHECK( c, got == want, "the writer succeeded, but the file has {} of {} bytes", got.size(), want.size() );
    else
        PBT_CHECK( c, hit, "the writer failed although the file can be written" );
}
