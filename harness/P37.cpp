// BUILD: plain
// Resources: memory and file descriptors
#include "scenario.hpp"
#include <atomic>
#include <dirent.h>
#include <malloc.h>
#include <new>
#include <sys/resource.h>
using namespace H;

PBT_PROPERTY( "P37", "a case is a model stepped thousands of times, a simulation run for long, or something done over and over (construct, run, read, write, parse, fail), with every allocation of the process counted; "
                     "non-trivial: at least two agents, or anything done over and over" );

namespace
{
std::atomic<long> live{ 0 }, peak{ 0 };
void * grab( size_t n, size_t align = 0 )
{
    void * p = align ? aligned_alloc( align, ( n + align - 1 ) / align * align ) : malloc( n ? n : 1 );
    if( !p )
        throw std::bad_alloc();
    long now = live += long( malloc_usable_size( p ) );
    if( now > peak )
        peak = now;
    return p;
}
void drop( void * p )
{
    if( p )
        live -= long( malloc_usable_size( p ) );
    free( p );
}
} // namespace
void * operator new( size_t n ) { return grab( n ); }
void * operator new[]( size_t n ) { return grab( n ); }
void * operator new( size_t n, std::align_val_t a ) { return grab( n, size_t( a ) ); }
void * operator new[]( size_t n, std::align_val_t a ) { return grab( n, size_t( a ) ); }
void operator delete( void * p ) noexcept { drop( p ); }
void operator delete[]( void * p ) noexcept { drop( p ); }
void operator delete( void * p, size_t ) noexcept { drop( p ); }
void operator delete[]( void * p, size_t ) noexcept { drop( p ); }
void operator delete( void * p, std::align_val_t ) noexcept { drop( p ); }
void operator delete[]( void * p, std::align_val_t ) noexcept { drop( p ); }
void operator delete( void * p, size_t, std::align_val_t ) noexcept { drop( p ); }
void operator delete[]( void * p, size_t, std::align_val_t ) noexcept { drop( p ); }

namespace
{
// what the state itself may take, with capacities: generous, but independent of the time
long state_bound( size_t n, size_t dim )
{
    return 4096 + 1024 * long( n ) + 160 * long( n * n ) + 16 * long( n * dim );
}
size_t open_files()
{
    size_t k = 0;
    DIR * d  = opendir( "/proc/self/fd" );
    while( d && readdir( d ) )
        k++;
    if( d )
        closedir( d );
    return k;
}
size_t dim_of( const Scenario & sc )
{
    auto * q = std::get_if<Seldon::Config::DeffuantSettings>( &sc.opt.model_settings );
    return q ? q->dim : 1;
}
Scenario small( Src & s )
{
    ScenarioGen g;
    g.max_agents = 8;
    g.max_iter   = 6;
    auto sc      = gen_scenario( s, g );
    return sc;
}
} // namespace

// Stepping does not accumulate anything
PBT_FACET( steps, 1500, 25000 )
{
    auto sc = small( s );
    size_t n = sc.opt.network_settings.n_agents;
    set_limit( sc.opt, std::nullopt );
    long bound = state_bound( n, dim_of( sc ) );
    size_t N   = std::min<size_t>( size_t( bound ) / 3, 12000 );
    c.show( sc.text + fmt::format( "{} iterations, bound {} bytes\n", N, bound ) );
    c.label( kind_name( sc.kind ) );
    dispatch( sc.kind, [&]<typename A>() {
        Seldon::Simulation<A> sim( sc.opt, std::nullopt, std::nullopt );
        sim.model->initialize_iterations();
        for( int t = 0; t < 3; t++ )
            sim.model->iteration();
        long before = live;
        for( size_t t = 0; t < N; t++ )
            sim.model->iteration();
        long more = live - before;
        PBT_CHECK( c, more <= bound, "{} iterations of {} agents took {} more bytes, which are still held", N, n, more );
    } );
    c.nontrivial( n > 1 );
}

// Neither does a run, however many files it writes
PBT_FACET( runs, 500, 6000 )
{
    auto sc = small( s );
    auto & io = sc.opt.output_settings;
    size_t n  = sc.opt.network_settings.n_agents;
    int T     = int( s.range( 20, 60 ) );
    if( sc.kind == DeGroot )
        std::get<Seldon::Config::DeGrootSettings>( sc.opt.model_settings ).convergence_tol = 0;
    io.start_numbering_from = s.draw( 100 );
    long bound              = 2 * state_bound( n, dim_of( sc ) );
    c.show( sc.text + fmt::format( "{} and {} iterations\n", T, 20 * T ) );
    c.label( kind_name( sc.kind ) );
    TempDir d( c, "out" );
    long more[2];
    dispatch( sc.kind, [&]<typename A>() {
        for( int k : { 0, 1 } )
        {
            set_limit( sc.opt, k ? 20 * T : T );
            Seldon::Simulation<A> sim( sc.opt, std::nullopt, std::nullopt );
            sim.model->initialize_iterations();
            sim.model->iteration();
            long before  = live;
            peak         = live.load();
            size_t files = open_files();
            rlimit old, few;
            getrlimit( RLIMIT_NOFILE, &old );
            few = old;
            few.rlim_cur = 40; // far more than a run needs at any time
            setrlimit( RLIMIT_NOFILE, &few );
            sim.run( d.path );
            setrlimit( RLIMIT_NOFILE, &old );
            PBT_CHECK( c, open_files() == files, "{} files were open before the run and {} afterwards", files - 3, open_files() - 3 );
            PBT_CHECK( c, live - before <= bound, "after a run of {} iterations {} more bytes are held", k ? 20 * T : T, live - before );
            more[k] = peak - before;
        }
    } );
    PBT_CHECK( c, more[1] <= more[0] + bound, "a run of {} iterations took up to {} more bytes, one of {} iterations {}", T, more[0], 20 * T, more[1] );
    for( auto & f : files_in( d.path ) )
        sfs::remove( d / f );
    c.nontrivial( n > 1 );
}

// What is done over and over leaves nothing behind, also when it fails
PBT_FACET( repeated, 6000, 100000 )
{
    auto sc     = small( s );
    size_t n    = sc.opt.network_settings.n_agents;
    int what    = int( s.draw( 9 ) );
    uint64_t at = s.draw( 1000 );
    TempDir d( c, "out" );
    auto r = sc.kind == DeGroot ? stochastic_net( s, n, 4 ) : random_net( s, n, 4, false );
    std::string net_text = write_network_text( r.nbr, r.w ), agents_text, conf = toml_of( sc.opt ).str();
    dispatch( sc.kind, [&]<typename A>() {
        Seldon::Simulation<A> sim( sc.opt, std::nullopt, std::nullopt );
        agents_text = write_agents_text( agent_rows( sim.network ) );
    } );
    auto cut = [&]( std::string t ) { return t.substr( 0, t.size() * at / 1000 ) + ( at % 2 ? ",x" : "" ); };
    // (not cut anywhere: the assertions of toml++ itself do not survive "[" at the end of a line)
    auto broken = [&]( std::string t ) { return t + std::array<std::string, 6>{ "\nx = [", "\n[io]\n", "\nx = tru", "\nx = \"a", "\nx = 1\nx = 2\n", "\n[simulation]\nmodel = 3\n" }[at % 6]; };
    spit( d / "net", what == 3 ? cut( net_text ) : net_text );
    spit( d / "agents", what == 4 ? cut( agents_text ) : agents_text );
    spit( d / "conf", what == 6 ? broken( conf ) : conf );
    static const char * names[] = { "construct", "construct and run", "construct from files", "malformed network file", "malformed agents file", "configuration", "malformed configuration", "writers", "settings printed", "unwritable directory" };
    c.show( sc.text + fmt::format( "over and over: {} ({})\n", names[what], at ) );
    c.label( names[what] );
    auto once = [&] {
        try
        {
            dispatch( sc.kind, [&]<typename A>() {
                using Sim = Seldon::Simulation<A>;
                if( what == 5 || what == 6 || what == 8 )
                {
                    auto o = Seldon::Config::parse_config_file( d / "conf" );
                    Seldon::Config::validate_settings( o );
                    if( what == 8 )
                        Seldon::Config::print_settings( o );
                    return;
                }
                bool files = what >= 2 && what <= 4;
                Sim sim( sc.opt, files ? std::optional<std::string>( d / "net" ) : std::nullopt, files ? std::optional<std::string>( d / "agents" ) : std::nullopt );
                if( what == 1 )
                    sim.run( d / "results" );
                if( what == 9 )
                    sim.run( d / "net" ); // not a directory
                if( what == 7 )
                {
                    Seldon::network_to_file( sim.network, d / "n" );
                    Seldon::agents_to_file( sim.network, d / "a" );
                    Seldon::network_to_dot_file( sim.network, d / "d" );
                }
            } );
        }
        catch( const std::exception & )
        {
        }
    };
    // what is set up once and kept does not count
    once();
    once();
    long before  = live;
    size_t files = open_files();
    for( int k = 0; k < 6; k++ )
        once();
    PBT_CHECK( c, live - before <= 0, "six repetitions of '{}' leave {} bytes behind", names[what], live - before );
    PBT_CHECK( c, open_files() == files, "six repetitions of '{}' leave {} files open", names[what], long( open_files() ) - long( files ) );
    c.nontrivial();
}
