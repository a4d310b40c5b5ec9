// Reproducibility of seeded runs
#define PBT_NO_MAIN
#include "scenario.hpp"
// BUILD: main plain
#include <malloc.h>
#include <spawn.h>
using namespace H;

PBT_PROPERTY( "P01", "a case is a configuration that is run twice by the program, with other runs, other memory contents and another output directory in between; "
                     "non-trivial: the run has at least one iteration and writes at least one file" );

extern char ** environ;

namespace
{
// leaves a pattern where later calls will have their locals
__attribute__( ( noinline ) ) void stain_stack( int byte )
{
    volatile char buf[96 * 1024];
    for( size_t i = 0; i < sizeof buf; i++ )
        buf[i] = char( byte );
}
void stain_heap( Src & s )
{
    std::vector<void *> p;
    for( int k = 0; k < 40; k++ )
    {
        size_t n = size_t( 8 ) << s.draw( 9 );
        void * q = std::malloc( n );
        std::memset( q, int( s.draw( 255 ) ), n );
        p.push_back( q );
    }
    for( auto q : p )
        if( s.flip() )
            std::free( q );
    for( auto q : p )
        (void)q; // the others stay, so that the layout differs
}
// the same program in a new process, with its own memory layout and contents
int run_fresh( const std::vector<std::string> & args, int perturb, const std::string & cwd )
{
    std::vector<std::string> a{ "check", "--seldon", cwd };
    a.insert( a.end(), args.begin(), args.end() );
    std::vector<char *> argv;
    for( auto & x : a )
        argv.push_back( x.data() );
    argv.push_back( nullptr );
    std::string mp = "MALLOC_PERTURB_=" + std::to_string( perturb );
    std::vector<char *> env{ mp.data() };
    for( char ** e = environ; *e; e++ )
        if( std::strncmp( *e, "MALLOC_PERTURB_", 15 ) )
            env.push_back( *e );
    env.push_back( nullptr );
    pid_t pid = 0;
    if( posix_spawn( &pid, "/proc/self/exe", nullptr, nullptr, argv.data(), env.data() ) != 0 )
        return 2000;
    int st = 0;
    waitpid( pid, &st, 0 );
    return WIFEXITED( st ) ? WEXITSTATUS( st ) : 3000 + WTERMSIG( st );
}

Scenario with_output( Src & s, const ScenarioGen & g )
{
    auto sc                                 = gen_scenario( s, g );
    if( pbt::large_max() && *limit_of( sc.opt ) > 100 )
        return sc;
    sc.opt.output_settings.n_output_agents  = 1;
    sc.opt.output_settings.n_output_network = s.chance( 3, 4 ) ? std::optional<size_t>( 1 ) : std::nullopt;
    sc.opt.output_settings.output_initial   = true;
    sc.opt.output_settings.start_output     = 1;
    if( s.chance( 1, 8 ) )
        sc.opt.rng_seed = -1 - int( s.draw( 1u << 30 ) );
    return sc;
}
std::vector<std::string> given_files( Src & s, TempDir & d, const Scenario & sc )
{
    std::vector<std::string> args;
    size_t n = sc.opt.network_settings.n_agents;
    if( n < 500 && s.chance( 1, 5 ) )
    {
        auto r = sc.kind == DeGroot ? stochastic_net( s, n, 4 ) : random_net( s, n, 4, false );
        spit( d / "n.txt", write_network_text( r.nbr, r.w ) );
        args.insert( args.end(), { "-n", d / "n.txt" } );
    }
    if( n < 500 && s.chance( 1, 5 ) )
    {
        std::vector<std::vector<double>> rows;
        size_t dim = 1;
        if( auto * q = std::get_if<Seldon::Config::DeffuantSettings>( &sc.opt.model_settings ) )
            dim = q->dim;
        for( size_t i = 0; i < n; i++ )
        {
            std::vector<double> row;
            if( sc.kind == DeffuantVector )
                for( size_t k = 0; k < dim; k++ )
                    row.push_back( double( s.draw( 1 ) ) );
            else
                row = { s.real( -1, 1 ) }; // the other columns keep their defaults
            rows.push_back( row );
        }
        spit( d / "a.txt", write_agents_text( rows ) );
        args.insert( args.end(), { "-a", d / "a.txt" } );
    }
    return args;
}
void compare( Ctx & c, const std::string & a, const std::string & b, const char * what )
{
    auto x = contents_of( a ), y = contents_of( b );
    for( auto & [f, text] : x )
    {
        PBT_CHECK( c, y.count( f ), "{}: {} is missing in the second run", what, f );
        PBT_CHECK( c, y[f] == text, "{}: {} differs between two runs with the same seed", what, f );
    }
    PBT_CHECK( c, x.size() == y.size(), "{}: {} files in one run, {} in the other", what, x.size(), y.size() );
}

void twice( Src & s, Ctx & c, bool fresh, size_t max_agents )
{
    ScenarioGen g;
    g.max_agents = max_agents;
    auto sc      = with_output( s, g );
    c.show( sc.text );
    TempDir d( c, "repro" );
    auto args = given_files( s, d, sc );
    spit( d / "conf.toml", toml_of( sc.opt ).str() );
    auto run = [&]( const std::string & out ) {
        auto a = args;
        a.insert( a.begin(), { d / "conf.toml", "-o", out } );
        return a;
    };
    std::string err;
    int rc = run_program( run( d / "one" ), &err );
    PBT_CHECK( c, rc == 0, "the run ended with {} {}", rc, err );
    if( fresh )
    {
        sfs::create_directories( d / "elsewhere" );
        rc = run_fresh( run( d / "elsewhere/two" ), int( s.draw( 255 ) ), d / "elsewhere" );
        PBT_CHECK( c, rc == 0, "the run in a new process ended with {}", rc );
        compare( c, d / "one", d / "elsewhere/two", "new process" );
    }
    else
    {
        // something else happens in between
        for( size_t k = s.draw( 2 ); k-- > 0; )
        {
            auto other = with_output( s, {} );
            spit( d / "other.toml", toml_of( other.opt ).str() );
            run_program( { d / "other.toml", "-o", d / "other" } );
        }
        stain_heap( s );
        mallopt( M_PERTURB, int( s.draw( 255 ) ) );
        stain_stack( int( s.draw( 255 ) ) );
        rc = run_program( run( d / "deep/two" ), &err );
        mallopt( M_PERTURB, 0 );
        PBT_CHECK( c, rc == 0, "the second run ended with {} {}", rc, err );
        compare( c, d / "one", d / "deep/two", "same process" );
    }
    c.nontrivial( *limit_of( sc.opt ) >= 1 );
    c.label( kind_name( sc.kind ) );
    c.label( "given files", !args.empty() );
}
} // namespace

PBT_FACET( same_process, 80000, 1500000 )
{
    twice( s, c, false, s.chance( 1, 20 ) ? 80 : 14 );
}
PBT_FACET( new_process, 12000, 200000 )
{
    twice( s, c, true, s.chance( 1, 20 ) ? 80 : 14 );
}
PBT_LARGE( new_process, 3000, 80, 3000 );
PBT_FACET( other_seed, 10000, 200000 )
{
    ScenarioGen g;
    auto sc                              = with_output( s, g );
    sc.opt.network_settings.n_agents     = 25;
    sc.opt.network_settings.n_connections = s.range( 2, 10 );
    set_limit( sc.opt, 0 );
    sc.opt.output_settings.output_initial = true;
    bool random = true;
    if( auto * q = std::get_if<Seldon::Config::DeffuantSettings>( &sc.opt.model_settings ) )
    {
        if( q->use_binary_vector )
            q->dim = std::max<size_t>( q->dim, 4 );
        else if( q->use_network )
            random = false; // a lattice with opinions i/n
    }
    std::visit( [&]( auto & m ) {
        if constexpr( requires { m.n_bots; } )
        {
            m.n_bots = 0;
            m.m      = std::max( 1, m.m );
        }
    }, sc.opt.model_settings );
    TempDir d( c, "seeds" );
    // pairs that a seeding which loses some of the seed would confuse
    if( s.chance( 1, 4 ) )
        sc.opt.rng_seed = int( s.draw( 40 ) );
    unsigned u1 = unsigned( sc.opt.rng_seed ), u2 = 0;
    switch( s.draw( 6 ) )
    {
    case 0: u2 = u1 ^ ( 1u << s.draw( 31 ) ); break;
    case 1: u2 = 0u - u1; break;
    case 2: u2 = ~u1; break;
    case 3: u2 = u1 + 1; break;
    case 4: u2 = u1 * 2; break;
    case 5: u2 = u1 << 16 | u1 >> 16; break;
    default: u2 = s.seed32();
    }
    int seed1 = int( u1 ), seed2 = int( u2 );
    if( seed1 == seed2 || !random )
        return;
    spit( d / "1.toml", toml_of( sc.opt ).str() );
    sc.opt.rng_seed = seed2;
    spit( d / "2.toml", toml_of( sc.opt ).str() );
    c.show( fmt::format( "{} seeds {} and {}\n", kind_name( sc.kind ), seed1, seed2 ) );
    int a = run_program( { d / "1.toml", "-o", d / "one" } ), b = run_program( { d / "2.toml", "-o", d / "two" } );
    PBT_CHECK( c, a == 0 && b == 0, "the runs ended with {} and {}", a, b );
    PBT_CHECK( c, contents_of( d / "one" ) != contents_of( d / "two" ), "seeds {} and {} give the same initial state", seed1, seed2 );
    // and it is the random part of the state that differs
    size_t s0   = sc.opt.output_settings.start_numbering_from;
    auto opinions = fmt::format( "opinions_{}.txt", s0 );
    if( sc.kind == Activity || sc.kind == InertialKind || sc.kind == DeffuantVector )
        PBT_CHECK( c, slurp( d / ( "one/" + opinions ) ) != slurp( d / ( "two/" + opinions ) ), "seeds {} and {} give the same initial agents", seed1, seed2 );
    c.nontrivial();
    c.label( kind_name( sc.kind ) );
}

int main( int argc, char ** argv )
{
    if( argc > 3 && std::string( argv[1] ) == "--seldon" )
    {
        if( chdir( argv[2] ) != 0 )
            return 2;
        std::vector<std::string> args( argv + 3, argv + argc );
        std::string err;
        return run_program( args, &err ) == 0 ? 0 : 5;
    }
    return pbt::main_impl( argc, argv );
}
