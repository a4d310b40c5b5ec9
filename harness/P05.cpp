// Resuming from written files, and files that replace generated states
#include "scenario.hpp"
// BUILD: main
using namespace H;

PBT_PROPERTY( "P05", "a case is a model, a number of iterations and a stopping point (resume), or a model with given files (given); non-trivial: the run goes on after the "
                     "stopping point, or the given files hold more than one agent" );

namespace
{
void set_output( Seldon::Config::SimulationOptions & o, size_t numbering )
{
    o.output_settings.n_output_agents      = 1;
    o.output_settings.n_output_network     = 1;
    o.output_settings.output_initial       = true;
    o.output_settings.start_output         = 1;
    o.output_settings.print_progress       = false;
    o.output_settings.start_numbering_from = numbering;
}

template<typename AgentT>
void resume( Src & s, Ctx & c, const Scenario & sc )
{
    std::optional<std::string> net0, ag0;
    TempDir d0( c, "start" ), d1( c, "whole" ), d2( c, "resumed" );
    auto o = sc.opt;
    if( sc.kind == DeGroot && s.flip() )
    {
        // a given network instead of a generated one, with several edges between the same agents
        auto r = stochastic_net( s, o.network_settings.n_agents, 5 );
        spit( d0 / "net", write_network_text( r.nbr, r.w ) );
        net0 = d0 / "net";
    }
    if( ( sc.kind == DeGroot || sc.kind == DeffuantScalar ) && s.flip() )
    {
        std::vector<std::vector<double>> rows;
        for( size_t i = 0; i < o.network_settings.n_agents; i++ )
            rows.push_back( { s.chance( 1, 6 ) ? s.logreal( 1e-12, 1e12 ) : s.real( -1, 1 ) } );
        spit( d0 / "ag", write_agents_text( rows ) );
        ag0 = d0 / "ag";
    }
    set_output( o, 0 );
    Seldon::Simulation<AgentT> whole( o, net0, ag0 );
    whole.run( d1.path );
    size_t T = whole.model->n_iterations();
    if( T < 1 )
        return;
    size_t t = s.draw( T - 1 ); // it stops after iteration t and goes on to T
    auto p   = o;
    set_output( p, t );
    int left = *limit_of( o ) - int( t );
    set_limit( p, left );
    if( s.flip() )
        p.rng_seed = int( s.seed32() & 0x7fffffff ); // no randomness is left
    if( s.flip() )
    {
        p.network_settings.n_agents      = s.size( 1, 20 ); // superseded by the files
        p.network_settings.n_connections = s.size( 0, 5 );
    }
    if( p.network_settings.n_agents < 2 && sc.kind == DeffuantScalar )
        p.network_settings.n_agents = 2;
    Seldon::Simulation<AgentT> again( p, d1 / fmt::format( "network_{}.txt", t ), d1 / fmt::format( "opinions_{}.txt", t ) );
    again.run( d2.path );
    PBT_CHECK( c, again.model->n_iterations() + t == T, "resumed after {} of {} iterations, the run had {} more", t, T, again.model->n_iterations() );
    for( size_t i = t; i <= T; i++ )
        for( const char * what : { "opinions", "network" } )
        {
            // the network a mean-field run starts with has no weights yet
            if( i == t && std::string( what ) == "network" && ( sc.kind == Activity || sc.kind == InertialKind ) )
                continue;
            auto f = fmt::format( "{}_{}.txt", what, i );
            PBT_CHECK( c, slurp( d1 / f ) == slurp( d2 / f ), "resumed after iteration {}: {} differs from the uninterrupted run", t, f );
        }
    c.nontrivial();
    c.label( kind_name( sc.kind ) );
    c.label( "resumed later than the start", t > 0 );
    c.label( "stopped by convergence", int( T ) < *limit_of( o ) );
}

template<typename AgentT>
void given( Src & s, Ctx & c, Scenario sc )
{
    auto & o     = sc.opt;
    bool lattice = false, mean = false;
    size_t dim = 1, bots = 0;
    if( auto * d = std::get_if<Seldon::Config::DeffuantSettings>( &o.model_settings ) )
    {
        lattice = d->use_network;
        dim     = d->dim;
    }
    std::visit( [&]( auto & m ) {
        if constexpr( requires { m.mean_weights; } )
        {
            mean = m.mean_weights;
            bots = m.n_bots;
        }
    }, o.model_settings );
    bool give_net = s.chance( 2, 3 ), give_agents = !give_net || s.chance( 2, 3 );
    size_t n = o.network_settings.n_agents;
    if( give_net && !lattice && s.flip() )
        n = std::max<size_t>( { 2, bots, s.chance( 1, 100 ) ? s.range( 60, 300 ) : s.size( 1, 18 ) } );
    RawNet r = sc.kind == DeGroot ? stochastic_net( s, n, 5 ) : random_net( s, n, 5, s.chance( 1, 4 ) );
    TempDir d( c, "given" ), out( c, "out" );
    std::optional<std::string> nf, af;
    if( give_net )
    {
        spit( d / "n.txt", write_network_text( r.nbr, r.w ) );
        nf = d / "n.txt";
        // the settings may name the file as well, and what the simulation is called with has precedence
        switch( s.draw( 5 ) )
        {
            case 0:
                o.network_settings.file = nf;
                nf                      = std::nullopt;
                break;
            case 1:
                o.network_settings.file = d / "nothing.txt";
                break;
            case 2:
                spit( d / "other.txt", write_network_text( { { 0 }, { 0, 1 }, { 1 } }, { { 1 }, { 0.5, 0.5 }, { 1 } } ) );
                o.network_settings.file = d / "other.txt";
                break;
            default:
                break;
        }
    }
    std::vector<std::vector<double>> rows;
    for( size_t i = 0; i < n; i++ )
    {
        std::vector<double> row;
        switch( sc.kind )
        {
            case Activity:
                row = { s.real( -3, 3 ), s.real( 0, 1 ), s.logreal( 0.1, 10 ) };
                break;
            case InertialKind:
                row = { s.real( -3, 3 ), s.real( -3, 3 ), s.real( 0, 1 ), s.logreal( 0.1, 10 ) };
                break;
            case DeffuantVector:
                for( size_t k = 0; k < dim; k++ )
                    row.push_back( double( s.draw( 1 ) ) );
                break;
            default:
                row = { s.chance( 1, 4 ) ? s.finite() : s.real( -1, 1 ) };
        }
        rows.push_back( row );
    }
    if( give_agents )
    {
        spit( d / "a.txt", write_agents_text( rows ) );
        af = d / "a.txt";
    }
    c.show( fmt::format( "given network of {} agents: {}, given agents: {}\n", n, give_net, give_agents ) );
    Seldon::Simulation<AgentT> sim( o, nf, af );
    PBT_CHECK( c, sim.network.n_agents() == n, "the simulation has {} agents, the files {}", sim.network.n_agents(), n );
    if( give_agents )
    {
        auto got = agent_rows( sim.network );
        for( size_t i = 0; i < n; i++ )
        {
            PBT_CHECK( c, got[i].size() == rows[i].size(), "agent {} has {} fields, the file {}", i, got[i].size(), rows[i].size() );
            for( size_t k = 0; k < rows[i].size(); k++ )
                PBT_CHECK( c, same_bits( got[i][k], rows[i][k] ), "field {} of agent {} is {:.17g}, the file says {:.17g}", k, i, got[i][k], rows[i][k] );
        }
    }
    if( give_net && !mean && !lattice )
        for( size_t i = 0; i < n; i++ )
            PBT_CHECK( c, edges_of( sim.network, i ) == sorted_edges( r.nbr[i], r.w[i] ), "the edges of agent {} are not those of the file", i );
    // and the run starts from there
    if( give_agents )
    {
        auto & io          = sim.output_settings;
        io.output_initial  = true;
        io.n_output_agents = std::nullopt;
        sim.run( out.path );
        check_agents_file<AgentT>( c, out / fmt::format( "opinions_{}.txt", io.start_numbering_from ), rows, "initial output" );
    }
    c.nontrivial( n > 1 );
    c.label( kind_name( sc.kind ) );
    c.label( give_net ? ( give_agents ? "both" : "network only" ) : "agents only" );
}
} // namespace

PBT_FACET( resume, 60000, 900000 )
{
    ScenarioGen g;
    g.kinds         = { DeGroot, Activity, InertialKind, DeffuantScalar };
    g.deterministic = true;
    g.random_output = false;
    g.max_iter      = s.chance( 1, 20 ) ? 60 : 14;
    g.max_long      = 300; // every iteration is written
    auto sc         = gen_scenario( s, g );
    c.show( sc.text );
    dispatch( sc.kind, [&]<typename A>() { resume<A>( s, c, sc ); } );
}

PBT_FACET( given, 60000, 900000 )
{
    ScenarioGen g;
    g.max_iter = 3;
    auto sc    = gen_scenario( s, g );
    c.show( sc.text );
    dispatch( sc.kind, [&]<typename A>() { given<A>( s, c, sc ); } );
}

PBT_LARGE( resume, 2500, 60, 3000 );
PBT_LARGE( given, 2500, 60, 3000 );

// The same through the program and its -n and -a options
PBT_FACET( program, 6000, 120000 )
{
    ScenarioGen g;
    g.kinds         = { DeGroot, Activity, InertialKind, DeffuantScalar };
    g.deterministic = true;
    g.random_output = false;
    auto sc         = gen_scenario( s, g );
    auto o          = sc.opt;
    set_output( o, 0 );
    int T = *limit_of( o );
    c.show( sc.text );
    TempDir d( c, "program" );
    spit( d / "a.toml", toml_of( o ).str() );
    std::string err;
    int rc = run_program( { d / "a.toml", "-o", d / "whole" }, &err );
    PBT_CHECK( c, rc == 0, "the run ended with {} {}", rc, err );
    int last = 0;
    while( sfs::exists( d / fmt::format( "whole/opinions_{}.txt", last + 1 ) ) )
        last++;
    if( last < 1 )
        return;
    int t = (int)s.draw( last - 1 );
    set_output( o, t );
    set_limit( o, T - t );
    if( s.flip() )
        o.rng_seed = int( s.seed32() & 0x7fffffff ); // no randomness is left
    if( s.flip() ) // superseded by the files
    {
        o.network_settings.n_agents      = std::max<size_t>( s.size( 1, 20 ), sc.kind == DeffuantScalar ? 2 : 1 );
        o.network_settings.n_connections = s.size( 0, 5 );
    }
    spit( d / "b.toml", toml_of( o ).str() );
    // the files where the run wrote them, or elsewhere under any name; absolute, or relative to the working directory
    struct Cwd
    {
        sfs::path old = sfs::current_path();
        ~Cwd()
        {
            sfs::current_path( old );
        }
    } cwd;
    sfs::create_directories( d / "work/sub dir" );
    sfs::current_path( d / "work" );
    auto place = [&]( const std::string & what, const std::string & file ) -> std::string {
        std::string path = d / fmt::format( "whole/{}", file );
        switch( s.draw( 4 ) )
        {
            case 0:
                return path;
            case 1:
                return "../whole/" + file;
            default:
            {
                auto name = s.pick( std::vector<std::string>{ what, what + ".txt", what + "s.txt", what + ".csv", what + "_0.txt", "sub dir/" + what + " file.txt", "." + what, what + "_-1.txt", what + "nan", "out_" + what } );
                if( s.chance( 1, 3 ) )
                    sfs::create_symlink( path, d / ( "work/" + name ) );
                else
                    sfs::copy_file( path, d / ( "work/" + name ), sfs::copy_options::overwrite_existing );
                return s.flip() ? name : s.flip() ? "./" + name : d / ( "work/" + name );
            }
        }
    };
    std::vector<std::string> nf{ s.flip() ? "-n" : "--network", place( "network", fmt::format( "network_{}.txt", t ) ) };
    std::vector<std::string> af{ s.flip() ? "-a" : "--agents", place( s.flip() ? "agents" : "opinions", fmt::format( "opinions_{}.txt", t ) ) };
    c.show( fmt::format( "resumed after {} with {} {}\n", t, nf[1], af[1] ) );
    std::vector<std::vector<std::string>> parts{ nf, af, { d / "b.toml" }, { s.flip() ? "-o" : "--output", d / "resumed" } };
    std::vector<std::string> args;
    while( !parts.empty() )
    {
        size_t k = s.draw( parts.size() - 1 );
        args.insert( args.end(), parts[k].begin(), parts[k].end() );
        parts.erase( parts.begin() + k );
    }
    rc = run_program( args, &err );
    PBT_CHECK( c, rc == 0, "the resumed run ended with {} {}", rc, err );
    auto one = contents_of( d / "whole" ), two = contents_of( d / "resumed" );
    for( int i = t; i <= last; i++ )
        for( const char * what : { "opinions", "network" } )
        {
            if( i == t && std::string( what ) == "network" && ( sc.kind == Activity || sc.kind == InertialKind ) )
                continue;
            auto f = fmt::format( "{}_{}.txt", what, i );
            PBT_CHECK( c, two.count( f ) && one[f] == two[f], "resumed after iteration {}: {} differs from the uninterrupted run", t, f );
        }
    PBT_CHECK( c, two.size() == size_t( 2 * ( last - t + 1 ) ), "the resumed run wrote {} files, expected {}", two.size(), 2 * ( last - t + 1 ) );
    c.nontrivial();
}
