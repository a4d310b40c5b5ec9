// BUILD: tsan
// Several simulations in one process
#include "scenario.hpp"
#include <atomic>
#include <functional>
#include <thread>
using namespace H;

#if defined( __SANITIZE_THREAD__ ) || ( defined( __has_feature ) && __has_feature( thread_sanitizer ) )
extern "C" const char * __tsan_default_options()
{
    return "halt_on_error=1:abort_on_error=0:exitcode=66:report_signal_unsafe=0";
}
#endif

PBT_PROPERTY( "P35", "a case is two to five simulations of any models in one process, stepped in a random interleaving with some created and destroyed on the way, or each in a thread of its own; "
                     "non-trivial: at least two of them make at least two iterations" );

namespace
{
using State = std::vector<double>;
struct Sim
{
    std::function<void()> step;
    std::function<State()> state;
    std::function<bool()> finished;
};
template<typename A>
Sim make( const Seldon::Config::SimulationOptions & o )
{
    auto sim = std::make_shared<Seldon::Simulation<A>>( o, std::nullopt, std::nullopt );
    sim->model->initialize_iterations();
    return { [sim] { sim->model->iteration(); },
             [sim] {
                 State v;
                 auto & net = sim->network;
                 for( size_t i = 0; i < net.n_agents(); i++ )
                 {
                     for( auto x : agent_row( net.agents[i] ) )
                         v.push_back( x );
                     for( auto j : net.get_neighbours( i ) )
                         v.push_back( double( j ) );
                     for( auto w : net.get_weights( i ) )
                         v.push_back( w );
                     v.push_back( -7 );
                 }
                 v.push_back( double( sim->model->n_iterations() ) );
                 return v;
             },
             [sim] { return sim->model->finished(); } };
}
Sim create( const Scenario & sc )
{
    Sim r;
    dispatch( sc.kind, [&]<typename A>() { r = make<A>( sc.opt ); } );
    return r;
}
bool equal( const State & a, const State & b )
{
    return a.size() == b.size() && std::equal( a.begin(), a.end(), b.begin(), []( double x, double y ) { return same_bits( x, y ) || ( std::isnan( x ) && std::isnan( y ) ); } );
}
struct Case
{
    std::vector<Scenario> sc;
    std::vector<size_t> T;
    std::vector<std::vector<State>> alone; // after the start and after every iteration
    std::vector<std::vector<char>> finished;
};
Case gen_case( Src & s, Ctx & c, size_t max_agents, size_t max_iter )
{
    Case k;
    ScenarioGen g;
    g.max_agents    = max_agents;
    g.max_iter      = std::min<size_t>( max_iter, 9 );
    g.random_output = false;
    size_t n        = s.size( 2, 5 );
    std::string text;
    for( size_t i = 0; i < n; i++ )
    {
        // often two alike, or alike but for the seed
        if( i > 0 && s.chance( 1, 3 ) )
        {
            k.sc.push_back( k.sc[s.draw( i - 1 )] );
            if( s.flip() )
                k.sc.back().opt.rng_seed = s.seed32();
            text += "(again) ";
        }
        else
            k.sc.push_back( gen_scenario( s, g ) );
        k.T.push_back( s.size( 0, max_iter ) );
        set_limit( k.sc.back().opt, int( k.T.back() ) );
        text += fmt::format( "seed {} T={} {}", k.sc.back().opt.rng_seed, k.T.back(), k.sc.back().text );
    }
    c.show( text );
    for( size_t i = 0; i < n; i++ )
    {
        auto sim = create( k.sc[i] );
        k.alone.emplace_back();
        k.finished.emplace_back();
        for( size_t t = 0; t <= k.T[i]; t++ )
        {
            if( t )
                sim.step();
            k.alone.back().push_back( sim.state() );
            k.finished.back().push_back( sim.finished() );
        }
    }
    size_t busy = 0;
    for( auto t : k.T )
        busy += t >= 2;
    c.nontrivial( busy >= 2 );
    for( auto & sc : k.sc )
        c.label( kind_name( sc.kind ) );
    return k;
}
} // namespace

PBT_FACET( interleaved, 40000, 800000 )
{
    auto k   = gen_case( s, c, 12, 9 );
    size_t n = k.sc.size();
    std::vector<std::optional<Sim>> sim( n );
    std::vector<size_t> t( n, 0 );
    std::string history;
    size_t left = 0;
    for( auto x : k.T )
        left += x + 1;
    size_t burst = s.chance( 1, 3 ) ? 3 : 1;
    for( size_t guard = 0; left > 0 && guard < 300; guard++ )
    {
        size_t i = s.draw( n - 1 );
        for( size_t b = s.size( 1, burst ); b-- > 0; )
        {
            if( !sim[i] )
            {
                if( t[i] > k.T[i] )
                    break;
                sim[i] = create( k.sc[i] );
                t[i]   = 0;
                history += fmt::format( " create {}", i );
            }
            else if( t[i] < k.T[i] )
            {
                sim[i]->step();
                t[i]++;
                history += fmt::format( " step {}", i );
            }
            else
                break;
            left -= left > 0;
            PBT_CHECK( c, equal( sim[i]->state(), k.alone[i][t[i]] ), "simulation {} ({}) after {} iterations is not what it is alone; history:{}", i, kind_name( k.sc[i].kind ), t[i], history );
            PBT_CHECK( c, sim[i]->finished() == bool( k.finished[i][t[i]] ), "simulation {} after {} iterations: finished is not what it is alone; history:{}", i, t[i], history );
        }
        // one goes away, and perhaps starts anew
        if( s.chance( 1, 12 ) )
        {
            size_t j = s.draw( n - 1 );
            if( sim[j] )
            {
                sim[j].reset();
                history += fmt::format( " destroy {}", j );
                left += t[j] + 1;
                t[j] = 0;
            }
        }
    }
    // nothing happened to the others meanwhile
    for( size_t i = 0; i < n; i++ )
        if( sim[i] )
            PBT_CHECK( c, equal( sim[i]->state(), k.alone[i][t[i]] ), "simulation {} ({}) changed while others were stepped; history:{}", i, kind_name( k.sc[i].kind ), history );
}

// Races: the thread sanitizer watches
PBT_FACET( threads, 2500, 50000 )
{
    auto k   = gen_case( s, c, 25, 25 );
    size_t n = k.sc.size();
    std::vector<std::vector<State>> got( n );
    std::atomic<size_t> ready{ 0 };
    std::vector<std::thread> threads;
    for( size_t i = 0; i < n; i++ )
        threads.emplace_back( [&, i] {
            ready++;
            while( ready < n )
                ;
            auto sim = create( k.sc[i] );
            for( size_t t = 0; t <= k.T[i]; t++ )
            {
                if( t )
                    sim.step();
                got[i].push_back( sim.state() );
            }
        } );
    for( auto & t : threads )
        t.join();
    for( size_t i = 0; i < n; i++ )
        for( size_t t = 0; t <= k.T[i]; t++ )
            PBT_CHECK( c, equal( got[i][t], k.alone[i][t] ), "simulation {} ({}) in its thread after {} iterations is not what it is alone", i, kind_name( k.sc[i].kind ), t );
}

// Whole runs, each in a thread of its own: configuration read from a file, network and agents read from files, results written
PBT_FACET( runs, 1500, 30000 )
{
    ScenarioGen g;
    g.max_agents = 12;
    g.max_iter   = 6;
    size_t n     = s.size( 2, 5 );
    TempDir d( c, "runs" );
    std::vector<Scenario> sc;
    std::vector<std::optional<std::string>> nf( n ), af( n );
    for( size_t i = 0; i < n; i++ )
    {
        if( i > 0 && s.chance( 1, 3 ) )
            sc.push_back( sc[s.draw( i - 1 )] );
        else
            sc.push_back( gen_scenario( s, g ) );
        auto & o                        = sc.back().opt;
        o.output_settings.n_output_agents  = 1;
        o.output_settings.n_output_network = 1;
        spit( d / fmt::format( "conf{}.toml", i ), toml_of( o ).str() );
        c.show( sc.back().text );
        size_t agents = o.network_settings.n_agents;
        bool lattice  = false;
        size_t dim    = 1;
        if( auto * q = std::get_if<Seldon::Config::DeffuantSettings>( &o.model_settings ) )
            lattice = q->use_network, dim = q->dim;
        if( !lattice && s.flip() )
        {
            auto r = sc.back().kind == DeGroot ? stochastic_net( s, agents, 4 ) : random_net( s, agents, 4, false );
            nf[i]  = d / fmt::format( "net{}", i );
            spit( *nf[i], write_network_text( r.nbr, r.w ) );
        }
        if( s.flip() )
        {
            std::vector<std::vector<double>> rows;
            for( size_t k = 0; k < agents; k++ )
            {
                std::vector<double> row;
                if( sc.back().kind == DeffuantVector )
                    for( size_t b = 0; b < dim; b++ )
                        row.push_back( double( s.draw( 1 ) ) );
                else
                    row = { s.real( -1, 1 ) };
                rows.push_back( row );
            }
            af[i] = d / fmt::format( "ag{}", i );
            spit( *af[i], write_agents_text( rows ) );
        }
    }
    auto go = [&]( size_t i, const std::string & out ) {
        auto o = Seldon::Config::parse_config_file( d / fmt::format( "conf{}.toml", i ) );
        Seldon::Config::validate_settings( o );
        dispatch( sc[i].kind, [&]<typename A>() {
            Seldon::Simulation<A> sim( o, nf[i], af[i] );
            sim.run( out );
            Seldon::network_to_dot_file( sim.network, out + "/net.dot" );
            // and what was written is read again
            auto back = Seldon::NetworkGeneration::generate_from_file<A>( out + fmt::format( "/network_{}.txt", o.output_settings.start_numbering_from + sim.model->n_iterations() ) );
            Seldon::network_to_file( back, out + "/net.again" );
            auto agents = Seldon::agents_from_file<A>( out + fmt::format( "/opinions_{}.txt", o.output_settings.start_numbering_from + sim.model->n_iterations() ) );
            spit( out + "/agents.again", std::to_string( agents.size() ) );
            for( auto & a : agents )
                for( double v : agent_row( a ) )
                    std::ofstream( out + "/agents.again", std::ios::app ) << std::setprecision( 17 ) << v << "\n";
        } );
    };
    for( size_t i = 0; i < n; i++ )
    {
        // the last state is on the schedule
        auto & io                 = sc[i].opt.output_settings;
        io.start_output           = 1;
        io.output_initial         = true;
        io.print_progress         = false;
        spit( d / fmt::format( "conf{}.toml", i ), toml_of( sc[i].opt ).str() );
        sfs::create_directories( d / fmt::format( "alone{}", i ) );
        sfs::create_directories( d / fmt::format( "thread{}", i ) );
        go( i, d / fmt::format( "alone{}", i ) );
    }
    std::atomic<size_t> ready{ 0 };
    std::vector<std::thread> threads;
    std::vector<std::string> err( n );
    for( size_t i = 0; i < n; i++ )
        threads.emplace_back( [&, i] {
            ready++;
            while( ready < n )
                ;
            try
            {
                go( i, d / fmt::format( "thread{}", i ) );
            }
            catch( const std::exception & e )
            {
                err[i] = e.what();
            }
        } );
    for( auto & t : threads )
        t.join();
    for( size_t i = 0; i < n; i++ )
    {
        PBT_CHECK( c, err[i].empty(), "run {} ({}) in its thread ended with: {}", i, kind_name( sc[i].kind ), err[i] );
        auto a = contents_of( d / fmt::format( "alone{}", i ) ), b = contents_of( d / fmt::format( "thread{}", i ) );
        PBT_CHECK( c, a.size() == b.size(), "run {} ({}) writes {} files alone, {} in a thread next to others", i, kind_name( sc[i].kind ), a.size(), b.size() );
        for( auto & [f, text] : a )
            PBT_CHECK( c, b.count( f ) && b[f] == text, "run {} ({}) in a thread next to others: {} is not what it is alone", i, kind_name( sc[i].kind ), f );
        c.label( kind_name( sc[i].kind ) );
    }
    c.nontrivial( n >= 2 );
}
