// The output schedule
#include "scenario.hpp"
using namespace H;

PBT_PROPERTY( "P02", "a case is a model with settings and an output schedule; its run is compared file by file with a twin simulation that the harness steps itself; "
                     "non-trivial: the run has at least two iterations and an interval is set" );

namespace
{
struct Expected
{
    std::map<std::string, std::vector<std::vector<double>>> agents;
    std::map<std::string, NetFile> nets;
};

template<typename AgentT>
void schedule( Src & s, Ctx & c, const Scenario & sc )
{
    auto & io = sc.opt.output_settings;
    // the twin: same model, no output at all
    auto quiet                             = sc.opt;
    quiet.output_settings.n_output_agents  = std::nullopt;
    quiet.output_settings.n_output_network = std::nullopt;
    Seldon::Simulation<AgentT> twin( quiet, std::nullopt, std::nullopt );
    Expected want;
    size_t s0 = io.start_numbering_from, i = 0;
    if( io.output_initial )
    {
        want.agents[fmt::format( "opinions_{}.txt", s0 )] = agent_rows( twin.network );
        want.nets[fmt::format( "network_{}.txt", s0 )]    = net_state( twin.network );
    }
    twin.model->initialize_iterations();
    while( !twin.model->finished() )
    {
        twin.model->iteration();
        i++;
        if( io.n_output_agents && i >= io.start_output && i % *io.n_output_agents == 0 )
            want.agents[fmt::format( "opinions_{}.txt", i + s0 )] = agent_rows( twin.network );
        if( io.n_output_network && i >= io.start_output && i % *io.n_output_network == 0 )
            want.nets[fmt::format( "network_{}.txt", i + s0 )] = net_state( twin.network );
    }

    TempDir d( c, "out" );
    std::map<std::string, std::string> stale; // files that were there before
    for( size_t k = s.draw( 3 ); k-- > 0; )
    {
        auto name   = fmt::format( "{}_{}.txt", s.flip() ? "opinions" : "network", s0 + s.draw( i + 1 ) );
        stale[name] = std::string( s.size( 0, 3000 ), 'x' );
        spit( d / name, stale[name] );
    }
    Seldon::Simulation<AgentT> sim( sc.opt, std::nullopt, std::nullopt );
    sim.run( d.path );
    PBT_CHECK( c, sim.model->n_iterations() == i, "the run had {} iterations, its twin {}", sim.model->n_iterations(), i );

    auto got = files_in( d.path );
    for( auto & [name, rows] : want.agents )
    {
        PBT_CHECK( c, got.count( name ), "{} was not written", name );
        check_agents_file<AgentT>( c, d / name, rows, name );
    }
    for( auto & [name, net] : want.nets )
    {
        PBT_CHECK( c, got.count( name ), "{} was not written", name );
        check_network_file( c, d / name, net, name );
    }
    for( auto & name : got )
        if( !want.agents.count( name ) && !want.nets.count( name ) )
        {
            PBT_CHECK( c, stale.count( name ), "{} was written, but is not on the schedule", name );
            PBT_CHECK( c, slurp( d / name ) == stale[name], "{} is not on the schedule, but was overwritten", name );
        }
    // the written run and its twin end in the same state
    auto a = agent_rows( sim.network ), b = agent_rows( twin.network );
    for( size_t k = 0; k < a.size(); k++ )
        for( size_t j = 0; j < a[k].size(); j++ )
            PBT_CHECK( c, same_value( a[k][j], b[k][j] ), "agent {} ended as {:.17g}, without output as {:.17g}", k, a[k][j], b[k][j] );
    c.nontrivial( i >= 2 && ( io.n_output_agents || io.n_output_network ) );
    c.label( kind_name( sc.kind ) );
    c.label( "no initial output", !io.output_initial );
    c.label( "later start", io.start_output > 1 );
    c.label( "numbering from elsewhere", s0 > 0 );
    c.label( "both intervals, different", io.n_output_agents && io.n_output_network && *io.n_output_agents != *io.n_output_network );
}
} // namespace

PBT_FACET( schedule, 80000, 1200000 )
{
    ScenarioGen g;
    g.max_long = 6000;
    g.max_iter = s.chance( 1, 30 ) ? 60 : 14;
    auto sc    = gen_scenario( s, g );
    c.show( sc.text );
    dispatch( sc.kind, [&]<typename A>() { schedule<A>( s, c, sc ); } );
}
PBT_LARGE( schedule, 2500, 240, 8000 );
