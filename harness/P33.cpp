// The library: models stepped directly, from the factory, by a simulation and by the program
// BUILD: main archive
#include "scenario.hpp"
using namespace H;

PBT_PROPERTY( "P33", "a case is a model with settings that is driven in two different ways; non-trivial: at least one iteration and two agents" );

namespace
{
template<typename ModelT>
void direct( Src & s, Ctx & c, const Scenario & sc, const typename ModelT::NetworkT & net0 )
{
    using AgentT = typename ModelT::AgentT;
    using Net    = Seldon::Network<AgentT>;
    std::mt19937 gen1( s.seed32() );
    for( size_t k = s.draw( 700 ); k-- > 0; )
        gen1();
    std::mt19937 gen2 = gen1;
    Net net1 = net0, net2 = net0;
    auto & v = sc.opt.model_settings;
    std::unique_ptr<Seldon::Model<AgentT>> made;
    auto step = [&]( auto & model ) {
        auto same = [&]( const std::string & when ) {
            auto a = agent_rows( net1 ), b = agent_rows( net2 );
            PBT_CHECK( c, a.size() == b.size(), "{}: {} and {} agents", when, a.size(), b.size() );
            for( size_t i = 0; i < a.size(); i++ )
                for( size_t k = 0; k < a[i].size(); k++ )
                    PBT_CHECK( c, a[i].size() == b[i].size() && same_value( a[i][k], b[i][k] ), "{}: value {} of agent {} is {:.17g} when the model is used directly and {:.17g} from the factory", when, k, i,
                               a[i][k], b[i][k] );
            for( size_t i = 0; i < net1.n_agents(); i++ )
                PBT_CHECK( c, sorted_edges( net1.get_neighbours( i ), net1.get_weights( i ) ) == sorted_edges( net2.get_neighbours( i ), net2.get_weights( i ) ),
                           "{}: the edges of agent {} differ", when, i );
            PBT_CHECK( c, model.n_iterations() == made->n_iterations() && model.finished() == made->finished(), "{}: iterations {} and {}, finished {} and {}", when, model.n_iterations(), made->n_iterations(),
                       model.finished(), made->finished() );
        };
        same( "at the start" );
        if( s.flip() )
        {
            model.initialize_iterations();
            made->initialize_iterations();
        }
        size_t T = s.size( 0, 6 );
        for( size_t t = 0; t < T; t++ )
        {
            model.iteration();
            made->iteration();
            same( fmt::format( "after iteration {}", t + 1 ) );
        }
        PBT_CHECK( c, model.n_iterations() == T, "{} iterations, {} were made", model.n_iterations(), T );
        PBT_CHECK( c, gen1 == gen2, "the generators are in different states after {} iterations", T );
        c.nontrivial( T > 0 && net0.n_agents() > 1 );
    };
    namespace F = Seldon::ModelFactory;
    if constexpr( std::is_same_v<ModelT, Seldon::DeGrootModel> )
    {
        ModelT model( std::get<Seldon::Config::DeGrootSettings>( v ), net1 );
        made = F::create_model_degroot( net2, v );
        step( model );
    }
    else if constexpr( std::is_same_v<ModelT, Seldon::ActivityDrivenModel> )
    {
        ModelT model( std::get<Seldon::Config::ActivityDrivenSettings>( v ), net1, gen1 );
        made = F::create_model_activity_driven( net2, v, gen2 );
        step( model );
    }
    else if constexpr( std::is_same_v<ModelT, Seldon::InertialModel> )
    {
        ModelT model( std::get<Seldon::Config::ActivityDrivenInertialSettings>( v ), net1, gen1 );
        made = F::create_model_activity_driven_inertial( net2, v, gen2 );
        step( model );
    }
    else
    {
        auto d = std::get<Seldon::Config::DeffuantSettings>( v );
        ModelT model( d, net1, gen1 );
        model.initialize_agents( d.dim );
        if constexpr( std::is_same_v<ModelT, Seldon::DeffuantModel> )
            made = F::create_model_deffuant( net2, v, gen2 );
        else
            made = F::create_model_deffuant_vector( net2, v, gen2 );
        step( model );
    }
}
template<typename ModelT>
void direct_case( Src & s, Ctx & c, const Scenario & sc )
{
    using AgentT = typename ModelT::AgentT;
    size_t n     = sc.opt.network_settings.n_agents;
    auto r       = sc.kind == DeGroot ? stochastic_net( s, n, 4 ) : random_net( s, n, 4, false );
    std::vector<std::vector<size_t>> nbr = r.nbr;
    std::vector<std::vector<double>> w   = r.w;
    Seldon::Network<AgentT> net( std::move( nbr ), std::move( w ), Seldon::Network<AgentT>::EdgeDirection::Incoming );
    direct<ModelT>( s, c, sc, net );
}
} // namespace

PBT_FACET( direct, 60000, 1200000 )
{
    ScenarioGen g;
    g.max_agents = s.chance( 1, 20 ) ? 60 : 12;
    auto sc      = gen_scenario( s, g );
    c.show( sc.text );
    c.label( kind_name( sc.kind ) );
    switch( sc.kind )
    {
        case DeGroot: return direct_case<Seldon::DeGrootModel>( s, c, sc );
        case Activity: return direct_case<Seldon::ActivityDrivenModel>( s, c, sc );
        case InertialKind: return direct_case<Seldon::InertialModel>( s, c, sc );
        case DeffuantScalar: return direct_case<Seldon::DeffuantModel>( s, c, sc );
        default: return direct_case<Seldon::DeffuantModelVector>( s, c, sc );
    }
}

// The activity-driven models really move when they are stepped directly: without contacts their opinions follow the
// integrators' polynomials (so that two ways that both do nothing do not agree with each other unnoticed)
PBT_FACET( moves, 20000, 300000 )
{
    size_t n = s.size( 1, 8 );
    std::mt19937 gen( s.seed32() );
    bool inertial = s.flip();
    double h      = s.real( 0.001, 1 );
    size_t T      = s.size( 1, 4 );
    std::vector<double> x( n ), v( n, 0 );
    auto go = [&]( auto & model, auto & net, auto next ) {
        for( size_t i = 0; i < n; i++ )
            x[i] = net.agents[i].data.opinion;
        for( size_t t = 0; t < T; t++ )
        {
            model.iteration();
            for( size_t i = 0; i < n; i++ )
            {
                next( x[i], v[i] );
                PBT_CHECK( c, close( net.agents[i].data.opinion, x[i], 1e-11, 1e-13 ), "iteration {}: opinion {:.17g} without contacts, expected {:.17g}", t + 1, net.agents[i].data.opinion, x[i] );
            }
        }
    };
    auto setup = [&]( auto & a ) {
        a.m              = 0;
        a.dt             = h;
        a.max_iterations = int( T );
        a.K              = s.real( 0, 5 );
    };
    if( inertial )
    {
        Seldon::Network<Seldon::InertialAgent> net( n );
        Seldon::Config::ActivityDrivenInertialSettings a;
        setup( a );
        a.friction_coefficient = s.real( 0, 3 );
        double f               = a.friction_coefficient;
        c.show( fmt::format( "inertial n={} dt={} friction={} T={}\n", n, h, f, T ) );
        Seldon::InertialModel model( a, net, gen );
        go( model, net, [&]( double & p, double & vel ) {
            double a0 = -p - f * vel, p1 = p + vel * h + 0.5 * a0 * h * h;
            vel       = ( vel + 0.5 * h * ( -p - f * vel - p1 ) ) / ( 1 + 0.5 * f * h );
            p         = p1;
        } );
    }
    else
    {
        Seldon::Network<Seldon::ActivityAgent> net( n );
        Seldon::Config::ActivityDrivenSettings a;
        setup( a );
        c.show( fmt::format( "plain n={} dt={} T={}\n", n, h, T ) );
        Seldon::ActivityDrivenModel model( a, net, gen );
        go( model, net, [&]( double & p, double & ) { p *= 1 - h + h * h / 2 - h * h * h / 6 + h * h * h * h / 24; } );
    }
    c.label( inertial ? "inertial" : "plain" );
    c.nontrivial();
}

// A simulation from the parsed configuration, run by the library, writes what the program writes
PBT_FACET( program, 20000, 400000 )
{
    ScenarioGen g;
    auto sc = gen_scenario( s, g );
    TempDir d( c, "lib" );
    size_t n = sc.opt.network_settings.n_agents;
    std::optional<std::string> nf, af;
    std::vector<std::string> args{ d / "conf.toml", "-o", d / "one" };
    if( s.chance( 1, 4 ) )
    {
        auto r = sc.kind == DeGroot ? stochastic_net( s, n, 4 ) : random_net( s, n, 4, false );
        nf     = d / "n.txt";
        spit( *nf, write_network_text( r.nbr, r.w ) );
        args.insert( args.end(), { "-n", *nf } );
    }
    spit( d / "conf.toml", toml_of( sc.opt ).str() );
    c.show( sc.text );
    std::string err;
    int rc = run_program( args, &err );
    PBT_CHECK( c, rc == 0, "the program ended with {} {}", rc, err );
    auto opt = Seldon::Config::parse_config_file( d / "conf.toml" );
    Seldon::Config::validate_settings( opt );
    sfs::create_directories( d / "two" );
    dispatch( sc.kind, [&]<typename AgentT>() {
        Seldon::Simulation<AgentT> sim( opt, nf, af );
        sim.run( d / "two" );
        return 0;
    } );
    auto x = contents_of( d / "one" ), y = contents_of( d / "two" );
    for( auto & [f, text] : x )
    {
        PBT_CHECK( c, y.count( f ), "{} is written by the program, not by the library", f );
        PBT_CHECK( c, y[f] == text, "{} differs between the program and the library", f );
    }
    PBT_CHECK( c, x.size() == y.size(), "{} files by the program, {} by the library", x.size(), y.size() );
    c.nontrivial( n > 1 && *limit_of( sc.opt ) > 0 && !x.empty() );
    c.label( kind_name( sc.kind ) );
    c.label( "given network", nf.has_value() );
}
