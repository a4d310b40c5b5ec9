// No hidden state: what comes next depends on settings, agents, network and generator only
#include "scenario.hpp"
using namespace H;

PBT_PROPERTY( "P38", "a case is two instances of one model with different pasts, the state of one of which is put into the other, and both are continued; non-trivial: the pasts differ, at least two agents and at least one further iteration" );

namespace
{
template<typename A>
struct World
{
    Seldon::Network<A> net;
    std::mt19937 gen;
    std::unique_ptr<Seldon::Model<A>> model;
    World( const Seldon::Network<A> & n, uint32_t seed, const Scenario & sc ) : net( n ), gen( seed )
    {
        namespace F = Seldon::ModelFactory;
        auto & v    = sc.opt.model_settings;
        switch( sc.kind )
        {
            case DeGroot: model = F::create_model_degroot( net, v ); break;
            case Activity: model = F::create_model_activity_driven( net, v, gen ); break;
            case InertialKind: model = F::create_model_activity_driven_inertial( net, v, gen ); break;
            case DeffuantScalar: model = F::create_model_deffuant( net, v, gen ); break;
            default: model = F::create_model_deffuant_vector( net, v, gen );
        }
        model->initialize_iterations();
    }
};
template<typename A>
void same( Ctx & c, World<A> & a, World<A> & b, const std::string & when )
{
    auto x = agent_rows( a.net ), y = agent_rows( b.net );
    for( size_t i = 0; i < x.size(); i++ )
    {
        PBT_CHECK( c, x[i].size() == y[i].size(), "{}: agent {} has {} and {} values", when, i, x[i].size(), y[i].size() );
        for( size_t k = 0; k < x[i].size(); k++ )
            PBT_CHECK( c, same_value( x[i][k], y[i][k] ), "{}: value {} of agent {} is {:.17g}, and {:.17g} in an instance with another past but the same state", when, k, i, x[i][k], y[i][k] );
        PBT_CHECK( c, edges_of( a.net, i ) == edges_of( b.net, i ), "{}: the edges of agent {} differ from those in an instance with another past but the same state", when, i );
    }
    PBT_CHECK( c, a.gen == b.gen, "{}: the generators are in different states", when );
    PBT_CHECK( c, a.net.direction() == b.net.direction(), "{}: the networks have different directions", when );
}
template<typename A>
void shake( Src & s, Seldon::Network<A> & net )
{
    for( auto & a : net.agents )
    {
        if constexpr( std::is_same_v<A, Seldon::DiscreteVectorAgent> )
        {
            for( auto & o : a.data.opinion )
                o = int( s.draw( 1 ) );
        }
        else
            a.data.opinion = s.real( -2, 2 );
        if constexpr( std::is_same_v<A, Seldon::InertialAgent> )
            a.data.velocity = s.real( -2, 2 );
        if constexpr( requires { a.data.activity; } )
            a.data.activity = s.unit();
    }
}
} // namespace

PBT_FACET( transplant, 60000, 1200000 )
{
    ScenarioGen g;
    g.random_output = false;
    g.max_agents    = s.chance( 1, 20 ) ? 50 : 10;
    g.max_long      = 60;
    auto sc         = gen_scenario( s, g );
    set_limit( sc.opt, std::nullopt );
    dispatch( sc.kind, [&]<typename A>() {
        size_t n  = sc.opt.network_settings.n_agents;
        auto some = [&] { return make_network<A>( sc.kind == DeGroot && s.flip() ? stochastic_net( s, n, 4 ) : random_net( s, n, 4, false ) ); };
        World<A> a( some(), s.seed32(), sc ), b( some(), s.seed32(), sc );
        size_t ka = s.size( 0, 12 ), kb = s.size( 0, 12 ), T = s.size( 1, 6 ), rounds = s.size( 1, 3 );
        if( n <= 10 && s.chance( 1, 25 ) ) // long pasts and futures
        {
            kb     = n <= 5 && s.chance( 1, 6 ) ? s.range( 500, 5000 ) : s.size( 0, 300 );
            T      = s.range( 6, 100 );
            rounds = 1;
        }
        // pasts need not be natural: states may be set from outside
        bool set_a = s.chance( 1, 3 ), set_b = s.chance( 1, 3 );
        c.show( sc.text + fmt::format( "{} and {} iterations before{}{}, {} rounds of {} after\n", ka, kb, set_a ? ", first set" : "", set_b ? ", second set" : "", rounds, T ) );
        for( size_t round = 0; round < rounds; round++ )
        {
            if( set_b )
                shake( s, b.net );
            for( size_t t = 0; t < kb; t++ )
                b.model->iteration();
            if( set_a )
                shake( s, a.net );
            for( size_t t = 0; t < ka; t++ )
                a.model->iteration();
            b.net = a.net;
            b.gen = a.gen;
            for( size_t t = 0; t < T; t++ )
            {
                a.model->iteration();
                b.model->iteration();
                same( c, a, b, fmt::format( "{} iterations after the states were equal (round {})", t + 1, round + 1 ) );
                PBT_CHECK( c, a.model->finished() == b.model->finished(), "finished() is {} and {} after {} equal iterations", a.model->finished(), b.model->finished(), t + 1 );
            }
        }
        c.nontrivial( n > 1 );
    } );
    c.label( kind_name( sc.kind ) );
}
PBT_LARGE( transplant, 1500, 40, 2000 );
