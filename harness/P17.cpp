// Bots
#include "scenario.hpp"
// BUILD: main
using namespace H;

PBT_PROPERTY( "P17", "a case is an activity-driven model (plain or inertial) with bots, watched at every iteration, or a configuration of bots; non-trivial: at least one bot and one iteration" );

namespace
{
template<typename S>
void gen_bots( Src & s, S & a, size_t n, size_t extra )
{
    a.n_bots = s.chance( 1, 8 ) ? n : s.size( 1, n );
    a.bot_m.clear();
    a.bot_activity.clear();
    a.bot_opinion.clear();
    a.bot_homophily.clear();
    for( size_t i = 0; i < a.n_bots + extra; i++ )
    {
        a.bot_m.push_back( (int)s.size( 0, n + 1 ) );
        a.bot_activity.push_back( s.chance( 1, 3 ) ? double( s.draw( 1 ) ) : s.real( 0, 1 ) );
        a.bot_opinion.push_back( s.chance( 1, 6 ) ? s.logreal( 1e-3, 1e3 ) : s.real( -3, 3 ) );
        a.bot_homophily.push_back( s.chance( 1, 4 ) ? 0.0 : s.real( 0, 2 ) );
    }
}

template<typename M>
void watch( Src & s, Ctx & c )
{
    size_t n = s.chance( 1, 60 ) ? s.range( 30, 100 ) : s.count( 1, 15 );
    typename M::Settings a;
    size_t extra = s.draw( 2 );
    if( pbt::large_max() )
        gen_big_activity( s, a, n );
    else
        gen_activity( s, a, n );
    gen_bots( s, a, n, extra );
    if( pbt::large_max() )
        for( auto & m : a.bot_m )
            m %= a.mean_weights ? 40 : 200;
    if( s.flip() )
        a.reciprocity = 0;
    if constexpr( M::inertial )
        a.friction_coefficient = s.real( 0, 3 );
    uint32_t seed = s.seed32();
    c.show( fmt::format( "{} n={} seed={} {}", M::inertial ? "inertial" : "plain", n, seed, show_activity( a ) ) );
    auto sim = make_sim<M>( seed, n, a );
    // the same with other values beyond n_bots in the lists
    auto b = a;
    b.bot_m.resize( a.n_bots );
    b.bot_activity.resize( a.n_bots );
    b.bot_opinion.resize( a.n_bots );
    b.bot_homophily.resize( a.n_bots );
    for( size_t k = s.draw( 2 ); k-- > 0; )
    {
        b.bot_m.push_back( (int)s.size( 0, n ) );
        b.bot_activity.push_back( s.unit() );
        b.bot_opinion.push_back( s.real( -1, 1 ) );
        b.bot_homophily.push_back( s.real( 0, 2 ) );
    }
    auto twin = make_sim<M>( seed, n, b );
    for( size_t i = 0; i < a.n_bots; i++ )
        PBT_CHECK( c, same_bits( sim.network.agents[i].data.activity, a.bot_activity[i] ), "bot {} starts with activity {}, configured is {}", i, sim.network.agents[i].data.activity, a.bot_activity[i] );
    sim.model->initialize_iterations();
    twin.model->initialize_iterations();
    size_t T = pbt::large_max() ? s.range( 1, 2 ) : n <= 6 && s.chance( 1, 150 ) ? s.range( 500, 1500 ) : s.chance( 1, 60 ) ? s.range( 20, 80 ) : s.size( 1, 12 );
    std::vector<double> act( n );
    for( size_t i = 0; i < n; i++ )
        act[i] = sim.network.agents[i].data.activity;
    for( size_t t = 0; t <= T; t++ )
    {
        if( t > 0 )
        {
            sim.model->iteration();
            twin.model->iteration();
        }
        for( size_t i = 0; i < a.n_bots; i++ )
        {
            PBT_CHECK( c, same_bits( sim.network.agents[i].data.opinion, a.bot_opinion[i] ), "after {} iterations: bot {} has opinion {:.17g}, configured is {:.17g}", t, i,
                       sim.network.agents[i].data.opinion, a.bot_opinion[i] );
            PBT_CHECK( c, same_bits( sim.network.agents[i].data.activity, act[i] ), "after {} iterations: the activity of bot {} changed", t, i );
        }
        auto r1 = agent_rows( sim.network ), r2 = agent_rows( twin.network );
        for( size_t i = 0; i < n; i++ )
            for( size_t k = 0; k < r1[i].size(); k++ )
                PBT_CHECK( c, same_value( r1[i][k], r2[i][k] ), "after {} iterations: agent {} depends on entries of the bot lists beyond n_bots", t, i );
        if( t == 0 || a.mean_weights )
            continue;
        auto adj = adjacency( sim.network );
        for( size_t i = 0; i < n; i++ )
        {
            size_t out = 0, m = std::min( m_of( a, i ), n - 1 );
            for( size_t j = 0; j < n; j++ )
                out += size_t( adj[i][j] );
            if( a.reciprocity == 0.0 )
                PBT_CHECK( c, out == 0 || out == m, "iteration {}: {} {} contacted {} agents, its m is {}", t, i < a.n_bots ? "bot" : "agent", i, out, m_of( a, i ) );
            if( act[i] == 1.0 )
                PBT_CHECK( c, out >= m, "iteration {}: {} {} with activity 1 contacted {} agents, its m is {}", t, i < a.n_bots ? "bot" : "agent", i, out, m_of( a, i ) );
            if( act[i] == 0.0 && a.reciprocity == 0.0 )
                PBT_CHECK( c, out == 0, "iteration {}: {} {} with activity 0 contacted {} agents", t, i < a.n_bots ? "bot" : "agent", i, out );
        }
    }
    c.nontrivial( T > 0 );
    c.label( M::inertial ? "inertial" : "plain" );
    c.label( a.mean_weights ? "mean weights" : "probabilistic" );
    c.label( "only bots", a.n_bots == n );
    c.label( "longer lists", extra > 0 );
}

// A bot's own homophily: with a very large one (and all others 0) it contacts the nearest agent, in mean-field and probabilistically
template<typename M>
void own_homophily( Src & s, Ctx & c )
{
    size_t n = s.chance( 1, 30 ) ? s.range( 11, 80 ) : s.range( 3, 10 );
    typename M::Settings a;
    a.homophily    = 0;
    a.reciprocity  = 0;
    a.dt           = 1e-4;
    a.mean_weights = s.flip();
    a.m            = 1;
    a.n_bots       = s.range( 1, n - 1 );
    size_t picky   = s.draw( a.n_bots - 1 );
    for( size_t i = 0; i < a.n_bots; i++ )
    {
        a.bot_m.push_back( 1 );
        a.bot_activity.push_back( 1.0 );
        a.bot_opinion.push_back( double( i ) * 0.5 );
        a.bot_homophily.push_back( i == picky ? 60.0 : 0.0 );
    }
    uint32_t seed = s.seed32();
    c.show( fmt::format( "{} n={} seed={} mean={} bots={} picky={}\n", M::inertial ? "inertial" : "plain", n, seed, a.mean_weights, a.n_bots, picky ) );
    auto sim = make_sim<M>( seed, n, a );
    sim.model->initialize_iterations();
    size_t near = n - 1; // the agent just next to the picky bot
    for( size_t i = a.n_bots; i < n; i++ )
        sim.network.agents[i].data.opinion = i == near ? a.bot_opinion[picky] + 1e-3 : 20.0 + double( i );
    sim.model->iteration();
    if( a.mean_weights )
    {
        for( size_t j = 0; j < n; j++ )
        {
            double w = sim.network.get_weights( j )[picky];
            PBT_CHECK( c, close( w, j == near ? 1.0 : 0.0, 1e-9, 1e-9 ), "bot {} contacts {} with mean-field weight {}; its homophily leaves only agent {}", picky, j, w, near );
            for( size_t i = 0; i < a.n_bots; i++ )
                if( i != picky && i != j )
                    PBT_CHECK( c, close( sim.network.get_weights( j )[i], 1.0 / double( n - 1 ), 1e-9 ), "bot {} has homophily 0, its mean-field weight to {} is {}", i, j, sim.network.get_weights( j )[i] );
        }
    }
    else
    {
        auto adj = adjacency( sim.network );
        PBT_CHECK( c, adj[picky][near] == 1, "bot {} did not contact its nearest agent {}, its homophily is 60", picky, near );
    }
    c.nontrivial();
}
} // namespace

PBT_FACET( watch, 60000, 1000000 )
{
    if( s.flip() )
        watch<Inertial>( s, c );
    else
        watch<Plain>( s, c );
}
PBT_LARGE( watch, 1000, 40, 2000 );
PBT_FACET( own_homophily, 10000, 200000 )
{
    if( s.flip() )
        own_homophily<Inertial>( s, c );
    else
        own_homophily<Plain>( s, c );
}

// Lists in the configuration: left out, too short, long enough
PBT_FACET( configured, 20000, 400000 )
{
    bool inertial  = s.flip();
    std::string M  = inertial ? "ActivityDrivenInertial" : "ActivityDriven";
    size_t n_bots  = s.size( 0, 6 );
    bool give_m    = s.flip(), give_h = s.flip();
    int m          = (int)s.range( 0, 12 );
    double hom     = s.real( 0, 2 );
    std::vector<std::string> rows;
    rows.push_back( "n_bots = " + std::to_string( n_bots ) );
    if( give_m )
        rows.push_back( "m = " + std::to_string( m ) );
    if( give_h )
        rows.push_back( "homophily = " + toml_real( hom ) );
    bool refused = false;
    std::vector<std::vector<double>> want( 4 );
    const char * names[4] = { "bot_m", "bot_activity", "bot_opinion", "bot_homophily" };
    double defaults[4]    = { double( give_m ? m : 10 ), 1.0, 0.0, give_h ? hom : 0.5 };
    for( int k = 0; k < 4; k++ )
    {
        if( s.flip() ) // left out
        {
            want[k].assign( n_bots, defaults[k] );
            continue;
        }
        size_t len = s.chance( 1, 4 ) ? s.size( 0, n_bots + 2 ) : n_bots + s.draw( 1 );
        refused    = refused || len < n_bots;
        for( size_t i = 0; i < len; i++ )
            want[k].push_back( k == 0 ? double( s.draw( 9 ) ) : k == 1 ? s.real( 0, 1 ) : k == 2 ? s.real( -2, 2 ) : s.real( 0, 2 ) );
        rows.push_back( std::string( names[k] ) + " = "
                        + toml_array( want[k], [&]( double v ) { return k == 0 || ( v == std::floor( v ) && s.flip() ) ? std::to_string( (int)v ) : toml_real( v ); } ) );
    }
    // the order of the entries does not matter
    for( size_t i = rows.size(); i > 1; i-- )
        std::swap( rows[i - 1], rows[s.draw( i - 1 )] );
    std::string text = "[simulation]\nmodel = \"" + M + "\"\nrng_seed = 1\n[" + M + "]\n";
    for( auto & r : rows )
        text += r + "\n";
    c.show( text );
    TempDir d( c, "conf" );
    spit( d / "c.toml", text );
    auto o    = Seldon::Config::parse_config_file( d / "c.toml" );
    auto * a  = inertial ? &std::get<Seldon::Config::ActivityDrivenInertialSettings>( o.model_settings ) : std::get_if<Seldon::Config::ActivityDrivenSettings>( &o.model_settings );
    auto same = [&]( int k, auto & got ) {
        PBT_CHECK( c, std::equal( got.begin(), got.end(), want[k].begin(), want[k].end() ), "{} is [{}], expected [{}]", names[k], fmt::join( got, " " ), fmt::join( want[k], " " ) );
    };
    PBT_CHECK( c, a->n_bots == n_bots, "n_bots is {}, expected {}", a->n_bots, n_bots );
    same( 0, a->bot_m );
    same( 1, a->bot_activity );
    same( 2, a->bot_opinion );
    same( 3, a->bot_homophily );
    bool threw = false;
    try
    {
        Seldon::Config::validate_settings( o );
    }
    catch( const std::exception & )
    {
        threw = true;
    }
    PBT_CHECK( c, threw == refused, "the lists are {}, validation {}", refused ? "too short" : "long enough", threw ? "refused them" : "accepted them" );
    c.nontrivial( n_bots > 0 );
    c.label( refused ? "too short" : "accepted" );
}

// More bots than agents
PBT_FACET( too_many, 4000, 60000 )
{
    size_t n        = s.size( 1, 6 );
    auto try_create = [&]( auto m ) {
        using M = decltype( m );
        typename M::Settings a;
        a.mean_weights = s.flip();
        a.n_bots       = s.size( 0, 9 );
        a.bot_m.assign( a.n_bots, 1 );
        a.bot_activity.assign( a.n_bots, 0.5 );
        a.bot_opinion.assign( a.n_bots, 0.25 );
        a.bot_homophily.assign( a.n_bots, 0.5 );
        // a network file decides on the number of agents
        std::optional<std::string> nf;
        TempDir d( c, "net" );
        bool file = s.flip();
        if( file )
        {
            auto r = random_net( s, n, 3, false );
            spit( d / "n", write_network_text( r.nbr, r.w ) );
            nf = d / "n";
        }
        c.show( fmt::format( "n={} bots={} network from file: {}\n", n, a.n_bots, file ) );
        bool threw = false;
        try
        {
            Seldon::Simulation<typename M::AgentT> sim( M::options( 1, file ? s.size( 1, 12 ) : n, 1, a ), nf, std::nullopt );
        }
        catch( const std::exception & )
        {
            threw = true;
        }
        PBT_CHECK( c, threw == ( a.n_bots > n ), "{} bots, {} agents: {}", a.n_bots, n, threw ? "refused" : "accepted" );
        c.nontrivial( a.n_bots > 0 );
        c.label( a.n_bots > n ? "too many" : "fits" );
    };
    if( s.flip() )
        try_create( Inertial{} );
    else
        try_create( Plain{} );
}
