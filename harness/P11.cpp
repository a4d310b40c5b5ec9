// When a simulation stops.
#include "common.hpp"
// BUILD: main
using namespace H;

PBT_PROPERTY( "P11", "a case is a model with its settings and limits, run to its end with every iteration written out; non-trivial: "
                     "at least one iteration; for DeGroot with a tolerance, convergence before the limit" );

namespace
{
template<typename AgentT>
size_t count_iterations( const Seldon::Config::SimulationOptions & opt, Ctx & c, const std::optional<std::string> & nf = std::nullopt,
                         const std::optional<std::string> & af = std::nullopt, size_t before = 0, bool again = false )
{
    TempDir d( c, "out" );
    auto o                            = opt;
    o.output_settings.n_output_agents = 1;
    o.output_settings.output_initial  = false;
    Seldon::Simulation<AgentT> sim( o, nf, af );
    for( size_t k = 0; k < before; k++ ) // the model was driven by hand
        sim.model->iteration();
    sim.run( d.path );
    size_t files = files_in( d.path ).size();
    PBT_CHECK( c, sim.model->n_iterations() == files, "{} iterations are reported, {} were written out", sim.model->n_iterations(), files );
    if( again )
    {
        TempDir d2( c, "again" );
        sim.run( d2.path );
        size_t second = files_in( d2.path ).size();
        PBT_CHECK( c, second == files && sim.model->n_iterations() == files, "the simulation ran for {} iterations, run again it ran for {}", files, second );
    }
    return files;
}
} // namespace

// max_iterations: exactly so many
PBT_FACET( limit, 6000, 100000 )
{
    size_t n = s.size( 1, 16 ), k = s.size( 0, 5 );
    int T    = pbt::large_max() ? (int)s.big( 200, pbt::large_max() ) : s.chance( 1, 20 ) ? (int)s.range( 50, 300 ) : (int)s.size( 0, 30 );
    size_t got;
    uint32_t seed = s.seed32();
    // any use of the model and the simulation before counts for nothing
    size_t before = s.chance( 1, 8 ) ? s.size( 1, 20 ) : 0;
    bool again    = s.chance( 1, 8 );
    switch( s.draw( 4 ) )
    {
        case 0:
        {
            auto o = degroot_options( seed, n, k, T, 0.0 );
            got    = count_iterations<Seldon::SimpleAgent>( o, c, {}, {}, before, again );
            c.label( "DeGroot" );
            break;
        }
        case 1:
        {
            Seldon::Config::ActivityDrivenSettings a;
            gen_activity( s, a, n );
            a.max_iterations = T;
            got              = count_iterations<Seldon::ActivityAgent>( activity_options( seed, n, k, a ), c, {}, {}, before, again );
            c.label( "ActivityDriven" );
            break;
        }
        case 2:
        {
            Seldon::Config::ActivityDrivenInertialSettings a;
            gen_activity( s, a, n );
            a.friction_coefficient = s.real( 0, 3 );
            a.max_iterations       = T;
            got                    = count_iterations<Seldon::InertialAgent>( inertial_options( seed, n, k, a ), c, {}, {}, before, again );
            c.label( "Inertial" );
            break;
        }
        default:
        {
            Seldon::Config::DeffuantSettings d;
            n                = std::max<size_t>( n, 2 );
            d.max_iterations = T;
            d.use_network    = s.flip();
            if( d.use_network )
                n = n < 9 ? 4 : 9;
            d.homophily_threshold = s.real( 0.01, 2 );
            d.mu                  = s.real( 0.01, 0.5 );
            if( s.flip() )
            {
                d.use_binary_vector = true;
                d.dim               = s.size( 1, 6 );
                got                 = count_iterations<Seldon::DiscreteVectorAgent>( deffuant_options( seed, n, k, d ), c, {}, {}, before, again );
                c.label( "DeffuantVector" );
            }
            else
            {
                got = count_iterations<Seldon::SimpleAgent>( deffuant_options( seed, n, k, d ), c, {}, {}, before, again );
                c.label( "Deffuant" );
            }
        }
    }
    c.show( fmt::format( "n={} k={} max_iterations={} iterations before={} again={}\n", n, k, T, before, again ) );
    PBT_CHECK( c, got == size_t( T ), "max_iterations = {}, but {} iterations were run", T, got );
    c.nontrivial( T > 0 );
}

PBT_LARGE( limit, 5000, 40, 2000 );

// DeGroot stops after the first iteration that changes no opinion by the tolerance or more
PBT_FACET( convergence, 10000, 250000 )
{
    size_t n = s.count( 1, 25 );
    TempDir d( c, "in" );
    RawNet r = stochastic_net( s, n, 6 );
    // lazy averaging converges; without it some networks oscillate for ever, so there is always a limit
    bool lazy = s.chance( 3, 4 );
    if( lazy )
        for( size_t i = 0; i < n; i++ )
        {
            for( auto & w : r.w[i] )
                w *= 0.5;
            r.nbr[i].push_back( i );
            r.w[i].push_back( 0.5 );
        }
    spit( d / "net", write_network_text( r.nbr, r.w ) );
    double tol = s.chance( 1, 10 ) ? 0.0 : s.logreal( 1e-8, 2.0 );
    int T      = s.chance( 1, 3 ) ? (int)s.size( 0, 15 ) : (int)s.range( 50, 400 );
    bool unlimited = lazy && tol >= 1e-8 && s.chance( 1, 4 );
    std::optional<std::string> af;
    std::vector<double> x( n );
    for( size_t i = 0; i < n; i++ )
        x[i] = double( i ) / double( n );
    if( s.flip() )
    {
        std::vector<std::vector<double>> rows;
        // all alike but for a few
        size_t few = s.chance( 1, 3 ) ? s.range( 1, 3 ) : n;
        std::set<size_t> others;
        for( size_t q = few; few < n && q-- > 0; )
            others.insert( s.draw( n - 1 ) );
        for( size_t i = 0; i < n; i++ )
        {
            x[i] = few == n || others.count( i ) ? s.real( -3, 3 ) : 0.25;
            rows.push_back( { x[i] } );
        }
        spit( d / "agents", write_agents_text( rows ) );
        af = d / "agents";
    }
    auto o = degroot_options( s.seed32(), n, 0, unlimited ? std::optional<int>{} : T, tol );
    c.show( fmt::format( "n={} tol={} max={} lazy={}\n{}", n, tol, unlimited ? std::string( "none" ) : std::to_string( T ), lazy, show_net( r ) ) );
    // reference; `lo` and `hi` bracket the stopping time when a change is within rounding of the tolerance
    size_t lo = 0, hi = 0;
    bool lo_set = false, hi_set = false;
    size_t cap  = unlimited ? 100000 : size_t( T );
    std::vector<double> y( n );
    for( size_t t = 1; t <= cap && !hi_set; t++ )
    {
        double diff = 0;
        for( size_t i = 0; i < n; i++ )
        {
            y[i] = 0;
            for( size_t q = 0; q < r.nbr[i].size(); q++ )
                y[i] += r.w[i][q] * x[r.nbr[i][q]];
            diff = std::max( diff, std::abs( x[i] - y[i] ) );
        }
        x = y;
        if( diff < tol + 1e-13 && !lo_set && tol > 0 )
        {
            lo     = t;
            lo_set = true;
        }
        if( diff < tol - 1e-13 )
        {
            hi     = t;
            hi_set = true;
        }
    }
    if( !lo_set )
        lo = cap;
    if( !hi_set )
        hi = cap;
    if( !hi_set && unlimited )
        throw pbt::Discard{};
    size_t got = count_iterations<Seldon::SimpleAgent>( o, c, d / "net", af );
    PBT_CHECK( c, got >= lo && got <= hi, "{} iterations, expected {}{}", got, lo, lo == hi ? "" : fmt::format( " to {}", hi ) );
    c.nontrivial( got > 0 && hi_set && ( unlimited || got < size_t( T ) ) );
    c.label( unlimited ? "no limit" : hi_set && got < size_t( T ) ? "converged" : "limit reached" );
}

PBT_LARGE( convergence, 3000, 40, 2000 );

// The documented default tolerance, 1e-6, applies when the configuration gives none
PBT_FACET( default_tolerance, 2000, 20000 )
{
    size_t n = s.size( 2, 20 );
    TempDir d( c, "in" );
    RawNet r = stochastic_net( s, n, 6 );
    for( size_t i = 0; i < n; i++ )
    {
        for( auto & w : r.w[i] )
            w *= 0.5;
        r.nbr[i].push_back( i );
        r.w[i].push_back( 0.5 );
    }
    spit( d / "net", write_network_text( r.nbr, r.w ) );
    double tol       = 1e-6;
    bool given       = s.chance( 1, 3 );
    std::string toml = fmt::format( "[simulation]\nmodel = \"DeGroot\"\nrng_seed = {}\n[io]\nn_output_agents = 1\noutput_initial = false\n", s.draw( 1000 ) );
    toml += "[model]\nmax_iterations = 3000\n[DeGroot]\n";
    if( given )
    {
        tol = s.logreal( 1e-8, 1e-2 );
        toml += fmt::format( "convergence = {:.17g}\n", tol ).find( '.' ) == std::string::npos ? fmt::format( "convergence = {:.17e}\n", tol )
                                                                                              : fmt::format( "convergence = {:.17g}\n", tol );
    }
    spit( d / "conf.toml", toml );
    auto opt = Seldon::Config::parse_config_file( d / "conf.toml" );
    Seldon::Config::validate_settings( opt );
    std::vector<double> x( n ), y( n );
    for( size_t i = 0; i < n; i++ )
        x[i] = double( i ) / double( n );
    size_t lo = 3000, hi = 3000;
    for( size_t t = 1; t <= 3000; t++ )
    {
        double diff = 0;
        for( size_t i = 0; i < n; i++ )
        {
            y[i] = 0;
            for( size_t q = 0; q < r.nbr[i].size(); q++ )
                y[i] += r.w[i][q] * x[r.nbr[i][q]];
            diff = std::max( diff, std::abs( x[i] - y[i] ) );
        }
        x = y;
        if( diff < tol + 1e-13 )
            lo = std::min( lo, t );
        if( diff < tol - 1e-13 )
        {
            hi = t;
            break;
        }
    }
    c.show( fmt::format( "{}{}", toml, show_net( r ) ) );
    TempDir out( c, "out" );
    Seldon::Simulation<Seldon::SimpleAgent> sim( opt, d / "net", std::nullopt );
    sim.run( out.path );
    size_t got = files_in( out.path ).size();
    PBT_CHECK( c, got >= lo && got <= hi, "{} iterations with tolerance {}, expected {}", got, given ? fmt::format( "{}", tol ) : std::string( "not given" ), hi );
    c.nontrivial( hi < 3000 && hi > 1 );
    c.label( given ? "tolerance given" : "default" );
}

// Without a limit, the other models go on: they are never finished by themselves
PBT_FACET( no_limit, 1500, 20000 )
{
    size_t n      = s.size( 2, 8 );
    uint32_t seed = s.seed32();
    size_t steps  = s.size( 1, 60 );
    auto go       = [&]( auto & sim ) {
        sim.model->initialize_iterations();
        for( size_t t = 0; t < steps; t++ )
        {
            PBT_CHECK( c, !sim.model->finished(), "finished after {} iterations without a limit", t );
            sim.model->iteration();
        }
        PBT_CHECK( c, sim.model->n_iterations() == steps, "n_iterations() = {} after {}", sim.model->n_iterations(), steps );
        // a new start counts from zero again
        sim.model->initialize_iterations();
        PBT_CHECK( c, sim.model->n_iterations() == 0, "n_iterations() = {} after a new start", sim.model->n_iterations() );
    };
    size_t kind = s.draw( 2 );
    if( kind == 0 )
    {
        Seldon::Config::ActivityDrivenSettings a;
        gen_activity( s, a, n );
        a.max_iterations = std::nullopt;
        Seldon::Simulation<Seldon::ActivityAgent> sim( activity_options( seed, n, 2, a ), std::nullopt, std::nullopt );
        go( sim );
    }
    else if( kind == 1 )
    {
        Seldon::Config::ActivityDrivenInertialSettings a;
        gen_activity( s, a, n );
        a.max_iterations = std::nullopt;
        Seldon::Simulation<Seldon::InertialAgent> sim( inertial_options( seed, n, 2, a ), std::nullopt, std::nullopt );
        go( sim );
    }
    else
    {
        Seldon::Config::DeffuantSettings d;
        d.homophily_threshold = s.real( 0.01, 3 );
        Seldon::Simulation<Seldon::SimpleAgent> sim( deffuant_options( seed, n, 2, d ), std::nullopt, std::nullopt );
        go( sim );
    }
    c.show( fmt::format( "kind={} n={} steps={}\n", kind, n, steps ) );
    c.nontrivial();
}

// Far beyond what other facets run: counters stay exact and nothing ends a run of its own accord
PBT_FACET( long_runs, 16, 80 )
{
    uint32_t seed = s.seed32();
    bool limited  = s.flip();
    size_t limit  = s.flip() ? s.range( 65000, 70000 ) : s.range( 1000000, 1100000 );
    size_t kind   = s.draw( 2 );
    c.show( fmt::format( "kind={} limited={} iterations={}\n", kind, limited, limit ) );
    auto go = [&]( auto & sim ) {
        sim.model->initialize_iterations();
        size_t t = 0;
        while( t < limit )
        {
            if( sim.model->finished() )
                c.fail( fmt::format( "finished after {} iterations of {}", t, limit ) );
            sim.model->iteration();
            t++;
        }
        PBT_CHECK( c, sim.model->n_iterations() == limit, "n_iterations() = {} after {}", sim.model->n_iterations(), limit );
        PBT_CHECK( c, sim.model->finished() == limited, "finished() = {} after {} iterations", sim.model->finished(), limit );
    };
    std::optional<int> max;
    if( limited )
        max = int( limit );
    if( kind == 0 )
    {
        Seldon::Config::ActivityDrivenSettings a;
        gen_activity( s, a, 1 );
        a.max_iterations = max;
        Seldon::Simulation<Seldon::ActivityAgent> sim( activity_options( seed, 1, 0, a ), std::nullopt, std::nullopt );
        go( sim );
    }
    else
    {
        Seldon::Config::DeffuantSettings d;
        d.max_iterations      = max;
        d.homophily_threshold = s.real( 0.01, 3 );
        Seldon::Simulation<Seldon::SimpleAgent> sim( deffuant_options( seed, 2, 1, d ), std::nullopt, std::nullopt );
        go( sim );
    }
    c.label( limited ? "limited" : "unlimited" );
    c.nontrivial();
}
