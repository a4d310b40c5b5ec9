#pragma once
#include "scenario.hpp"

namespace H
{
// A Deffuant model over agents only: a simulation would generate all n * n edges of the full network first
struct BareDeffuant
{
    std::unique_ptr<Seldon::Network<Seldon::SimpleAgent>> net;
    std::unique_ptr<std::mt19937> gen;
    std::unique_ptr<Seldon::Model<Seldon::SimpleAgent>> model;
    BareDeffuant( uint32_t seed, size_t n, const Seldon::Config::DeffuantSettings & d )
    {
        gen = std::make_unique<std::mt19937>( seed );
        net = std::make_unique<Seldon::Network<Seldon::SimpleAgent>>( n );
        if( d.use_network )
            *net = Seldon::NetworkGeneration::generate_square_lattice<Seldon::SimpleAgent>( size_t( std::llround( std::sqrt( double( n ) ) ) ) );
        model = Seldon::ModelFactory::create_model_deffuant( *net, d, *gen );
        model->initialize_iterations();
    }
};

// Large systems: half of the agents hold 1, the others 0. The opinion of an agent at 0, divided by mu = 2^-66, is how often it met
// an agent at 1
inline void large_deffuant( Src & s, Ctx & c, bool lattice, uint64_t iterations = 100 )
{
    bool big = pbt::large_max();
    size_t L = lattice ? ( big ? s.range( 20, 140 ) : s.range( 7, 20 ) ) : 0;
    size_t n = lattice ? L * L : big ? s.big( 400, pbt::large_max() ) : s.range( 40, 250 );
    Seldon::Config::DeffuantSettings d;
    d.use_network         = lattice;
    d.mu                  = 0x1p-66;
    d.homophily_threshold = 1e30;
    uint32_t seed         = s.seed32();
    size_t k              = big ? 0 : any_connections( s, n );
    std::vector<char> one( n );
    for( auto & o : one )
        o = (char)s.draw( 1 );
    one[s.draw( n - 1 )] = 1;
    c.show( fmt::format( "n={} lattice={} connections={} seed={} ones={}\n", n, lattice, k, seed, fmt::join( std::vector<int>( one.begin(), one.end() ), "" ) ) );
    std::vector<double> prob( n, 0.0 );
    double cross = 0;
    size_t ones  = std::count( one.begin(), one.end(), 1 );
    for( size_t i = 0; i < n; i++ )
    {
        if( one[i] )
            continue;
        if( lattice )
        {
            size_t x = i % L, y = i / L;
            for( size_t q : { ( x + 1 ) % L + y * L, ( x + L - 1 ) % L + y * L, x + ( ( y + 1 ) % L ) * L, x + ( ( y + L - 1 ) % L ) * L } )
                prob[i] += one[q] ? 0.5 / double( n ) : 0.0;
        }
        else
            prob[i] = 2.0 * double( ones ) / ( double( n ) * double( n - 1 ) );
        cross += prob[i];
    }
    stat_check( c, "pairs of a large system", big ? ( n > 2000 && !lattice ? 25 : 100 ) : iterations * n, [&]( uint64_t N, uint64_t stream ) {
        std::optional<Seldon::Simulation<Seldon::SimpleAgent>> whole;
        std::optional<BareDeffuant> bare;
        if( big )
            bare.emplace( seed + uint32_t( 977 * stream ), n, d );
        else
        {
            whole.emplace( deffuant_options( seed + uint32_t( 977 * stream ), n, k, d ), std::nullopt, std::nullopt );
            whole->model->initialize_iterations();
        }
        auto & agents = big ? bare->net->agents : whole->network.agents;
        auto & model  = big ? *bare->model : *whole->model;
        std::vector<uint64_t> count( n, 0 );
        uint64_t total = 0;
        for( uint64_t t = 0; t < N; t++ )
        {
            for( size_t i = 0; i < n; i++ )
                agents[i].data.opinion = one[i];
            model.iteration();
            for( size_t i = 0; i < n; i++ )
                if( !one[i] )
                {
                    auto k = uint64_t( std::llround( agents[i].data.opinion / d.mu ) );
                    count[i] += k;
                    total += k;
                }
        }
        double trials = double( N ) * double( n );
        std::vector<double> ps{ two_sided_z( ( double( total ) - trials * cross ) / std::sqrt( trials * cross * ( 1 - cross ) + 1e-9 ) ) };
        for( size_t i = 0; i < n; i++ )
            if( !one[i] )
                ps.push_back( prob[i] == 0 ? double( count[i] == 0 ) : two_sided_z( ( double( count[i] ) - trials * prob[i] ) / std::sqrt( trials * prob[i] * ( 1 - prob[i] ) ) ) );
        return bonferroni( ps );
    } );
    c.nontrivial( cross > 0 );
    c.label( lattice ? "large lattice" : "large system" );
}
} // namespace H
