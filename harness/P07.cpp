// Strongly connected components against reachability, and on large deep graphs against an independent algorithm.
#include "common.hpp"
#include <fcntl.h>
// BUILD: fuzzfacets=small,warning
#include <models/DeGroot.hpp>
#include <unistd.h>
using namespace H;
using Agent = Seldon::SimpleAgent;
using Net   = Seldon::Network<Agent>;

PBT_PROPERTY(
    "P07", "a case is a directed graph (random density, rings, chains of cycles, DAGs, complete, self loops, multi edges); "
           "non-trivial: at least two components of which one has more than one agent" );

namespace
{
using Adj = std::vector<std::vector<size_t>>;

// Kosaraju, iterative: component number of each vertex
std::vector<size_t> components( const Adj & g )
{
    size_t n = g.size();
    Adj rev( n );
    for( size_t i = 0; i < n; i++ )
        for( auto j : g[i] )
            rev[j].push_back( i );
    std::vector<size_t> order, pos( n, 0 ), comp( n, n );
    std::vector<char> seen( n, 0 );
    for( size_t r = 0; r < n; r++ )
    {
        if( seen[r] )
            continue;
        std::vector<size_t> st{ r };
        seen[r] = 1;
        while( !st.empty() )
        {
            size_t v = st.back();
            if( pos[v] < g[v].size() )
            {
                size_t u = g[v][pos[v]++];
                if( !seen[u] )
                {
                    seen[u] = 1;
                    st.push_back( u );
                }
            }
            else
            {
                order.push_back( v );
                st.pop_back();
            }
        }
    }
    for( size_t k = n; k-- > 0; )
    {
        size_t r = order[k];
        if( comp[r] != n )
            continue;
        std::vector<size_t> st{ r };
        comp[r] = r;
        while( !st.empty() )
        {
            size_t v = st.back();
            st.pop_back();
            for( auto u : rev[v] )
                if( comp[u] == n )
                {
                    comp[u] = r;
                    st.push_back( u );
                }
        }
    }
    return comp;
}

void check_partition( const std::vector<std::vector<size_t>> & scc, const std::vector<size_t> & comp, Ctx & c )
{
    size_t n = comp.size(), covered = 0;
    std::vector<size_t> in( n, n );
    for( size_t k = 0; k < scc.size(); k++ )
    {
        PBT_CHECK( c, !scc[k].empty(), "component {} is empty", k );
        for( auto v : scc[k] )
        {
            PBT_CHECK( c, v < n, "component {} contains {} but there are {} agents", k, v, n );
            PBT_CHECK( c, in[v] == n, "agent {} is in two components", v );
            in[v] = k;
            covered++;
        }
        for( auto v : scc[k] )
            PBT_CHECK( c, comp[v] == comp[scc[k][0]], "agents {} and {} are in one component but not mutually reachable", v, scc[k][0] );
    }
    PBT_CHECK( c, covered == n, "{} of {} agents are in a component", covered, n );
    std::set<size_t> distinct( comp.begin(), comp.end() );
    PBT_CHECK( c, distinct.size() == scc.size(), "{} components instead of {}", scc.size(), distinct.size() );
}

Adj gen( Src & s, size_t n )
{
    Adj g( n );
    size_t kind = s.draw( 6 );
    auto add    = [&]( size_t i, size_t j ) { g[i].push_back( j ); };
    if( n == 0 )
        return g;
    switch( kind )
    {
        case 0: // random, sparse to dense
        {
            size_t m = s.size( 0, 3 * n );
            for( size_t k = 0; k < m; k++ )
                add( s.draw( n - 1 ), s.draw( n - 1 ) );
            break;
        }
        case 1: // around the threshold: one to two edges per vertex
            for( size_t i = 0; i < n; i++ )
                for( size_t k = s.draw( 2 ); k > 0; k-- )
                    add( i, s.draw( n - 1 ) );
            break;
        case 2: // chain of cycles with forward edges, in a shuffled labelling
        {
            std::vector<size_t> lab( n );
            std::iota( lab.begin(), lab.end(), 0 );
            for( size_t i = n; i > 1; i-- )
                std::swap( lab[i - 1], lab[s.draw( i - 1 )] );
            size_t start = 0;
            while( start < n )
            {
                size_t len = std::min( n - start, s.size( 1, 8 ) );
                for( size_t k = 0; k < len; k++ )
                    if( len > 1 )
                        add( lab[start + k], lab[start + ( k + 1 ) % len] );
                if( start > 0 )
                    for( size_t k = s.draw( 2 ); k > 0; k-- )
                        add( lab[s.draw( start - 1 )], lab[start + s.draw( len - 1 )] );
                start += len;
            }
            break;
        }
        case 3: // DAG
            for( size_t k = s.size( 0, 3 * n ); k > 0; k-- )
            {
                size_t i = s.draw( n - 1 ), j = s.draw( n - 1 );
                if( i != j )
                    add( std::max( i, j ), std::min( i, j ) );
            }
            break;
        case 4: // ring with chords
            for( size_t i = 0; i < n; i++ )
                add( i, ( i + 1 ) % n );
            for( size_t k = s.draw( 4 ); k > 0; k-- )
                add( s.draw( n - 1 ), s.draw( n - 1 ) );
            break;
        case 5: // path with a few backward edges
            for( size_t i = 0; i + 1 < n; i++ )
                add( i, i + 1 );
            for( size_t k = s.draw( 6 ); k > 0; k-- )
            {
                size_t i = s.draw( n - 1 ), j = s.draw( n - 1 );
                add( std::max( i, j ), std::min( i, j ) );
            }
            break;
        default: // complete or nothing
            if( s.flip() )
                for( size_t i = 0; i < n; i++ )
                    for( size_t j = 0; j < n; j++ )
                        add( i, j );
    }
    return g;
}
} // namespace

PBT_FACET( small, 120000, 3000000 )
{
    size_t n = s.size( 0, 30 );
    Adj g    = gen( s, n );
    // shuffle the order of the neighbours: it must not matter
    std::string d;
    for( size_t i = 0; i < n; i++ )
        d += fmt::format( "{} -> {}\n", i, fmt::join( g[i], " " ) );
    c.show( d );
    auto nb = g;
    std::vector<std::vector<double>> w( n );
    for( size_t i = 0; i < n; i++ )
        w[i].assign( g[i].size(), 1.0 );
    Net net( std::move( nb ), std::move( w ), s.flip() ? Net::EdgeDirection::Incoming : Net::EdgeDirection::Outgoing );
    auto scc = net.strongly_connected_components();
    // oracle by transitive closure: mutual reachability itself
    std::vector<std::vector<char>> R( n, std::vector<char>( n, 0 ) );
    for( size_t i = 0; i < n; i++ )
    {
        R[i][i] = 1;
        for( auto j : g[i] )
            R[i][j] = 1;
    }
    for( size_t k = 0; k < n; k++ )
        for( size_t i = 0; i < n; i++ )
            if( R[i][k] )
                for( size_t j = 0; j < n; j++ )
                    R[i][j] |= R[k][j];
    std::vector<size_t> comp( n );
    std::map<size_t, size_t> sizes;
    for( size_t i = 0; i < n; i++ )
    {
        comp[i] = i;
        for( size_t j = 0; j < n; j++ )
            if( R[i][j] && R[j][i] )
            {
                comp[i] = j;
                break;
            }
        sizes[comp[i]]++;
    }
    check_partition( scc, comp, c );
    bool multi = false;
    for( auto & [k, v] : sizes )
        multi = multi || v > 1;
    c.nontrivial( sizes.size() >= 2 && multi );
    c.label( sizes.size() == 1 ? "one component" : multi ? "mixed" : "all singletons" );
    // reversing every edge keeps the components
    net.toggle_incoming_outgoing();
    check_partition( net.strongly_connected_components(), comp, c );
}

PBT_FACET( large, 64, 1500 )
{
    // sizes a simulation uses (the examples have a thousand agents; nothing limits it), among them deep graphs
    static const size_t sizes[] = { 1000, 5000, 20000, 60000, 150000, 250000 };
    size_t n                    = sizes[s.draw( 5 )] + s.draw( 1000 );
    uint64_t kind               = s.draw( 3 );
    uint64_t st                 = s.draw( ~0ULL );
    Adj g( n );
    auto rnd = [&]( size_t k ) { return pbt::splitmix( st ) % k; };
    switch( kind )
    {
        case 0:
            for( size_t i = 0; i < n; i++ )
                g[i].push_back( ( i + 1 ) % n );
            break;
        case 1:
            for( size_t i = 0; i < n; i++ )
                for( size_t k = 0; k < 1 + rnd( 3 ); k++ )
                    g[i].push_back( rnd( n ) );
            break;
        case 2: // long path, some cycles along it
            for( size_t i = 0; i + 1 < n; i++ )
            {
                g[i].push_back( i + 1 );
                if( rnd( 50 ) == 0 )
                    g[i].push_back( i - std::min( i, (size_t)rnd( 40 ) ) );
            }
            break;
        default: // the network of a simulation: ten connections and oneself
            for( size_t i = 0; i < n; i++ )
            {
                for( size_t k = 0; k < 10; k++ )
                    g[i].push_back( rnd( n ) );
                g[i].push_back( i );
            }
    }
    c.show( fmt::format( "n={} kind={}\n", n, kind ) );
    c.label( fmt::format( "kind{}", kind ) );
    auto comp = components( g );
    auto nb   = g;
    std::vector<std::vector<double>> w( n );
    for( size_t i = 0; i < n; i++ )
        w[i].assign( g[i].size(), 1.0 );
    Net net( std::move( nb ), std::move( w ), Net::EdgeDirection::Incoming );
    check_partition( net.strongly_connected_components(), comp, c );
    c.nontrivial( n > 20000 );
}

// A DeGroot model says so when its network falls apart, and into how many components
PBT_FACET( warning, 12000, 250000 )
{
    size_t n = s.chance( 1, 40 ) ? s.size( 100, 400 ) : s.size( 1, 16 );
    Adj g;
    if( n > 30 )
    {
        g.resize( n );
        for( size_t k = s.size( 0, 3 * n ); k-- > 0; )
            g[s.draw( n - 1 )].push_back( s.draw( n - 1 ) );
    }
    else
        g = gen( s, n );
    if( s.chance( 1, 3 ) ) // connected
        for( size_t i = 0; i < n; i++ )
            g[i].push_back( ( i + 1 ) % n );
    std::string d;
    for( size_t i = 0; i < n; i++ )
        d += fmt::format( "{} -> {}\n", i, fmt::join( g[i], " " ) );
    c.show( d );
    auto comp = components( g );
    std::set<size_t> distinct( comp.begin(), comp.end() );
    auto nb = g;
    std::vector<std::vector<double>> w( n );
    for( size_t i = 0; i < n; i++ )
        w[i].assign( g[i].size(), 1.0 );
    Net net( std::move( nb ), std::move( w ), Net::EdgeDirection::Incoming );
    TempDir dir( c, "warning" );
    fflush( stdout );
    int saved = dup( 1 ), fd = open( ( dir / "out" ).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600 );
    dup2( fd, 1 );
    close( fd );
    {
        Seldon::DeGrootModel model( {}, net );
        fflush( stdout );
    }
    dup2( saved, 1 );
    close( saved );
    auto out = slurp( dir / "out" );
    auto p   = out.find( "component" );
    PBT_CHECK( c, ( p != std::string::npos ) == ( distinct.size() != 1 ), "a network of {} components; the model printed '{}'", distinct.size(), out );
    if( distinct.size() != 1 )
    {
        auto q = out.find_first_of( "0123456789" );
        PBT_CHECK( c, q != std::string::npos && std::stoul( out.substr( q ) ) == distinct.size(), "a network of {} components; the model printed '{}'", distinct.size(), out );
    }
    c.nontrivial( n > 1 );
    c.label( distinct.size() == 1 ? "no warning" : "warning" );
}
