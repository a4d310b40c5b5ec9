// Agents files
#include "common.hpp"
using namespace H;

PBT_PROPERTY( "P04", "a case is a list of agents of one type (or a text by an independent writer of the format); non-trivial: at least one agent, "
                     "and for foreign files at least one variation of the layout" );

namespace
{
// columns of the file, in order
void set_row( Seldon::SimpleAgent & a, const std::vector<double> & r )
{
    if( r.size() > 0 )
        a.data.opinion = r[0];
}
void set_row( Seldon::ActivityAgent & a, const std::vector<double> & r )
{
    if( r.size() > 0 )
        a.data.opinion = r[0];
    if( r.size() > 1 )
        a.data.activity = r[1];
    if( r.size() > 2 )
        a.data.reluctance = r[2];
}
void set_row( Seldon::InertialAgent & a, const std::vector<double> & r )
{
    if( r.size() > 0 )
        a.data.opinion = r[0];
    if( r.size() > 1 )
        a.data.velocity = r[1];
    if( r.size() > 2 )
        a.data.activity = r[2];
    if( r.size() > 3 )
        a.data.reluctance = r[3];
}
void set_row( Seldon::DiscreteVectorAgent & a, const std::vector<double> & r )
{
    a.data.opinion.assign( r.begin(), r.end() );
}
template<typename AgentT>
constexpr bool is_vector = std::is_same_v<AgentT, Seldon::DiscreteVectorAgent>;

template<typename AgentT>
size_t max_columns( Src & s )
{
    if constexpr( is_vector<AgentT> )
        return s.chance( 1, 30 ) ? s.range( 50, 400 ) : s.size( 1, 12 );
    else
        return columns_of( (AgentT *)nullptr ).size();
}
template<typename AgentT>
double value( Src & s, int kind )
{
    if constexpr( is_vector<AgentT> )
        return kind == 0 ? double( s.draw( 1 ) ) : double( s.range( std::numeric_limits<int>::min(), std::numeric_limits<int>::max() ) );
    else
        return s.finite();
}
template<typename AgentT>
std::vector<std::vector<double>> gen_rows( Src & s )
{
    size_t n = pbt::large_max() ? s.big( 1000, 20000 ) : s.chance( 1, 200 ) ? s.range( 300, 3000 ) : s.size( 0, 20 );
    size_t cols = max_columns<AgentT>( s );
    if( is_vector<AgentT> && ( pbt::large_max() ? s.flip() : s.chance( 1, 500 ) ) ) // few agents with long vectors
    {
        n    = s.range( 1, 3 );
        cols = s.big( 100, 20000 );
    }
    std::vector<std::vector<double>> rows( n );
    int kind    = (int)s.draw( 2 );
    bool ragged = is_vector<AgentT> && s.chance( 1, 4 );
    for( auto & r : rows )
    {
        r.resize( ragged ? s.size( 1, 12 ) : cols );
        for( auto & x : r )
            x = value<AgentT>( s, kind );
    }
    return rows;
}
template<typename AgentT>
void same_agents( Ctx & c, const std::vector<AgentT> & got, const std::vector<std::vector<double>> & rows, const std::string & what )
{
    PBT_CHECK( c, got.size() == rows.size(), "{}: {} agents, expected {}", what, got.size(), rows.size() );
    for( size_t i = 0; i < rows.size(); i++ )
    {
        // what a row leaves out is the default
        AgentT def{};
        if constexpr( !is_vector<AgentT> )
            def.data.opinion = 0;
        if constexpr( requires { def.data.activity; } )
            def.data.activity = 0, def.data.reluctance = 1;
        if constexpr( requires { def.data.velocity; } )
            def.data.velocity = 0;
        set_row( def, rows[i] );
        auto want = agent_row( def ), have = agent_row( got[i] );
        PBT_CHECK( c, want.size() == have.size(), "{}: agent {} has {} values, expected {}", what, i, have.size(), want.size() );
        for( size_t k = 0; k < want.size(); k++ )
            PBT_CHECK( c, same_bits( want[k], have[k] ), "{}: value {} of agent {} is {:.17g}, expected {:.17g}", what, k, i, have[k], want[k] );
    }
}

template<typename AgentT>
void roundtrip( Src & s, Ctx & c )
{
    auto rows = gen_rows<AgentT>( s );
    c.show( write_agents_text( rows ) );
    TempDir d( c, "f" );
    std::vector<AgentT> agents( rows.size() );
    for( size_t i = 0; i < rows.size(); i++ )
        set_row( agents[i], rows[i] );
    Seldon::Network<AgentT> net( agents );
    if( s.chance( 1, 8 ) )
        spit( d / "a", std::string( 3000, 'x' ) );
    Seldon::agents_to_file( net, d / "a" );
    same_agents( c, net.agents, rows, "after writing" );
    auto text   = slurp( d / "a" );
    auto parsed = parse_agents_text( text, c );
    if constexpr( !is_vector<AgentT> )
    {
        std::vector<std::string> want{ "idx_agent" };
        for( auto & x : columns_of( (AgentT *)nullptr ) )
            want.push_back( x );
        c.check( parsed.header == want, "header line: " + lines_of( text )[0] );
    }
    PBT_CHECK( c, parsed.rows.size() == rows.size(), "{} rows for {} agents", parsed.rows.size(), rows.size() );
    for( size_t i = 0; i < rows.size(); i++ )
    {
        PBT_CHECK( c, parsed.rows[i].size() == rows[i].size(), "row {} has {} columns, expected {}", i, parsed.rows[i].size(), rows[i].size() );
        for( size_t k = 0; k < rows[i].size(); k++ )
            PBT_CHECK( c, same_bits( parsed.rows[i][k], rows[i][k] ), "column {} of row {} is written as {:.17g}, it is {:.17g}", k, i, parsed.rows[i][k], rows[i][k] );
    }
    auto back = Seldon::agents_from_file<AgentT>( d / "a" );
    same_agents( c, back, rows, "read back" );
    Seldon::Network<AgentT> net2( back );
    Seldon::agents_to_file( net2, d / "b" );
    c.check( slurp( d / "b" ) == text, "writing the agents that were read gives another file" );
    // one agent alone
    for( size_t i = 0; i < std::min<size_t>( rows.size(), 3 ); i++ )
    {
        auto one = Seldon::agent_from_string<AgentT>( Seldon::agent_to_string( agents[i] ) );
        same_agents<AgentT>( c, { one }, { rows[i] }, "agent_from_string of agent_to_string" );
        auto op   = Seldon::opinion_to_string( agents[i] );
        auto cols = split( op, ',' );
        size_t nc = is_vector<AgentT> ? rows[i].size() : 1;
        PBT_CHECK( c, cols.size() == nc, "opinion_to_string gives '{}'", op );
        for( size_t k = 0; k < nc; k++ )
            PBT_CHECK( c, same_bits( to_double( cols[k], c ), rows[i][k] ), "opinion_to_string gives '{}'", op );
    }
    c.nontrivial( !rows.empty() );
}

template<typename AgentT>
void foreign( Src & s, Ctx & c )
{
    auto rows   = gen_rows<AgentT>( s );
    bool varied = false;
    if( !is_vector<AgentT> )
        for( auto & r : rows )
        {
            size_t keep = s.chance( 1, 2 ) ? r.size() : s.range( 1, r.size() );
            varied      = varied || keep < r.size();
            r.resize( keep );
        }
    TempDir d( c, "f" );
    auto space = [&]() -> std::string {
        size_t k = s.draw( 7 );
        varied   = varied || k >= 4;
        return k < 4 ? "" : k == 4 ? " " : k == 5 ? "  " : k == 6 ? "          " : "\t";
    };
    auto comment = [&]( std::string & t ) {
        static const std::vector<std::string> cs = { "#", "# idx_agent, opinion", "#1, 1, 0, 0.5", "# ###, ,,,", "#\t", "##", "# 0, nan" };
        while( s.chance( 1, 5 ) )
        {
            t += s.pick( cs ) + "\n";
            varied = true;
        }
    };
    auto number = [&]( double x ) -> std::string {
        if( is_vector<AgentT> )
            return fmt::format( "{}", (int)x );
        switch( s.draw( 3 ) )
        {
            case 0:
                return fmt::format( "{:.17g}", x );
            case 1:
                return fmt::format( "{:.16e}", x );
            case 2:
                return fmt::format( "{}", x );
            default:
                return ( !std::signbit( x ) ? "+" : "" ) + fmt::format( "{:.20g}", x );
        }
    };
    std::string t;
    if( s.chance( 7, 8 ) )
        t += "# header\n";
    for( size_t i = 0; i < rows.size(); i++ )
    {
        comment( t );
        t += std::to_string( i ) + space();
        for( auto x : rows[i] )
            t += "," + space() + number( x ) + space();
        if( i + 1 < rows.size() )
            t += "\n";
    }
    if( s.flip() )
        t += "\n";
    if( s.chance( 1, 5 ) )
        t += "\n# the end\n";
    c.show( t );
    spit( d / "a", t );
    same_agents( c, Seldon::agents_from_file<AgentT>( d / "a" ), rows, "read" );
    c.nontrivial( varied && !rows.empty() );
}
} // namespace

PBT_FACET( roundtrip, 80000, 1600000 )
{
    switch( s.draw( 3 ) )
    {
        case 0:
            c.label( "SimpleAgent" );
            return roundtrip<Seldon::SimpleAgent>( s, c );
        case 1:
            c.label( "ActivityAgent" );
            return roundtrip<Seldon::ActivityAgent>( s, c );
        case 2:
            c.label( "InertialAgent" );
            return roundtrip<Seldon::InertialAgent>( s, c );
        default:
            c.label( "DiscreteVectorAgent" );
            return roundtrip<Seldon::DiscreteVectorAgent>( s, c );
    }
}

PBT_LARGE( roundtrip, 20000, 60, 2000 );
PBT_FACET( foreign, 80000, 1600000 )
{
    switch( s.draw( 3 ) )
    {
        case 0:
            c.label( "SimpleAgent" );
            return foreign<Seldon::SimpleAgent>( s, c );
        case 1:
            c.label( "ActivityAgent" );
            return foreign<Seldon::ActivityAgent>( s, c );
        case 2:
            c.label( "InertialAgent" );
            return foreign<Seldon::InertialAgent>( s, c );
        default:
            c.label( "DiscreteVectorAgent" );
            return foreign<Seldon::DiscreteVectorAgent>( s, c );
    }
}
PBT_LARGE( foreign, 20000, 60, 2000 );
