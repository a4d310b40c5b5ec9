// Malformed input files
// BUILD: fuzz fuzz_seconds=300
#include "p29.hpp"
using namespace H;

PBT_PROPERTY( "P29", "a case is a network file, an agents file or both: a valid file with mutations (bytes, tokens, rows, truncation at any point), tokens of the format in any order, or bytes; "
                     "non-trivial: every case (each is read, and what is accepted is simulated)" );

namespace
{
std::string odd_token( Src & s )
{
    static const std::vector<std::string> v{ "0", "1", "2", "3", "5", "-1", "-2", "4294967296", "2147483647", "-2147483648", "2147483648", "99999999999999999999", "18446744073709551615", "nan", "inf", "-inf",
                                             "1e999", "1e-999", "5e-324", "0x10", "1.5", "abc", "", " ", "\t", "+3", "1 2", "#", "--1", "1e", ".", "\r", "\xc3\xa9", "007" };
    return s.pick( v );
}
std::string mutate( Src & s, std::string t )
{
    for( size_t k = s.size( 0, 4 ); k-- > 0; )
    {
        if( t.empty() )
            break;
        size_t p = s.draw( t.size() - 1 );
        switch( s.draw( 9 ) )
        {
            case 0: // cut off (a writer that was interrupted)
                t = t.substr( 0, p );
                break;
            case 1:
                t.erase( p, 1 + s.draw( 5 ) );
                break;
            case 2:
                t.insert( p, 1, char( s.draw( 255 ) ) );
                break;
            case 3:
                t[p] = s.pick( std::vector<char>{ ',', '\n', ' ', '#', '-', '0', '9', '.', 'e', '\0', '\r' } );
                break;
            case 4: // a field replaced
            case 5:
            {
                std::vector<std::pair<size_t, size_t>> f;
                for( size_t i = 0, b = 0; i <= t.size(); i++ )
                    if( i == t.size() || t[i] == ',' || t[i] == '\n' )
                    {
                        f.push_back( { b, i - b } );
                        b = i + 1;
                    }
                auto [b, l] = f[s.draw( f.size() - 1 )];
                t.replace( b, l, odd_token( s ) );
                break;
            }
            case 6: // a row dropped, doubled, or moved
            case 7:
            {
                auto rows = split( t, '\n' );
                size_t i  = s.draw( rows.size() - 1 );
                auto r    = rows[i];
                if( s.chance( 1, 3 ) )
                    rows.erase( rows.begin() + i );
                else if( s.flip() )
                    rows.insert( rows.begin() + s.draw( rows.size() ), r );
                else
                    std::swap( rows[i], rows[s.draw( rows.size() - 1 )] );
                t.clear();
                for( size_t q = 0; q < rows.size(); q++ )
                    t += ( q ? "\n" : "" ) + rows[q];
                break;
            }
            case 8: // a field dropped or doubled
            {
                size_t b = t.find( ',', p );
                if( b == std::string::npos )
                    break;
                size_t e = t.find_first_of( ",\n", b + 1 );
                if( e == std::string::npos )
                    e = t.size();
                if( s.flip() )
                    t.erase( b, e - b );
                else
                    t.insert( b, t.substr( b, e - b ) );
                break;
            }
            default:
                t.insert( p, s.pick( std::vector<std::string>{ "\n", "\n\n", "\r\n", ",", ",,", "# x\n", "\n#", "   ", std::string( 300, '9' ), std::string( 200, ',' ) } ) );
        }
    }
    return t;
}
std::string token_soup( Src & s )
{
    std::string t;
    for( size_t k = s.size( 0, 30 ); k-- > 0; )
        t += odd_token( s ) + s.pick( std::vector<std::string>{ ",", ", ", "\n", ",", "" } );
    return t;
}
std::string byte_soup( Src & s )
{
    std::string t;
    for( size_t k = s.size( 0, 40 ); k-- > 0; )
        t += s.flip() ? char( s.draw( 255 ) ) : s.pick( std::vector<char>{ ',', '\n', ' ', '#', '-', '0', '1', '.', 'e' } );
    return t;
}
std::vector<std::vector<double>> rows_for( Src & s, int kind, size_t n )
{
    std::vector<std::vector<double>> rows;
    for( size_t i = 0; i < n; i++ )
    {
        std::vector<double> r;
        for( size_t k = 0; k < ( kind == Activity || kind == DeffuantVector ? 3u : kind == InertialKind ? 4u : 1u ); k++ )
            r.push_back( kind == DeffuantVector ? double( s.draw( 1 ) ) : s.chance( 1, 8 ) ? s.finite() : s.real( 0, 1 ) );
        rows.push_back( r );
    }
    return rows;
}
std::string some_file( Src & s, const std::string & valid )
{
    switch( s.draw( 7 ) )
    {
        case 0:
            return token_soup( s );
        case 1:
            return byte_soup( s );
        default:
            return mutate( s, valid );
    }
}
} // namespace

PBT_FACET( files, 160000, 3000000 )
{
    int kind = int( s.draw( 4 ) );
    size_t n = s.size( 1, 6 );
    std::optional<std::string> net, agents;
    int which = int( s.draw( 2 ) );
    if( which != 1 )
    {
        auto r = random_net( s, n, 4, s.chance( 1, 4 ) );
        net    = some_file( s, write_network_text( r.nbr, r.w ) );
    }
    if( which != 0 )
        agents = some_file( s, write_agents_text( rows_for( s, kind, s.chance( 1, 5 ) ? s.size( 0, 8 ) : n ) ) );
    uint32_t bits = s.seed32();
    c.show( fmt::format( "{} bits {:x}\n--- network file\n{}\n--- agents file\n{}\n", kind_name( kind ), bits, net.value_or( "(none)" ), agents.value_or( "(none)" ) ) );
    dispatch( kind, [&]<typename A>() { check_files<A>( c, kind, bits, net, agents ); } );
    c.label( kind_name( kind ) );
    c.label( net ? ( agents ? "both" : "network" ) : "agents" );
}

// A valid file with one defect that leaves no sensible reading must be refused, by the reader and by the simulation
PBT_FACET( defects, 60000, 1200000 )
{
    static const std::vector<std::string> words{ "abc", "x1", "--1", "-", "+", ".", "e5", "?", "", "  ", "'1'", "\"0.5\"", "(2)", "#3", "_", "O", "\t", "/2", "one" };
    int kind = int( s.draw( 4 ) );
    size_t n = s.chance( 1, 30 ) ? s.size( 20, 200 ) : s.size( 1, 7 );
    std::optional<std::string> net, agents;
    std::string what;
    auto r    = random_net( s, n, 4, s.chance( 1, 4 ) );
    auto rows = rows_for( s, kind, n );
    auto pad  = [&] { return std::string( s.chance( 1, 4 ) ? s.size( 0, 3 ) : 1, ' ' ); };
    if( s.chance( 2, 3 ) )
    {
        size_t bad = s.draw( n - 1 );
        if( r.nbr[bad].empty() && !s.chance( 1, 4 ) )
            for( size_t i = 0; i < n; i++ )
                if( !r.nbr[i].empty() )
                    bad = i;
        size_t k = r.nbr[bad].size();
        std::string t;
        for( size_t i = 0; i < n; i++ )
        {
            std::vector<std::string> f{ std::to_string( i ), std::to_string( r.nbr[i].size() ) };
            for( auto j : r.nbr[i] )
                f.push_back( std::to_string( j ) );
            for( auto w : r.w[i] )
                f.push_back( fmt::format( "{}", w ) );
            if( i == bad )
            {
                // the column after the last one: a weight too many
                int d    = k == 0 ? int( s.draw( 2 ) ) : int( s.draw( 8 ) );
                size_t e = k ? s.draw( k - 1 ) : 0;
                switch( d )
                {
                    case 0:
                        f[1] = s.pick( words ), what = "a number of neighbours that is no number";
                        break;
                    case 1:
                        for( size_t q = s.size( 1, 3 ); q-- > 0; )
                            f.push_back( s.flip() ? "0.5" : "1" );
                        what = "a weight too many";
                        break;
                    case 2:
                        f.insert( f.begin() + 2 + k + s.draw( k ), s.pick( words ) ), what = "a field too many that is no number";
                        break;
                    case 3:
                        f[2 + e] = s.pick( words ), what = "a neighbour that is no number";
                        break;
                    case 4:
                        f[2 + k + e] = s.pick( words ), what = "a weight that is no number";
                        break;
                    case 5:
                        f[2 + e] = std::to_string( s.pick( std::vector<size_t>{ n, n + 1, n + s.size( 1, 500 ), 2147483647 } ) ), what = "a neighbour beyond the last agent";
                        break;
                    case 6:
                        f[2 + e] = std::to_string( -int64_t( s.chance( 1, 5 ) ? 2147483648 : s.size( 1, n + 1 ) ) ), what = "a negative neighbour";
                        break;
                    case 7:
                        f.resize( f.size() - s.size( 1, k ) ), what = "weights missing";
                        break;
                    default:
                        f.resize( 2 + s.size( 0, k - 1 ) ), what = "neighbours missing";
                }
                // a row that is only shorter by the number it is padded with may be read as another network: only the defects above are judged
            }
            for( size_t q = 0; q < f.size(); q++ )
                t += ( q ? "," + pad() : "" ) + f[q];
            t += i + 1 < n || s.flip() ? "\n" : "";
        }
        net = t;
        if( s.chance( 1, 3 ) )
            agents = write_agents_text( rows );
    }
    else
    {
        size_t bad = s.draw( n - 1 );
        std::string t = s.flip() ? "# idx_agent, data\n" : "";
        for( size_t i = 0; i < n; i++ )
        {
            t += std::to_string( i );
            size_t q0 = i == bad ? s.draw( rows[i].size() - 1 ) : rows[i].size();
            // SimpleAgent and the others read the columns of their kind only
            for( size_t q = 0; q < rows[i].size(); q++ )
                t += "," + pad() + ( q == q0 ? s.pick( words ) : fmt::format( "{}", rows[i][q] ) );
            t += i + 1 < n || s.flip() ? "\n" : "";
        }
        agents = t;
        what   = "an agent value that is no number";
        if( s.chance( 1, 3 ) )
            net = write_network_text( r.nbr, r.w );
    }
    uint32_t bits = s.seed32() & ~64u;
    c.show( fmt::format( "{}, {}\n--- network file\n{}\n--- agents file\n{}\n", kind_name( kind ), what, net.value_or( "(none)" ), agents.value_or( "(none)" ) ) );
    dispatch( kind, [&]<typename A>() {
        TempDir d( c, "defect" );
        std::optional<std::string> nf, af;
        if( net )
            spit( *( nf = d / "n.txt" ), *net );
        if( agents )
            spit( *( af = d / "a.txt" ), *agents );
        bool read = true;
        try
        {
            if( what == "an agent value that is no number" )
                (void)Seldon::agents_from_file<A>( *af );
            else
                (void)Seldon::NetworkGeneration::generate_from_file<A>( *nf );
        }
        catch( const std::exception & )
        {
            read = false;
        }
        PBT_CHECK( c, !read, "a file with {} was read", what );
        bool built = true;
        try
        {
            Seldon::Simulation<A> sim( short_run( kind, bits, n ), nf, af );
        }
        catch( const std::exception & )
        {
            built = false;
        }
        PBT_CHECK( c, !built, "a simulation was set up from a file with {}", what );
    } );
    c.label( what );
    c.label( kind_name( kind ) );
    c.nontrivial();
}

// Large claims in small files: must not take memory or time in proportion to the numbers written
PBT_FACET( large_claims, 2000, 20000 )
{
    int kind  = int( s.draw( 4 ) );
    size_t n  = s.size( 1, 4 );
    std::string t;
    for( size_t i = 0; i < n; i++ )
    {
        t += fmt::format( "{}, {}", i, s.pick( std::vector<std::string>{ "2147483647", "1000000000", "999999", "-2147483648", "-1", "-3", "100000" } ) );
        for( size_t k = s.size( 0, 6 ); k-- > 0; )
            t += ", " + s.pick( std::vector<std::string>{ "0", "1", "2147483647", "-1", "0.5" } );
        t += "\n";
    }
    c.show( t );
    dispatch( kind, [&]<typename A>() { check_files<A>( c, kind, s.seed32(), t, std::nullopt ); } );
}
