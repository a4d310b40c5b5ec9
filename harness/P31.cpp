// List parsing and Hamming distance
#include "common.hpp"
using namespace H;

PBT_PROPERTY( "P31", "a case is a string, or a triple of vectors; non-trivial: at least two fields; or vectors that differ" );

namespace
{
std::vector<std::string> fields_of( const std::string & str, Ctx & c )
{
    std::vector<std::string> got;
    std::vector<int> idx;
    auto cb = [&]( int i, const auto & sub ) {
        idx.push_back( i );
        got.push_back( sub );
        PBT_CHECK( c, got.size() <= str.size() + 1, "more fields than commas allow" );
    };
    Seldon::parse_comma_separated_list( str, cb );
    for( size_t i = 0; i < idx.size(); i++ )
        PBT_CHECK( c, idx[i] == int( i ), "call {} has index {}", i, idx[i] );
    return got;
}
} // namespace

PBT_FACET( split, 150000, 3000000 )
{
    std::string str;
    size_t n = s.chance( 1, 100 ) ? s.range( 100, 3000 ) : s.size( 0, 30 );
    if( s.chance( 1, 5000 ) ) // long fields
        str = std::string( s.range( 10000, 200000 ), 'x' ) + "," + std::string( s.draw( 70000 ), ' ' );
    for( size_t i = 0; i < n; i++ )
        switch( s.draw( 4 ) )
        {
            case 0:
                str += ',';
                break;
            case 1:
                str += char( '0' + s.draw( 9 ) );
                break;
            case 2:
                str += ' ';
                break;
            case 3:
                str += char( 'a' + s.draw( 25 ) );
                break;
            default:
                str += char( s.draw( 255 ) );
        }
    c.show( "'" + str + "'\n" );
    auto got  = fields_of( str, c );
    auto want = H::split( str, ',' );
    PBT_CHECK( c, got.size() == want.size(), "{} fields, expected {}", got.size(), want.size() );
    for( size_t i = 0; i < got.size(); i++ )
        PBT_CHECK( c, got[i] == want[i], "field {} is '{}', expected '{}'", i, got[i], want[i] );
    c.nontrivial( want.size() >= 2 );
    c.label( "empty field", std::count( want.begin(), want.end(), "" ) > 0 );
}

PBT_FACET( join, 50000, 1000000 )
{
    std::vector<std::string> f( s.size( 1, 20 ) );
    for( auto & x : f )
    {
        size_t len = s.size( 0, 8 );
        for( size_t i = 0; i < len; i++ )
            x += char( s.pick( std::vector<int>{ 'a', ' ', '1', '-', '.', '\t', '#' } ) );
    }
    std::string str;
    for( size_t i = 0; i < f.size(); i++ )
        str += ( i ? "," : "" ) + f[i];
    c.show( "'" + str + "'\n" );
    c.check( fields_of( str, c ) == f, "splitting the joined fields does not give them back: '" + str + "'" );
    c.nontrivial( f.size() >= 2 );
}

PBT_FACET( hamming, 100000, 2000000 )
{
    size_t n = s.chance( 1, 50 ) ? s.range( 50, 2000 ) : s.size( 0, 24 );
    auto gen = [&]( size_t len ) {
        int kind = (int)s.draw( 2 );
        std::vector<int> v( len );
        for( auto & x : v )
            x = kind == 0 ? (int)s.draw( 1 ) : kind == 1 ? (int)s.range( -3, 3 ) : (int)(uint32_t)s.draw( 0xffffffffULL );
        return v;
    };
    auto a = gen( n ), b = gen( n ), e = gen( n );
    if( s.chance( 1, 3 ) ) // near
    {
        b = a;
        for( size_t k = s.size( 0, 4 ); k > 0 && n > 0; k-- )
            b[s.draw( n - 1 )] ^= 1;
    }
    auto dist = [&]( std::vector<int> & x, std::vector<int> & y ) { return (size_t)Seldon::hamming_distance( std::span( x ), std::span( y ) ); };
    c.show( fmt::format( "a=[{}] b=[{}]\n", fmt::join( a, " " ), fmt::join( b, " " ) ) );
    size_t want = 0;
    for( size_t i = 0; i < n; i++ )
        want += a[i] != b[i];
    auto a0 = a, b0 = b;
    PBT_CHECK( c, dist( a, b ) == want, "distance {}, expected {}", dist( a, b ), want );
    c.check( dist( b, a ) == want, "not symmetric" );
    c.check( dist( a, a ) == 0, "distance to itself is not zero" );
    c.check( dist( a, e ) <= dist( a, b ) + dist( b, e ), "triangle inequality" );
    c.check( a == a0 && b == b0, "the arguments were changed" );
    // the same permutation of both changes nothing
    if( n > 1 )
    {
        size_t i = s.draw( n - 1 ), j = s.draw( n - 1 );
        std::swap( a[i], a[j] );
        std::swap( b[i], b[j] );
        c.check( dist( a, b ) == want, "depends on the order of the positions" );
    }
    // other element types
    std::vector<double> x( a.begin(), a.end() ), y( b.begin(), b.end() );
    c.check( (size_t)Seldon::hamming_distance( std::span( x ), std::span( y ) ) == want, "another distance for vectors of doubles" );
    // mismatched lengths
    auto g = gen( n + s.size( 1, 5 ) );
    bool threw = false;
    try
    {
        (void)( s.flip() ? dist( a, g ) : dist( g, a ) );
    }
    catch( const std::exception & )
    {
        threw = true;
    }
    c.check( threw, "vectors of different length were accepted" );
    c.nontrivial( want > 0 );
}
