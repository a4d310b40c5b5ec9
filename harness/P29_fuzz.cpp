// Coverage-guided search over the bytes of the files (libFuzzer): first byte: model and which file; next 4: settings; the rest: the file(s), separated by a zero byte
#define PBT_NO_MAIN
#include "p29.hpp"
#include <unistd.h>
using namespace H;

extern "C" int LLVMFuzzerInitialize( int *, char *** )
{
    if( !freopen( "/dev/null", "w", stdout ) )
        abort();
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput( const uint8_t * data, size_t size )
{
    if( size < 5 )
        return 0;
    static std::string dir = [] {
        const char * base = getenv( "VERIF_FUZZ_DIR" ); // the check removes it
        std::string t     = std::string( base ? base : "." ) + "/p29fuzz_XXXXXX";
        if( !mkdtemp( t.data() ) )
            abort();
        return t;
    }();
    Ctx c;
    c.scratch = dir;
    int kind  = data[0] % 5;
    int which = ( data[0] / 5 ) % 3;
    uint32_t bits;
    memcpy( &bits, data + 1, 4 );
    std::string rest( (const char *)data + 5, size - 5 );
    std::optional<std::string> net, agents;
    if( which == 0 )
        net = rest;
    else if( which == 1 )
        agents = rest;
    else
    {
        auto z = rest.find( '\0' );
        net    = rest.substr( 0, z );
        agents = z == std::string::npos ? std::string() : rest.substr( z + 1 );
    }
    try
    {
        dispatch( kind, [&]<typename A>() { check_files<A>( c, kind, bits, net, agents ); } );
    }
    catch( const pbt::Failure & f )
    {
        fprintf( stderr, "FAILED: %s\n", f.msg.c_str() );
        abort();
    }
    return 0;
}
