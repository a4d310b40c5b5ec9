// A small property-based-testing engine.
//
// A property is a function of a *choice sequence*: every random decision goes through Src::draw, which in
// random mode comes from a PRNG seeded by (VERIF_SEED, facet, case index) and in replay mode from a recorded list.
// Shrinking works on the list (delete chunks, zero, halve), so any property shrinks and replays without its own
// shrinker, and the same function serves as a libFuzzer target (bytes -> choices).
//
// Cases run in forked workers: crashes, sanitizer reports and runaway loops (CPU time, not wall clock) are
// failures of the case that was running, and are shrunk like any other failure.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt
{

inline uint64_t splitmix( uint64_t & s )
{
    uint64_t z = ( s += 0x9e3779b97f4a7c15ULL );
    z          = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ULL;
    z          = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebULL;
    return z ^ ( z >> 31 );
}

inline uint64_t hash_str( const std::string & s )
{
    uint64_t h = 1469598103934665603ULL;
    for( unsigned char c : s )
        h = ( h ^ c ) * 1099511628211ULL;
    return h;
}

struct Failure
{
    std::string msg;
};

struct Discard
{
};

// Shared with the parent, so that it survives a crash of the worker
struct SharedSlot
{
    static constexpr size_t CAP = 1 << 20;
    uint64_t case_idx;
    uint64_t n_choices;
    uint64_t overflow;
    char msg[8192];
    uint64_t choices[CAP];
};

// > 0 while a facet registered with PBT_LARGE runs: its cases are few and big
inline size_t & large_max()
{
    static size_t v = 0;
    return v;
}

// Numbers that occur in the sources under test, and their neighbours: where a threshold or a special case may sit, cases are worth more.
// They guide the generation of random cases only; what is drawn is recorded as any other choice.
struct Dictionary
{
    std::vector<int64_t> ints; // sorted
    std::vector<double> reals;

    void add( const std::string & text )
    {
        std::set<int64_t> si( ints.begin(), ints.end() );
        std::set<double> sr( reals.begin(), reals.end() );
        for( size_t i = 0; i < text.size(); )
        {
            auto word = [&]( size_t k ) { return std::isalnum( (unsigned char)text[k] ) || text[k] == '_'; };
            if( text.compare( i, 2, "//" ) == 0 )
                i = std::min( text.find( '\n', i ), text.size() );
            else if( text.compare( i, 2, "/*" ) == 0 )
                i = std::min( text.find( "*/", i + 2 ), text.size() - 2 ) + 2;
            else if( std::isdigit( (unsigned char)text[i] ) && ( i == 0 || !word( i - 1 ) ) )
            {
                std::string t;
                while( i < text.size() && ( word( i ) || text[i] == '.' || text[i] == '\'' || ( ( text[i] == '-' || text[i] == '+' ) && !t.empty() && ( t.back() == 'e' || t.back() == 'E' ) && t.compare( 0, 2, "0x" ) != 0 ) ) )
                {
                    if( text[i] != '\'' )
                        t += text[i];
                    i++;
                }
                double d  = std::strtod( t.c_str(), nullptr );
                bool real = t.compare( 0, 2, "0x" ) != 0 && t.find_first_of( ".eE" ) != std::string::npos;
                if( std::isfinite( d ) && ( !real || t.find_first_of( "LlDd" ) == std::string::npos ) ) // not the long double tables of erfinv
                {
                    sr.insert( d );
                    if( std::abs( d ) < 1e15 && d == std::floor( d ) )
                        for( int64_t v : { int64_t( d ) - 1, int64_t( d ), int64_t( d ) + 1 } )
                            if( v > 6 )
                                si.insert( v ), si.insert( -v );
                }
            }
            else
                i++;
        }
        ints.assign( si.begin(), si.end() );
        reals.assign( sr.begin(), sr.end() );
    }
    void load( const std::string & repo )
    {
        std::vector<std::string> files;
        for( auto sub : { "/include", "/src" } )
        {
            std::error_code ec;
            for( auto & e : std::filesystem::recursive_directory_iterator( repo + sub, ec ) )
                if( e.is_regular_file() )
                    files.push_back( e.path().string() );
        }
        std::sort( files.begin(), files.end() );
        for( auto & f : files )
        {
            std::ifstream in( f, std::ios::binary );
            std::stringstream ss;
            ss << in.rdbuf();
            add( ss.str() );
        }
    }
};
inline Dictionary & dictionary()
{
    static Dictionary d;
    return d;
}

class Src
{
public:
    Src( uint64_t seed, SharedSlot * slot ) : random( true ), state( seed ), slot( slot )
    {
        begin();
    }
    Src( std::vector<uint64_t> list, SharedSlot * slot ) : random( false ), list( std::move( list ) ), slot( slot )
    {
        begin();
    }

    // choices come from bytes (libFuzzer), as many for each as its range needs
    Src( const uint8_t * data, size_t size, SharedSlot * slot ) : random( false ), bytes( data ), n_bytes( size ), slot( slot )
    {
        begin();
    }

    // uniform in [0, maxv]
    uint64_t draw( uint64_t maxv )
    {
        uint64_t v = 0;
        if( bytes )
        {
            for( uint64_t m = maxv; m && byte < n_bytes; m >>= 8 )
                v = v << 8 | bytes[byte++];
            if( maxv != std::numeric_limits<uint64_t>::max() )
                v %= maxv + 1;
        }
        else if( random )
        {
            if( maxv == std::numeric_limits<uint64_t>::max() )
                v = splitmix( state );
            else
            {
                // unbiased enough: 128 bit multiply
                v = (uint64_t)( ( (unsigned __int128)splitmix( state ) * ( (unsigned __int128)maxv + 1 ) ) >> 64 );
            }
        }
        else if( pos < list.size() )
        {
            v = list[pos];
            if( v > maxv )
                v = v % ( maxv + 1 );
        }
        return note( v );
    }
    // as draw; a random one is `v` itself
    uint64_t suggest( uint64_t v, uint64_t maxv )
    {
        return random ? note( std::min( v, maxv ) ) : draw( maxv );
    }
    uint64_t note( uint64_t v )
    {
        pos++;
        hash = ( hash ^ v ) * 1099511628211ULL + 0x9e37;
        if( slot )
        {
            if( slot->n_choices < SharedSlot::CAP )
                slot->choices[slot->n_choices++] = v;
            else
                slot->overflow = 1;
        }
        return v;
    }

    // one random draw in `odds` comes from the dictionary, if that has numbers between lo and hi
    bool suggested( int64_t lo, int64_t hi, uint64_t odds, int64_t & out )
    {
        if( !random || hi - lo < 16 || splitmix( state ) % odds )
            return false;
        auto & d = dictionary().ints;
        auto a = std::lower_bound( d.begin(), d.end(), lo ), b = std::upper_bound( d.begin(), d.end(), hi );
        if( a == b )
            return false;
        out = a[splitmix( state ) % uint64_t( b - a )];
        return true;
    }
    int64_t range( int64_t lo, int64_t hi )
    {
        int64_t v;
        if( suggested( lo, hi, 12, v ) )
            return lo + (int64_t)suggest( uint64_t( v - lo ), (uint64_t)( hi - lo ) );
        return lo + (int64_t)draw( (uint64_t)( hi - lo ) );
    }
    // lo..hi; half of the draws come from the six smallest values
    size_t size( size_t lo, size_t hi )
    {
        bool big = draw( 1 ) == 1;
        return big ? range( lo, hi ) : range( lo, std::min( hi, lo + 5 ) );
    }
    // sizes of big cases: spread over the orders of magnitude, often next to a power of two
    size_t big( size_t lo, size_t hi )
    {
        std::vector<size_t> near;
        for( size_t p = 1; p <= hi; p *= 2 )
            for( size_t v : { p - 1, p, p + 1 } )
                if( v >= lo && v <= hi )
                    near.push_back( v );
        size_t how = draw( 3 );
        if( how == 3 )
        {
            int64_t v;
            bool known = suggested( lo, hi, 1, v );
            return known ? lo + suggest( uint64_t( v ) - lo, hi - lo ) : lo + draw( hi - lo );
        }
        if( !near.empty() && how == 2 )
            return pick( near );
        double from = double( std::max<size_t>( lo, 1 ) );
        return std::clamp( size_t( from * std::pow( double( hi ) / from, unit() ) ), lo, hi );
    }
    // as size(), in big cases as big()
    size_t count( size_t lo, size_t hi )
    {
        return large_max() ? big( std::min<size_t>( 200, large_max() ), large_max() ) : size( lo, hi );
    }
    // true with probability num/den; shrinks to false
    bool chance( uint64_t num, uint64_t den )
    {
        return draw( den - 1 ) >= den - num;
    }
    bool flip()
    {
        return draw( 1 ) == 1;
    }
    double unit()
    {
        return double( draw( ( 1ULL << 53 ) - 1 ) ) * 0x1p-53;
    }
    // lo..hi, a quarter on a coarse grid (including both ends)
    double real( double lo, double hi )
    {
        size_t how = draw( 31 );
        if( how == 31 )
        {
            // from the dictionary, or anything between
            double v = lo + ( hi - lo ) * 0.37;
            if( random )
            {
                std::vector<double> in;
                for( double x : dictionary().reals )
                    for( double y : { x, -x, std::nextafter( x, 1e300 ), std::nextafter( x, -1e300 ) } )
                        if( y >= lo && y <= hi && ( y == 0 || std::abs( y ) > 1e-30 ) )
                            in.push_back( y );
                v = in.empty() ? lo + ( hi - lo ) * double( splitmix( state ) >> 11 ) * 0x1p-53 : in[splitmix( state ) % in.size()];
            }
            uint64_t bits;
            std::memcpy( &bits, &v, 8 );
            bits = suggest( bits, std::numeric_limits<uint64_t>::max() );
            std::memcpy( &v, &bits, 8 );
            return v >= lo && v <= hi ? v : lo;
        }
        if( how < 8 )
            return lo + ( hi - lo ) * double( draw( 16 ) ) / 16.0;
        return lo + ( hi - lo ) * unit();
    }
    double logreal( double lo, double hi )
    {
        return std::exp( real( std::log( lo ), std::log( hi ) ) );
    }
    // any finite double: small integers, decimals, powers, raw bit patterns
    double finite()
    {
        switch( draw( 6 ) )
        {
            case 0:
                return double( range( -3, 3 ) );
            case 1:
                return double( range( -100000, 100000 ) ) / 1000.0;
            case 2:
                return ( flip() ? -1.0 : 1.0 ) * unit();
            case 3:
                return ( flip() ? -1.0 : 1.0 ) * std::pow( 10.0, double( range( -320, 308 ) ) ) * ( 0.1 + 0.9 * unit() );
            case 4:
            {
                static const double special[] = { 0.0,
                                                  -0.0,
                                                  std::numeric_limits<double>::min(),
                                                  -std::numeric_limits<double>::min(),
                                                  std::numeric_limits<double>::max(),
                                                  std::numeric_limits<double>::lowest(),
                                                  std::numeric_limits<double>::epsilon(),
                                                  std::numeric_limits<double>::denorm_min(),
                                                  -std::numeric_limits<double>::denorm_min(),
                                                  0.1,
                                                  1.0 / 3.0,
                                                  1e16,
                                                  9007199254740993.0,
                                                  1e-5,
                                                  123456789012345680.0,
                                                  1e21,
                                                  1e22,
                                                  1e23 };
                return special[draw( sizeof( special ) / sizeof( double ) - 1 )];
            }
            case 5:
                return double( range( -1000000000, 1000000000 ) );
            default:
            {
                uint64_t b = 0;
                double known = 0;
                if( random && splitmix( state ) % 4 == 0 && !dictionary().reals.empty() )
                {
                    known = dictionary().reals[splitmix( state ) % dictionary().reals.size()];
                    std::memcpy( &b, &known, 8 );
                    b = suggest( b, std::numeric_limits<uint64_t>::max() );
                }
                else
                    b = draw( std::numeric_limits<uint64_t>::max() );
                double d;
                std::memcpy( &d, &b, 8 );
                return std::isfinite( d ) ? d : 0.0;
            }
        }
    }
    uint32_t seed32()
    {
        int64_t v;
        if( suggested( 0, 0xffffffffLL, 16, v ) )
            return (uint32_t)suggest( uint64_t( v ), 0xffffffffULL );
        return (uint32_t)draw( 0xffffffffULL );
    }
    template<typename T>
    const T & pick( const std::vector<T> & v )
    {
        return v[draw( v.size() - 1 )];
    }

    size_t n_drawn() const
    {
        return pos;
    }
    uint64_t digest() const
    {
        return hash;
    }

private:
    bool random;
    uint64_t state{};
    std::vector<uint64_t> list;
    const uint8_t * bytes = nullptr;
    size_t n_bytes = 0, byte = 0;
    size_t pos    = 0;
    uint64_t hash = 1469598103934665603ULL;
    SharedSlot * slot;

    void begin()
    {
        if( slot )
        {
            slot->n_choices = 0;
            slot->overflow  = 0;
            slot->msg[0]    = 0;
        }
    }
};

class Ctx
{
public:
    bool want_desc = false;
    bool nontriv   = false;
    std::set<std::string> labels;
    std::string desc;
    std::string scratch; // a directory of this worker; the case may create files in it

    void label( const std::string & l, bool on = true )
    {
        if( on )
            labels.insert( l );
    }
    void nontrivial( bool b = true )
    {
        nontriv = nontriv || b;
    }
    void show( const std::string & s )
    {
        if( want_desc && desc.size() < 20000 )
            desc += s;
    }
    [[noreturn]] void fail( const std::string & m )
    {
        throw Failure{ m };
    }
    void check( bool ok, const std::string & m )
    {
        if( !ok )
            throw Failure{ m };
    }
};

#define PBT_CHECK( ctx, cond, ... )                                                                                    \
    do                                                                                                                 \
    {                                                                                                                  \
        if( !( cond ) )                                                                                                \
            ( ctx ).fail( fmt::format( __VA_ARGS__ ) );                                                                \
    } while( 0 )

struct Facet
{
    std::string name;
    std::function<void( Src &, Ctx & )> fn;
    uint64_t quick;
    uint64_t thorough;
};

struct Known
{
    std::string id;
    std::function<bool( std::string & )> probe; // true: the finding manifests
};

inline std::vector<Facet> & facets()
{
    static std::vector<Facet> f;
    return f;
}
inline std::vector<Known> & knowns()
{
    static std::vector<Known> k;
    return k;
}
inline std::string & property_id()
{
    static std::string s;
    return s;
}
inline std::string & rule_text()
{
    static std::string s;
    return s;
}

inline std::string json_escape( const std::string & s )
{
    std::string o;
    for( unsigned char c : s )
    {
        if( c == '"' || c == '\\' )
        {
            o += '\\';
            o += char( c );
        }
        else if( c == '\n' )
            o += "\\n";
        else if( c < 32 || c >= 127 )
        {
            char b[8];
            std::snprintf( b, sizeof b, "\\u%04x", c );
            o += b;
        }
        else
            o += char( c );
    }
    return o;
}

// true while libFuzzer chooses: its cases are not independent of each other, so that no statistics may be made
inline bool & fuzzing()
{
    static bool v = false;
    return v;
}

inline double wall()
{
    return std::chrono::duration<double>( std::chrono::steady_clock::now().time_since_epoch() ).count();
}

inline int & cpu_limit()
{
    static int s = 25; // seconds of CPU time for one case
    return s;
}

namespace detail
{
inline SharedSlot * g_slot = nullptr;

constexpr int EXIT_FAIL = 77;
constexpr int EXIT_HANG = 78;

inline void on_cpu_limit( int )
{
    if( g_slot )
        std::snprintf( g_slot->msg, sizeof g_slot->msg, "did not terminate: the case used its whole CPU time limit" );
    _exit( EXIT_HANG );
}

inline void arm( int seconds )
{
    struct itimerval it
    {
    };
    it.it_value.tv_sec = seconds;
    setitimer( ITIMER_PROF, &it, nullptr );
}

inline SharedSlot * map_slot()
{
    void * p = mmap( nullptr, sizeof( SharedSlot ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
    if( p == MAP_FAILED )
    {
        perror( "mmap" );
        std::exit( 2 );
    }
    return (SharedSlot *)p;
}

inline void set_msg( SharedSlot * slot, const std::string & m )
{
    std::snprintf( slot->msg, sizeof slot->msg, "%s", m.c_str() );
}

// Runs the body; returns true if it passed. On failure the message is in slot->msg.
inline bool run_body( const Facet & f, Src & src, Ctx & ctx, SharedSlot * slot )
{
    arm( cpu_limit() );
    try
    {
        f.fn( src, ctx );
        arm( 0 );
        return true;
    }
    catch( const Failure & e )
    {
        set_msg( slot, e.msg );
    }
    catch( const Discard & )
    {
        arm( 0 );
        ctx.nontriv = false;
        ctx.label( "discarded" );
        return true;
    }
    catch( const std::exception & e )
    {
        set_msg( slot, std::string( "unexpected exception: " ) + e.what() );
    }
    catch( ... )
    {
        set_msg( slot, "unexpected exception of unknown type" );
    }
    arm( 0 );
    return false;
}

inline void enter_child( const std::string & dir )
{
    signal( SIGPROF, on_cpu_limit );
    int n = open( "/dev/null", O_RDWR );
    dup2( n, 0 );
    dup2( n, 1 );
    std::string err = dir + "/stderr";
    int e           = open( err.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600 );
    dup2( e, 2 );
    std::filesystem::create_directories( dir + "/work" );
    if( chdir( ( dir + "/work" ).c_str() ) != 0 )
        _exit( 2 );
}

inline std::string crash_message( const std::string & dir, int status )
{
    std::ifstream in( dir + "/stderr" );
    std::string line, best, ctx;
    while( std::getline( in, line ) )
    {
        if( best.empty()
            && ( line.find( "ERROR: " ) != std::string::npos || line.find( "runtime error:" ) != std::string::npos
                 || line.find( "Assertion" ) != std::string::npos || line.find( "terminate called" ) != std::string::npos ) )
            best = line;
        auto p = line.find( "/repo/" );
        if( p != std::string::npos && line.find( "#" ) != std::string::npos && ctx.empty() )
            ctx = line.substr( p );
    }
    std::string m = "crashed: ";
    if( WIFSIGNALED( status ) )
        m += "signal " + std::to_string( WTERMSIG( status ) ) + " ";
    else
        m += "exit " + std::to_string( WEXITSTATUS( status ) ) + " ";
    m += best;
    if( !ctx.empty() )
        m += " at " + ctx;
    return m;
}

struct Outcome
{
    bool failed = false;
    bool hang   = false;
    std::string msg;
    std::string desc;
    std::vector<uint64_t> used;
};

// Runs one case in a forked child
inline Outcome run_forked( const Facet & f, const std::vector<uint64_t> * list, uint64_t seed, const std::string & dir )
{
    static SharedSlot * slot = map_slot();
    Outcome o;
    std::filesystem::create_directories( dir );
    std::string descfile = dir + "/desc";
    std::filesystem::remove( descfile );
    fflush( nullptr );
    pid_t pid = fork();
    if( pid < 0 )
    {
        perror( "fork" );
        std::exit( 2 );
    }
    if( pid == 0 )
    {
        enter_child( dir );
        g_slot         = slot;
        slot->msg[0]   = 0;
        slot->overflow = 0;
        Ctx ctx;
        ctx.want_desc = true;
        ctx.scratch   = dir + "/work";
        bool ok;
        if( list )
        {
            Src src( *list, slot );
            ok = run_body( f, src, ctx, slot );
        }
        else
        {
            Src src( seed, slot );
            ok = run_body( f, src, ctx, slot );
        }
        {
            std::ofstream d( descfile );
            d << ctx.desc;
        }
        _exit( ok ? 0 : EXIT_FAIL );
    }
    int status = 0;
    waitpid( pid, &status, 0 );
    o.used.assign( slot->choices, slot->choices + slot->n_choices );
    if( WIFEXITED( status ) && WEXITSTATUS( status ) == 0 )
        return o;
    o.failed = true;
    if( WIFEXITED( status ) && ( WEXITSTATUS( status ) == EXIT_FAIL || WEXITSTATUS( status ) == EXIT_HANG ) )
    {
        o.msg  = slot->msg;
        o.hang = WEXITSTATUS( status ) == EXIT_HANG;
    }
    else
        o.msg = crash_message( dir, status );
    std::ifstream d( descfile );
    std::stringstream ss;
    ss << d.rdbuf();
    o.desc = ss.str();
    std::error_code ec;
    std::filesystem::remove_all( dir + "/work", ec );
    return o;
}

struct WorkerStats
{
    uint64_t cases = 0, nontriv = 0;
    std::map<std::string, uint64_t> labels;
    std::vector<uint64_t> hashes;
    std::vector<std::string> samples;
    bool truncated = false;

    void write( const std::string & file ) const
    {
        std::ofstream o( file, std::ios::binary );
        o << cases << ' ' << nontriv << ' ' << truncated << ' ' << labels.size() << ' ' << hashes.size() << ' '
          << samples.size() << '\n';
        for( auto & [k, v] : labels )
            o << v << ' ' << k << '\n';
        for( auto h : hashes )
            o << h << '\n';
        for( auto & s : samples )
            o << s.size() << ' ' << s << '\n';
    }
    void merge( const std::string & file )
    {
        std::ifstream i( file, std::ios::binary );
        uint64_t c = 0, n = 0, nl = 0, nh = 0, ns = 0;
        bool t = false;
        if( !( i >> c >> n >> t >> nl >> nh >> ns ) )
            return;
        cases += c;
        nontriv += n;
        truncated = truncated || t;
        for( uint64_t k = 0; k < nl; k++ )
        {
            uint64_t v;
            std::string l;
            i >> v;
            i.get();
            std::getline( i, l );
            labels[l] += v;
        }
        for( uint64_t k = 0; k < nh; k++ )
        {
            uint64_t h;
            i >> h;
            hashes.push_back( h );
        }
        for( uint64_t k = 0; k < ns; k++ )
        {
            size_t len;
            i >> len;
            i.get();
            std::string s( len, ' ' );
            i.read( s.data(), len );
            samples.push_back( s );
        }
    }
};

inline uint64_t case_seed( uint64_t seed, const std::string & facet, uint64_t idx )
{
    uint64_t s = seed * 0x2545F4914F6CDD1DULL ^ hash_str( property_id() + "/" + facet );
    splitmix( s );
    s ^= idx * 0xD6E8FEB86659FD93ULL;
    return splitmix( s );
}

inline std::vector<uint64_t>
shrink( const Facet & f, std::vector<uint64_t> best, Outcome & best_out, const std::string & dir )
{
    double t0    = wall();
    int evals    = 0;
    auto over    = [&] { return evals >= 1200 || wall() - t0 > 75; };
    auto attempt = [&]( const std::vector<uint64_t> & cand )
    {
        if( over() )
            return false;
        if( cand.size() > best.size() || cand == best )
            return false;
        evals++;
        auto o = run_forked( f, &cand, 0, dir );
        if( !o.failed )
            return false;
        // keep what was actually consumed, if shorter
        best     = ( o.used.size() <= cand.size() && !o.used.empty() ) ? o.used : cand;
        best_out = o;
        return true;
    };
    if( best_out.hang )
        cpu_limit() = std::max( 5, cpu_limit() / 4 );
    bool progress = true;
    while( progress && !over() )
    {
        progress = false;
        // delete chunks
        std::vector<size_t> chunks;
        for( size_t big = best.size() / 2; big > 64; big /= 2 )
            chunks.push_back( big );
        chunks.insert( chunks.end(), { 64, 16, 8, 4, 3, 2, 1 } );
        for( size_t chunk : chunks )
        {
            for( size_t i = best.size(); i >= chunk && i > 0 && !over(); )
            {
                if( i > best.size() )
                {
                    i = best.size();
                    continue;
                }
                std::vector<uint64_t> c( best.begin(), best.begin() + ( i - chunk ) );
                c.insert( c.end(), best.begin() + i, best.end() );
                if( attempt( c ) )
                {
                    progress = true;
                    i        = std::min( i, best.size() );
                }
                else
                    i -= std::min( i, chunk );
                if( over() )
                    break;
            }
        }
        // zero, then binary search towards zero
        for( size_t i = 0; i < best.size() && !over(); i++ )
        {
            if( best[i] == 0 )
                continue;
            auto c = best;
            c[i]   = 0;
            if( attempt( c ) )
            {
                progress = true;
                continue;
            }
            uint64_t lo = 0;
            while( i < best.size() && best[i] - lo > 1 )
            {
                auto d = best;
                d[i]   = lo + ( best[i] - lo ) / 2;
                uint64_t mid = d[i];
                if( attempt( d ) )
                    progress = true;
                else
                    lo = mid;
                if( over() )
                    break;
            }
        }
    }
    return best;
}

} // namespace detail

struct RunResult
{
    detail::WorkerStats stats;
    bool violated = false;
    std::string msg, desc, facet;
    std::vector<uint64_t> choices;
};

inline void write_replay(
    const std::string & file, const std::string & facet, const std::vector<uint64_t> & choices, const std::string & msg,
    const std::string & desc )
{
    std::ofstream o( file );
    o << "property " << property_id() << "\nfacet " << facet << "\nchoices " << choices.size() << "\n";
    for( auto c : choices )
        o << c << "\n";
    o << "# failure: " << msg << "\n";
    std::stringstream ss( desc );
    std::string l;
    while( std::getline( ss, l ) )
        o << "# " << l << "\n";
}

inline RunResult
run_facet( const Facet & f, uint64_t n_cases, uint64_t seed, int workers, double deadline, const std::string & tmp )
{
    using namespace detail;
    RunResult res;
    std::vector<pid_t> pids( workers );
    std::vector<SharedSlot *> slots( workers );
    std::vector<std::string> dirs( workers );
    auto * stop = (volatile uint64_t *)mmap(
        nullptr, sizeof( uint64_t ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
    *stop = std::numeric_limits<uint64_t>::max(); // lowest failing index so far
    for( int w = 0; w < workers; w++ )
    {
        slots[w]           = map_slot();
        slots[w]->case_idx = w;
        dirs[w]            = tmp + "/" + f.name + "_" + std::to_string( w );
        std::filesystem::create_directories( dirs[w] );
    }
    fflush( nullptr );
    for( int w = 0; w < workers; w++ )
    {
        pid_t pid = fork();
        if( pid < 0 )
        {
            perror( "fork" );
            std::exit( 2 );
        }
        if( pid == 0 )
        {
            enter_child( dirs[w] );
            g_slot = slots[w];
            WorkerStats st;
            for( uint64_t idx = w; idx < n_cases && idx < *stop; idx += workers )
            {
                if( wall() > deadline )
                {
                    st.truncated = true;
                    break;
                }
                slots[w]->case_idx = idx;
                Ctx ctx;
                ctx.scratch   = dirs[w] + "/work";
                ctx.want_desc = st.samples.empty() || ( st.samples.size() < 2 && idx > n_cases / 2 );
                Src src( case_seed( seed, f.name, idx ), slots[w] );
                bool ok = run_body( f, src, ctx, slots[w] );
                st.cases++;
                for( auto & l : ctx.labels )
                    st.labels[l]++;
                if( ctx.nontriv )
                {
                    st.nontriv++;
                    st.hashes.push_back( src.digest() );
                    if( ctx.want_desc && !ctx.desc.empty() )
                        st.samples.push_back( f.name + ": " + ctx.desc.substr( 0, 700 ) );
                }
                if( !ok )
                {
                    st.write( dirs[w] + "/stats" );
                    _exit( EXIT_FAIL );
                }
            }
            st.write( dirs[w] + "/stats" );
            _exit( 0 );
        }
        pids[w] = pid;
    }
    struct Cand
    {
        uint64_t idx;
        int w;
    };
    std::vector<Cand> cands;
    for( int done = 0; done < workers; )
    {
        int status = 0;
        pid_t p    = waitpid( -1, &status, 0 );
        if( p < 0 )
            break;
        for( int w = 0; w < workers; w++ )
            if( pids[w] == p )
            {
                done++;
                if( !( WIFEXITED( status ) && WEXITSTATUS( status ) == 0 ) )
                {
                    if( WIFSIGNALED( status ) && WTERMSIG( status ) == SIGKILL )
                    {
                        // ended from outside (memory guard): no verdict on this case
                        res.stats.labels["worker-killed-from-outside"]++;
                        res.stats.truncated = true;
                        continue;
                    }
                    cands.push_back( { slots[w]->case_idx, w } );
                    if( slots[w]->case_idx < *stop )
                        *stop = slots[w]->case_idx;
                }
            }
    }
    std::unordered_set<uint64_t> distinct;
    for( int w = 0; w < workers; w++ )
        res.stats.merge( dirs[w] + "/stats" );
    std::sort( cands.begin(), cands.end(), []( auto & a, auto & b ) { return a.idx < b.idx; } );
    for( auto & c : cands )
    {
        // reproduce from the seed in a fresh child, shrink, and replay three times
        auto dir   = tmp + "/replay";
        uint64_t s = case_seed( seed, f.name, c.idx );
        auto o     = run_forked( f, nullptr, s, dir );
        if( !o.failed )
            o = run_forked( f, nullptr, s, dir );
        if( !o.failed )
        {
            res.stats.labels["failure-not-reproduced"]++;
            fprintf( stderr, "case %lu of %s failed once (%s) and not again\n", (unsigned long)c.idx, f.name.c_str(),
                     slots[c.w]->msg );
            continue;
        }
        int limit    = cpu_limit();
        auto best    = o.used;
        auto orig    = o.used;
        auto out     = o;
        auto shrunk  = shrink( f, best, out, dir );
        cpu_limit()  = limit;
        int repeated = 0;
        Outcome last = out;
        for( int k = 0; k < 3; k++ )
        {
            auto r = run_forked( f, &shrunk, 0, dir );
            if( r.failed )
            {
                repeated++;
                last = r;
            }
        }
        if( repeated < 2 )
        {
            shrunk   = orig;
            repeated = 0;
            for( int k = 0; k < 3; k++ )
            {
                auto r = run_forked( f, &shrunk, 0, dir );
                if( r.failed )
                {
                    repeated++;
                    last = r;
                }
            }
        }
        if( repeated < 2 )
        {
            // more choices than can be recorded: the seed of the case still decides
            for( int k = 0; k < 2; k++ )
            {
                auto r = run_forked( f, nullptr, s, dir );
                if( r.failed )
                {
                    repeated++;
                    last = r;
                    last.msg += " (too many choices to record: case " + std::to_string( c.idx ) + " of seed " + std::to_string( seed ) + ")";
                }
            }
        }
        if( repeated < 2 )
        {
            res.stats.labels["failure-not-reproduced"]++;
            continue;
        }
        res.violated = true;
        res.facet    = f.name;
        res.msg      = last.msg;
        res.desc     = last.desc;
        res.choices  = shrunk;
        break;
    }
    for( int w = 0; w < workers; w++ )
        munmap( slots[w], sizeof( SharedSlot ) );
    return res;
}

// Exit status: 0 held, 1 violated (details in OUT), 2 error
inline int main_impl( int argc, char ** argv )
{
    std::string tier = "quick", out = "/dev/null", replay, only, tmpbase = "/tmp";
    uint64_t seed = 1;
    int workers   = 8;
    double budget = 300, scale = 1.0;
    std::string replay_out = "replay.txt";
    bool do_shrink         = false;
    for( int i = 1; i < argc; i++ )
    {
        std::string a = argv[i];
        auto next     = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if( a == "--tier" )
            tier = next();
        else if( a == "--seed" )
            seed = std::strtoull( next().c_str(), nullptr, 10 );
        else if( a == "--out" )
            out = next();
        else if( a == "--replay" )
            replay = next();
        else if( a == "--facet" )
            only = next();
        else if( a == "--shrink" ) // with --replay: writes a smaller replay file
            do_shrink = true;
        else if( a == "--workers" )
            workers = std::atoi( next().c_str() );
        else if( a == "--budget" )
            budget = std::atof( next().c_str() );
        else if( a == "--scale" )
            scale = std::atof( next().c_str() );
        else if( a == "--replay-out" )
            replay_out = next();
        else if( a == "--tmp" )
            tmpbase = next();
    }
    std::string tmpl = tmpbase + "/pbt_XXXXXX";
    if( !mkdtemp( tmpl.data() ) )
    {
        perror( "mkdtemp" );
        return 2;
    }
    struct Cleanup
    {
        std::string d;
        pid_t owner = getpid();
        ~Cleanup()
        {
            std::error_code ec;
            if( getpid() == owner )
                std::filesystem::remove_all( d, ec );
        }
    } cleanup{ tmpl };

    if( !replay.empty() )
    {
        std::ifstream in( replay );
        std::string k, prop, facet;
        size_t n = 0;
        in >> k >> prop >> k >> facet >> k >> n;
        std::vector<uint64_t> ch( n );
        for( auto & c : ch )
            in >> c;
        for( auto & f : facets() )
            if( f.name == facet )
            {
                auto o = detail::run_forked( f, &ch, 0, tmpl + "/replay" );
                if( do_shrink && o.failed )
                {
                    ch = detail::shrink( f, o.used, o, tmpl + "/replay" );
                    write_replay( replay_out, f.name, ch, o.msg, o.desc );
                }
                printf( "%s\n%s\n%s\n", o.failed ? "FAILED" : "passed", o.msg.c_str(), o.desc.c_str() );
                return o.failed ? 1 : 0;
            }
        fprintf( stderr, "no facet %s\n", facet.c_str() );
        return 2;
    }

    if( auto repo = getenv( "VERIF_REPO_DIR" ) )
        dictionary().load( repo );
    double t0 = wall();
    detail::WorkerStats total;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> per_facet;
    bool violated = false;
    std::string vmsg, vfacet;
    for( auto & f : facets() )
    {
        if( !only.empty() && only != f.name )
            continue;
        uint64_t n = uint64_t( double( tier == "thorough" ? f.thorough : f.quick ) * scale );
        auto r     = run_facet( f, n, seed, workers, t0 + budget, tmpl );
        per_facet[f.name] = r.stats.cases;
        total.cases += r.stats.cases;
        total.nontriv += r.stats.nontriv;
        total.truncated = total.truncated || r.stats.truncated;
        for( auto & [k, v] : r.stats.labels )
            total.labels[f.name + "/" + k] += v;
        for( auto h : r.stats.hashes )
            distinct.insert( h ^ hash_str( f.name ) );
        for( size_t i = 0; i < r.stats.samples.size() && i < 2; i++ )
            total.samples.push_back( r.stats.samples[i] );
        fprintf( stderr, "  %-28s %8lu cases, %8lu non-trivial, %.1f s%s\n", f.name.c_str(),
                 (unsigned long)r.stats.cases, (unsigned long)r.stats.nontriv, wall() - t0,
                 r.violated ? "  VIOLATED" : "" );
        if( r.violated )
        {
            violated = true;
            vmsg     = r.msg;
            vfacet   = r.facet;
            write_replay( replay_out, r.facet, r.choices, r.msg, r.desc );
            fprintf( stderr, "  failure: %s\n%s\n", r.msg.c_str(), r.desc.substr( 0, 3000 ).c_str() );
            break;
        }
    }
    std::vector<std::string> manifest;
    if( !violated )
    {
        for( auto & k : knowns() )
        {
            // A probe runs the case in a child like any other
            std::string d = tmpl + "/known";
            std::filesystem::create_directories( d );
            int fd[2];
            if( pipe( fd ) != 0 )
                return 2;
            fflush( nullptr );
            pid_t pid = fork();
            if( pid == 0 )
            {
                detail::enter_child( d );
                std::string what;
                bool m = false;
                try
                {
                    m = k.probe( what );
                }
                catch( const std::exception & e )
                {
                    m    = true;
                    what = std::string( "exception: " ) + e.what();
                }
                if( m && write( fd[1], what.data(), what.size() ) < 0 )
                    _exit( 2 );
                _exit( m ? 77 : 0 );
            }
            close( fd[1] );
            std::string what;
            char buf[512];
            ssize_t n;
            while( ( n = read( fd[0], buf, sizeof buf ) ) > 0 )
                what.append( buf, n );
            close( fd[0] );
            int status = 0;
            waitpid( pid, &status, 0 );
            if( !( WIFEXITED( status ) && WEXITSTATUS( status ) == 0 ) )
                manifest.push_back( k.id + "\t" + what );
        }
    }
    std::ofstream o( out );
    o << "{\n\"evaluations\": " << total.cases << ",\n\"nontrivial\": " << total.nontriv
      << ",\n\"distinct_nontrivial\": " << distinct.size() << ",\n\"truncated\": " << ( total.truncated ? "true" : "false" )
      << ",\n\"rule\": \"" << json_escape( rule_text() ) << "\",\n\"facets\": {";
    bool first = true;
    for( auto & [k, v] : per_facet )
    {
        o << ( first ? "" : ", " ) << '"' << json_escape( k ) << "\": " << v;
        first = false;
    }
    o << "},\n\"labels\": {";
    first = true;
    for( auto & [k, v] : total.labels )
    {
        o << ( first ? "" : ", " ) << '"' << json_escape( k ) << "\": " << v;
        first = false;
    }
    o << "},\n\"samples\": [";
    first = true;
    for( auto & s : total.samples )
    {
        o << ( first ? "" : ", " ) << '"' << json_escape( s ) << '"';
        first = false;
    }
    o << "],\n\"manifest\": [";
    first = true;
    for( auto & s : manifest )
    {
        o << ( first ? "" : ", " ) << '"' << json_escape( s ) << '"';
        first = false;
    }
    o << "],\n\"violated\": " << ( violated ? "true" : "false" ) << ",\n\"facet\": \"" << json_escape( vfacet )
      << "\",\n\"message\": \"" << json_escape( vmsg ) << "\",\n\"wall_s\": " << ( wall() - t0 ) << "\n}\n";
    return violated ? 1 : 0;
}

#ifdef PBT_FUZZ
extern "C" void __sanitizer_set_death_callback( void ( *callback )( void ) );
// The first byte selects the facet, the others are the choices. A failing case leaves a replay file in $VERIF_FUZZ_DIR.
namespace fuzz
{
inline SharedSlot * slot    = nullptr;
inline const Facet * facet  = nullptr;
inline std::string dir, scratch;
inline std::vector<const Facet *> eligible;
inline uint64_t n_cases = 0, n_nontriv = 0;
inline std::unordered_set<uint64_t> distinct;

inline void dump( const char * msg )
{
    if( !facet )
        return;
    std::vector<uint64_t> ch( slot->choices, slot->choices + slot->n_choices );
    write_replay( dir + "/fail_" + std::to_string( getpid() ) + ".txt", facet->name, ch, msg, "" );
    facet = nullptr;
}
inline void on_death()
{
    dump( "crashed while fuzzing" );
}
inline void stats()
{
    std::ofstream o( dir + "/stats_" + std::to_string( getpid() ) );
    o << n_cases << ' ' << n_nontriv << ' ' << distinct.size() << '\n';
}
inline int initialize()
{
    fuzzing() = true;
    dir       = getenv( "VERIF_FUZZ_DIR" ) ? getenv( "VERIF_FUZZ_DIR" ) : ".";
    scratch   = dir + "/w_XXXXXX";
    slot      = detail::map_slot();
    if( !mkdtemp( scratch.data() ) || chdir( scratch.c_str() ) != 0 || !freopen( "/dev/null", "w", stdout ) )
        abort();
    std::string only = getenv( "VERIF_FUZZ_FACETS" ) ? getenv( "VERIF_FUZZ_FACETS" ) : "";
    for( auto & f : facets() )
        if( f.name.size() < 6 || f.name.substr( f.name.size() - 6 ) != "_large" )
            if( only.empty() || ( "," + only + "," ).find( "," + f.name + "," ) != std::string::npos )
                eligible.push_back( &f );
    if( eligible.empty() )
        abort();
    __sanitizer_set_death_callback( on_death );
    std::atexit( stats );
    return 0;
}
inline int one( const uint8_t * data, size_t size )
{
    if( size < 2 )
        return 0;
    facet = eligible[data[0] % eligible.size()];
    Src src( data + 1, size - 1, slot );
    Ctx ctx;
    ctx.scratch = scratch;
    std::string msg;
    try
    {
        facet->fn( src, ctx );
        facet = nullptr;
    }
    catch( const Discard & )
    {
        facet = nullptr;
        return -1;
    }
    catch( const Failure & e )
    {
        msg = e.msg;
    }
    catch( const std::exception & e )
    {
        msg = std::string( "unexpected exception: " ) + e.what();
    }
    catch( ... )
    {
        msg = "unexpected exception of unknown type";
    }
    if( facet )
    {
        dump( msg.c_str() );
        abort();
    }
    n_cases++;
    if( ctx.nontriv )
    {
        n_nontriv++;
        if( distinct.size() < 1000000 )
            distinct.insert( src.digest() );
    }
    return 0;
}
} // namespace fuzz
#endif

struct AddFacet
{
    AddFacet( const char * name, uint64_t quick, uint64_t thorough, std::function<void( Src &, Ctx & )> fn )
    {
        facets().push_back( { name, std::move( fn ), quick, thorough } );
    }
};
struct AddKnown
{
    AddKnown( const char * id, std::function<bool( std::string & )> probe )
    {
        knowns().push_back( { id, std::move( probe ) } );
    }
};
struct Setup
{
    Setup( const char * id, const char * rule )
    {
        property_id() = id;
        rule_text()   = rule;
    }
};

} // namespace pbt

#define PBT_PROPERTY( id, rule ) static pbt::Setup pbt_setup_( id, rule )
#define PBT_FACET( name, quick, thorough )                                                                             \
    static void facet_##name( pbt::Src & s, pbt::Ctx & c );                                                            \
    static pbt::AddFacet add_facet_##name( #name, quick, thorough, facet_##name );                                     \
    static void facet_##name( [[maybe_unused]] pbt::Src & s, [[maybe_unused]] pbt::Ctx & c )
// The same property with big sizes, wherever the facet draws them with Src::count or asks large_max()
#define PBT_LARGE( name, max, quick, thorough )                                                                        \
    static pbt::AddFacet add_facet_large_##name( #name "_large", quick, thorough, []( pbt::Src & s, pbt::Ctx & c ) {   \
        struct Reset                                                                                                   \
        {                                                                                                              \
            ~Reset()                                                                                                   \
            {                                                                                                          \
                pbt::large_max() = 0;                                                                                  \
            }                                                                                                          \
        } reset;                                                                                                       \
        pbt::large_max() = max;                                                                                        \
        facet_##name( s, c );                                                                                          \
    } )
#define PBT_KNOWN( name, id )                                                                                          \
    static bool known_##name( std::string & what );                                                                    \
    static pbt::AddKnown add_known_##name( id, known_##name );                                                         \
    static bool known_##name( [[maybe_unused]] std::string & what )

#if defined( PBT_FUZZ ) && !defined( PBT_NO_MAIN )
#define PBT_NO_MAIN
extern "C" int LLVMFuzzerInitialize( int *, char *** )
{
    return pbt::fuzz::initialize();
}
extern "C" int LLVMFuzzerTestOneInput( const uint8_t * data, size_t size )
{
    return pbt::fuzz::one( data, size );
}
#endif
#ifndef PBT_NO_MAIN
extern "C" const char * __asan_default_options()
{
    return "detect_leaks=0:exitcode=79:allocator_may_return_null=0:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:"
           "handle_abort=1:allow_addr2line=0:symbolize=1:malloc_context_size=8:quarantine_size_mb=16";
}
extern "C" const char * __ubsan_default_options()
{
    return "print_stacktrace=1:exitcode=79";
}
int main( int argc, char ** argv )
{
    return pbt::main_impl( argc, argv );
}
#endif
