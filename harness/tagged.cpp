// Replays the transitions of TaggedHandle.tla on the real handle classes.   tagged EDGES OUT SEED
#ifdef VERIF_DCAS
#    include <boost/lockfree/detail/prefix.hpp>
#    undef BOOST_LOCKFREE_PTR_COMPRESSION
#endif
#include <boost/lockfree/detail/atomic.hpp>
#include <boost/lockfree/detail/freelist.hpp>
#include <boost/lockfree/detail/tagged_ptr.hpp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace bld = boost::lockfree::detail;
struct Target
{
    int a;
    int b;
};
#ifdef HANDLE_INDEX
typedef bld::tagged_index Handle;
typedef std::uint16_t     Raw;
static Raw                addr( Handle const& h )
{
    return h.get_index();
}
static void set_addr( Handle& h, Raw p )
{
    h.set_index( p );
}
static void set_both( Handle& h, Raw p, Handle::tag_t t )
{
    h = Handle( p, t );
}
static bool extras( Handle const&, Raw )
{
    return true;
}
static Raw raw( std::uint64_t x )
{
    return (Raw)x;
}
#else
typedef bld::tagged_ptr< Target > Handle;
typedef Target*                   Raw;
static Raw                        addr( Handle const& h )
{
    return h.get_ptr();
}
static void set_addr( Handle& h, Raw p )
{
    h.set_ptr( p );
}
static void set_both( Handle& h, Raw p, Handle::tag_t t )
{
    h.set( p, t );
}
static bool extras( Handle const& h, Raw p )
{
    return (bool)h == ( p != 0 ) && h.operator->() == p && ( !p || &*h == p );
}
static Raw raw( std::uint64_t x )
{
    return (Raw)(std::uintptr_t)x;
}
#endif

struct Obs
{
    int p, t, n;
};
struct Edge
{
    Obs         x, y, a;
    std::string o;
    int         p, t, r;
    Obs         x2, y2, a2;
    int         eq;
};
static std::vector< Raw > conc;
typedef Handle::tag_t     Tag;
// Tags wider than 16 bits: the tags of the model stand for the lowest ones (upper = false), or the upper half of them for
// the highest ones (upper = true).  One step of the circle is not a step of the real one then.
static const bool wide = sizeof( Tag ) > 2;
static bool       upper = false;
static Tag        tg( int t )
{
    return wide && upper && t >= 32768 ? (Tag)( (Tag)0 - (Tag)( 65536 - t ) ) : (Tag)t;
}
static bool seam( int t )
{
    return wide && t == ( upper ? 32767 : 65535 );
}
static Handle mk( Obs const& o )
{
    return Handle( conc[ o.p ], tg( o.t ) );
}
static bool is( Handle const& h, Obs const& o )
{
    return addr( h ) == conc[ o.p ] && h.get_tag() == tg( o.t ) && ( seam( o.t ) || h.get_next_tag() == tg( o.n ) ) && extras( h, conc[ o.p ] );
}
static const char* replay( Edge const& e )
{
    if ( e.o == "bump" && seam( e.x.t ) )
        return 0;
    Handle                       x( mk( e.x ) ), y( mk( e.y ) );
    boost::lockfree::detail::atomic< Handle > a( mk( e.a ) );
    if ( !is( x, e.x ) || !is( y, e.y ) || !is( a.load(), e.a ) )
        return "construction";
    Raw p = conc[ e.p ];
    if ( e.o == "new" )
        x = Handle( p, tg( e.t ) );
    else if ( e.o == "new1" )
        x = Handle( p );
    else if ( e.o == "set" )
        set_both( x, p, tg( e.t ) );
    else if ( e.o == "setp" )
        set_addr( x, p );
    else if ( e.o == "sett" )
        x.set_tag( tg( e.t ) );
    else if ( e.o == "bump" )
        x.set_tag( x.get_next_tag() );
    else if ( e.o == "copy" )
        y = x;
    else if ( e.o == "swap" )
        std::swap( x, y );
    else if ( e.o == "store" )
        a.store( x );
    else if ( e.o == "load" )
        x = a.load();
    else if ( e.o == "cas" ) {
        if ( a.compare_exchange_strong( x, y ) != ( e.r == 1 ) )
            return "result of the compare-exchange";
    } else
        return "unknown operation";
    Handle c( x );
    if ( !is( x, e.x2 ) || !is( c, e.x2 ) )
        return "first handle";
    if ( !is( y, e.y2 ) )
        return "second handle";
    if ( !is( a.load(), e.a2 ) )
        return "atomic handle";
    if ( ( x == y ) != ( e.eq == 1 ) || ( x != y ) != ( e.eq == 0 ) || !( x == c ) || x != c )
        return "comparison";
    return 0;
}

int main( int argc, char** argv )
{
    std::ifstream       in( argv[ 1 ] );
    FILE*               out = std::fopen( argv[ 2 ], "w" );
    std::vector< Edge > edges;
    std::string         line;
    while ( std::getline( in, line ) ) {
        std::stringstream s( line );
        Edge              e;
        s >> e.x.p >> e.x.t >> e.x.n >> e.y.p >> e.y.t >> e.y.n >> e.a.p >> e.a.t >> e.a.n >> e.o >> e.p >> e.t >> e.r >> e.x2.p >> e.x2.t >> e.x2.n
            >> e.y2.p >> e.y2.t >> e.y2.n >> e.a2.p >> e.a2.t >> e.a2.n >> e.eq;
        if ( !s ) {
            std::fprintf( stderr, "bad edge %s\n", line.c_str() );
            return 3;
        }
        edges.push_back( e );
    }
    // concrete addresses: real objects, every single bit of the usable range, all ones, neighbours, random ones
#ifdef HANDLE_INDEX
    const int bits = 16;
#else
    const int bits = 48;
#endif
    const bool few = argc > 5;
    std::uint64_t                                         all = ( std::uint64_t( 1 ) << bits ) - 1;
    std::vector< std::pair< std::uint64_t, std::uint64_t > > maps;
    for ( int i = 0; i < ( few ? 0 : bits ); ++i ) {
        std::uint64_t b = std::uint64_t( 1 ) << i;
        maps.push_back( std::make_pair( b, all & ~b ) );
        maps.push_back( std::make_pair( b, ( b << 1 ) & all ? ( b << 1 ) & all : 1 ) );
    }
    static Target real[ 2 ];
    maps.push_back( std::make_pair( (std::uint64_t)(std::uintptr_t)&real[ 0 ] & all, (std::uint64_t)(std::uintptr_t)&real[ 1 ] & all ) );
    maps.push_back( std::make_pair( all, all - 1 ) );
    maps.push_back( std::make_pair( all >> 1, all ) );
    std::uint64_t r = std::strtoull( argv[ 3 ], 0, 10 ) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
    long          n = std::atol( argv[ 4 ] );
    for ( long i = 0; i < n; ++i ) {
        std::uint64_t v[ 2 ];
        for ( int k = 0; k < 2; ++k ) {
            r ^= r << 13, r ^= r >> 7, r ^= r << 17;
            v[ k ] = r & all;
        }
        if ( v[ 0 ] && v[ 1 ] && v[ 0 ] != v[ 1 ] )
            maps.push_back( std::make_pair( v[ 0 ], v[ 1 ] ) );
    }
    long done = 0, bad = 0;
    for ( size_t m = 0; m < maps.size() && bad < 5; ++m ) {
        if ( !maps[ m ].first || !maps[ m ].second || maps[ m ].first == maps[ m ].second )
            continue;
        conc.clear();
        conc.push_back( raw( 0 ) );
        conc.push_back( raw( maps[ m ].first ) );
        conc.push_back( raw( maps[ m ].second ) );
        for ( int u = 0; u <= (int)wide && bad < 5; ++u )
        for ( Edge const& e : edges ) {
            upper = u == 1;
            const char* w = replay( e );
            ++done;
            if ( w ) {
                std::fprintf( out, "{\"bad\":\"%s\",\"op\":\"%s\",\"from\":[[%d,%d],[%d,%d],[%d,%d]],\"arg\":[%d,%d],\"expected\":[[%d,%d],[%d,%d],[%d,%d]],\"addresses\":[\"0x%llx\",\"0x%llx\"]}\n", w,
                              e.o.c_str(), e.x.p, e.x.t, e.y.p, e.y.t, e.a.p, e.a.t, e.p, e.t, e.x2.p, e.x2.t, e.y2.p, e.y2.t, e.a2.p, e.a2.t,
                              (unsigned long long)maps[ m ].first, (unsigned long long)maps[ m ].second );
                if ( ++bad >= 5 )
                    break;
            }
        }
    }
    std::fprintf( out, "{\"done\":%ld,\"maps\":%zu}\n", done, maps.size() );
    std::fclose( out );
    return 0;
}
