// Replays walks through the state graph of SeqContainer.tla on every configuration and overload of the real
// containers.   seq WALKS OUT
// A walk:   cap steps...      step:  op variant n args | n | delivered    (see lib/seqcheck.py)
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <deque>
#include <forward_list>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <list>
#include <memory>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>
#ifdef KIND_STACK
#    include <boost/lockfree/stack.hpp>
#endif
#ifdef KIND_QUEUE
#    include <boost/lockfree/queue.hpp>
#endif
#ifdef KIND_SPSC
#    include <boost/lockfree/spsc_queue.hpp>
#endif

namespace bl = boost::lockfree;

// ---------------------------------------------------------------- element types
struct Obj // must be copied by its copy constructor and destroyed by its destructor
{
    Obj* self;
    int  v;
    Obj() : self( this ), v( -1 ) {}
    Obj( int i ) : self( this ), v( i ) {}
    Obj( Obj const& o ) : self( this ), v( o.get() ) {}
    Obj& operator=( Obj const& o )
    {
        v = o.get();
        return *this;
    }
    ~Obj()
    {
        self = 0;
        v    = -55;
    }
    int get() const
    {
        return self == this ? v : -66;
    }
};
struct FromObj
{
    int v;
    FromObj() : v( -1 ) {}
    FromObj( Obj const& o ) : v( o.get() ) {}
};
struct Big
{
    int a[ 40 ];
    Big() {}
    Big( int i )
    {
        for ( int k = 0; k < 40; ++k )
            a[ k ] = i * 41 + k;
    }
    int get() const
    {
        for ( int k = 1; k < 40; ++k )
            if ( a[ k ] != a[ 0 ] + k )
                return -66;
        return a[ 0 ] / 41;
    }
};
struct FromBig
{
    int v;
    FromBig() : v( -1 ) {}
    FromBig( Big const& b ) : v( b.get() ) {}
};
inline int val( int x ) { return x; }
inline int val( long x ) { return (int)x; }
inline int val( signed char x ) { return x; }
inline int val( Obj const& x ) { return x.get(); }
inline int val( FromObj const& x ) { return x.v; }
inline int val( Big const& x ) { return x.get(); }
inline int val( FromBig const& x ) { return x.v; }
template < class T > struct conv;
template <> struct conv< int > { typedef long type; };
template <> struct conv< signed char > { typedef int type; };
template <> struct conv< Obj > { typedef FromObj type; };
template <> struct conv< Big > { typedef FromBig type; };

// ---------------------------------------------------------------- steps
struct Step
{
    std::string        op;
    int                var;
    int                via = 1; // through which mapping of the container
    std::vector< int > a;
    long               n;
    std::vector< int > d;
};
struct Walk
{
    int                 id, cap;
    bool                observe;
    std::vector< Step > st;
    std::vector< int >  rest; // content at the end
};

struct Out
{
    long               n = -1;
    std::vector< int > d;
};

static Out* sink;
template < class T >
void fun_sink( T const& x )
{
    sink->d.push_back( val( x ) );
}
template < class T >
void fun_sink_mut( T& x )
{
    sink->d.push_back( val( x ) );
}
struct FSink
{
    template < class T >
    void operator()( T const& x )
    {
        sink->d.push_back( val( x ) );
    }
};
struct CSink
{
    template < class T >
    void operator()( T const& x ) const
    {
        sink->d.push_back( val( x ) );
    }
};
struct OnlyMutable // refuses to be called through const
{
    int calls;
    template < class T >
    void operator()( T const& x )
    {
        ++calls;
        sink->d.push_back( val( x ) );
    }
};

template < class T >
std::vector< T > values( std::vector< int > const& a )
{
    std::vector< T > v;
    v.reserve( a.size() + 1 );
    for ( int i : a )
        v.push_back( T( i ) );
    return v;
}

// apply a generic consume call with every kind of functor
#define CONSUME( call, T )                                              \
    switch ( s.var ) {                                                  \
    case 0: {                                                           \
        FSink f;                                                        \
        o.n = (long)c.call( f );                                        \
        break;                                                          \
    }                                                                   \
    case 1: {                                                           \
        const CSink f = CSink();                                        \
        o.n           = (long)c.call( f );                              \
        break;                                                          \
    }                                                                   \
    case 2:                                                             \
        o.n = (long)c.call( []( T const& x ) { sink->d.push_back( val( x ) ); } ); \
        break;                                                          \
    case 3:                                                             \
        o.n = (long)c.call( fun_sink< T > );                            \
        break;                                                          \
    case 4: {                                                           \
        std::function< void( T const& ) > f = fun_sink< T >;            \
        o.n                                 = (long)c.call( f );        \
        break;                                                          \
    }                                                                   \
    case 5: {                                                           \
        OnlyMutable f = { 0 };                                          \
        o.n           = (long)c.call( f );                              \
        if ( f.calls != (int)o.d.size() )                               \
            o.n = -44;                                                  \
        break;                                                          \
    }                                                                   \
    default: return false;                                              \
    }

template < class It, class C >
long range_push( C& c, int how, It b, It e )
{
    It r = how == 0 ? c.push( b, e ) : how == 1 ? c.bounded_push( b, e ) : c.unsynchronized_push( b, e );
    long n = 0;
    while ( b != r && n < 1000 ) {
        if ( b == e )
            return -33; // the returned iterator is not in the range
        ++b;
        ++n;
    }
    return n;
}

// an iterator that can go over its range once only, like std::istream_iterator
template < class T >
struct once
{
    typedef std::input_iterator_tag iterator_category;
    typedef T                       value_type;
    typedef std::ptrdiff_t          difference_type;
    typedef T const*                pointer;
    typedef T const&                reference;
    struct stream
    {
        std::vector< T > const& v;
        std::size_t             at;
        T const* get() { return at < v.size() ? &v[ at++ ] : 0; }
    };
    stream*  s;
    T const* cur;
    once() :
        s( 0 ),
        cur( 0 )
    {}
    explicit once( stream& x ) :
        s( &x ),
        cur( x.get() )
    {}
    T const& operator*() const { return *cur; }
    T const* operator->() const { return cur; }
    once&    operator++()
    {
        cur = s->get();
        return *this;
    }
    once operator++( int )
    {
        once r = *this;
        ++*this;
        return r;
    }
    bool operator==( once const& o ) const { return cur == o.cur; }
    bool operator!=( once const& o ) const { return cur != o.cur; }
};
// only where every element finds a node: what a rejected element means for such a range is not defined
template < class T, class C >
bool pushes_once( C& c, int how, std::vector< int > const& a, Out& o )
{
    std::vector< T > const     v = values< T >( a );
    typename once< T >::stream st = { v, 0 };
    once< T > const            b( st ), e;
    o.n = ( how == 0 ? c.push( b, e ) : c.unsynchronized_push( b, e ) ) == e ? (long)v.size() : -34;
    return true;
}

template < class T, class C >
bool pushes( C& c, int how, int it, std::vector< int > const& a, Out& o )
{
    std::vector< T > v = values< T >( a );
    switch ( it ) {
    case 0: {
        std::vector< T > const& cv = v;
        o.n = range_push( c, how, cv.begin(), cv.end() );
        return true;
    }
    case 1: o.n = range_push( c, how, v.data(), v.data() + v.size() ); return true;
    case 2: {
        std::list< T > l( v.begin(), v.end() );
        o.n = range_push( c, how, l.begin(), l.end() );
        return true;
    }
    case 3: {
        std::forward_list< T > l( v.begin(), v.end() );
        o.n = range_push( c, how, l.cbegin(), l.cend() );
        return true;
    }
    case 4: {
        std::deque< T > l( v.begin(), v.end() );
        o.n = range_push( c, how, l.begin(), l.end() );
        return true;
    }
    }
    return false;
}

template < class C, bool Node >
struct reserver
{
    static bool go( C&, int, int ) { return false; }
};
template < class C >
struct reserver< C, true >
{
    static bool go( C& c, int n, int v )
    {
        if ( v == 0 )
            c.reserve( n );
        else
            c.reserve_unsafe( n );
        return true;
    }
};

// ---------------------------------------------------------------- stack and queue
#ifndef KIND_SPSC
template < class T, class C, bool Node >
bool step( C& c, Step const& s, Out& o )
{
    typedef typename conv< T >::type U;
    std::string const&               op = s.op;
    if ( op == "push" ) {
        const T x( s.a[ 0 ] );
        o.n = s.var == 0 ? c.push( x ) : s.var == 1 ? c.unsynchronized_push( x ) : c.push( T( s.a[ 0 ] ) );
    } else if ( op == "bpush" ) {
        const T x( s.a[ 0 ] );
        o.n = s.var == 0 ? c.bounded_push( x ) : c.bounded_push( T( s.a[ 0 ] ) );
    } else if ( op == "pop" ) {
        if ( s.var == 0 || s.var == 2 ) {
            T x( 77 );
            o.n = s.var == 0 ? c.pop( x ) : c.unsynchronized_pop( x );
            if ( o.n )
                o.d.push_back( val( x ) );
        } else {
            U x;
            o.n = s.var == 1 ? c.pop( x ) : c.unsynchronized_pop( x );
            if ( o.n )
                o.d.push_back( val( x ) );
        }
    } else if ( op == "c1" ) {
        CONSUME( consume_one, T )
    } else if ( op == "call" ) {
        CONSUME( consume_all, T )
    } else if ( op == "empty" ) {
        C const& cc = c;
        o.n         = cc.empty();
    } else if ( op == "res" ) {
        o.n = 0;
        return reserver< C, Node >::go( c, s.a[ 0 ], s.var );
    }
#    ifdef KIND_STACK
    else if ( op == "rpush" ) {
        if ( s.var >= 10 ) // the same as pushing from a vector, but for node-based stacks
            return Node ? pushes_once< T >( c, s.var - 10, s.a, o ) : pushes< T >( c, s.var == 10 ? 0 : 2, 0, s.a, o );
        return pushes< T >( c, s.var >= 5 ? 2 : 0, s.var % 5, s.a, o );
    } else if ( op == "rbpush" ) {
        return pushes< T >( c, 1, s.var, s.a, o );
    } else if ( op == "cata" ) {
        CONSUME( consume_all_atomic, T )
    } else if ( op == "catr" ) {
        CONSUME( consume_all_atomic_reversed, T )
    }
#    endif
    else
        return false;
    return true;
}
#else
// ---------------------------------------------------------------- spsc_queue
template < class T, std::size_t N, class C >
bool push_arr( C& c, std::vector< int > const& a, Out& o )
{
    T x[ N ];
    for ( std::size_t i = 0; i < N; ++i )
        x[ i ] = T( a[ i ] );
    T const( &cx )[ N ] = x;
    o.n                 = (long)c.push( cx );
    return true;
}
template < class T, std::size_t N, class C >
bool pop_arr( C& c, Out& o )
{
    T x[ N ];
    o.n = (long)c.pop( x );
    for ( long i = 0; i < (long)N && i < o.n; ++i )
        o.d.push_back( val( x[ i ] ) );
    return true;
}
template < class T, class C, bool Node >
bool step( C& c, Step const& s, Out& o )
{
    typedef typename conv< T >::type U;
    std::string const&               op = s.op;
    if ( op == "push" ) {
        const T x( s.a[ 0 ] );
        o.n = s.var == 0 ? c.push( x ) : c.push( T( s.a[ 0 ] ) );
    } else if ( op == "pushn" ) {
        std::vector< T > v = values< T >( s.a );
        long             n = (long)v.size();
        if ( s.var == 0 )
            o.n = (long)c.push( (T const*)v.data(), v.size() );
        else if ( s.var == 1 )
            return n == 1 ? push_arr< T, 1 >( c, s.a, o ) : n == 2 ? push_arr< T, 2 >( c, s.a, o ) : n == 3 ? push_arr< T, 3 >( c, s.a, o )
                 : n == 4 ? push_arr< T, 4 >( c, s.a, o ) : n == 5 ? push_arr< T, 5 >( c, s.a, o ) : n == 6 ? push_arr< T, 6 >( c, s.a, o ) : false;
        else {
            std::list< T >         l( v.begin(), v.end() );
            std::forward_list< T > fl( v.begin(), v.end() );
            if ( s.var == 2 )
                o.n = c.push( v.begin(), v.end() ) - v.begin();
            else if ( s.var == 3 )
                o.n = std::distance( l.cbegin(), c.push( l.cbegin(), l.cend() ) );
            else
                o.n = std::distance( fl.begin(), c.push( fl.begin(), fl.end() ) );
        }
    } else if ( op == "pop" ) {
        if ( s.var == 0 ) {
            T x( 77 );
            o.n = c.pop( x );
            if ( o.n )
                o.d.push_back( val( x ) );
        } else {
            U x;
            o.n = c.pop( x );
            if ( o.n )
                o.d.push_back( val( x ) );
        }
    } else if ( op == "popv" ) {
        o.n = c.pop();
        o.d = s.d; // not observable
    } else if ( op == "popn" ) {
        int k = s.a[ 0 ];
        if ( s.var == 0 ) {
            std::vector< T > v( k + 1 );
            o.n = (long)c.pop( v.data(), (std::size_t)k );
            for ( long i = 0; i < o.n && i <= k; ++i )
                o.d.push_back( val( v[ i ] ) );
        } else
            return k == 1 ? pop_arr< T, 1 >( c, o ) : k == 2 ? pop_arr< T, 2 >( c, o ) : k == 3 ? pop_arr< T, 3 >( c, o )
                 : k == 4 ? pop_arr< T, 4 >( c, o ) : k == 5 ? pop_arr< T, 5 >( c, o ) : k == 6 ? pop_arr< T, 6 >( c, o ) : false;
    } else if ( op == "popi" ) {
        if ( s.var == 0 ) {
            std::vector< T > v;
            o.n = (long)c.pop( std::back_inserter( v ) );
            for ( T const& x : v )
                o.d.push_back( val( x ) );
        } else if ( s.var == 1 ) {
            std::deque< U > v;
            o.n = (long)c.pop( std::front_inserter( v ) );
            for ( auto i = v.rbegin(); i != v.rend(); ++i )
                o.d.push_back( val( *i ) );
        } else {
            std::vector< T > v( 64 );
            o.n = (long)c.pop( v.begin() );
            for ( long i = 0; i < o.n && i < 64; ++i )
                o.d.push_back( val( v[ i ] ) );
        }
    } else if ( op == "c1" ) {
        CONSUME( consume_one, T )
    } else if ( op == "call" ) {
        CONSUME( consume_all, T )
    } else if ( op == "empty" ) {
        o.n = c.empty();
    } else if ( op == "ra" ) {
        C const& cc = c;
        o.n         = (long)cc.read_available();
    } else if ( op == "wa" ) {
        C const& cc = c;
        o.n         = (long)cc.write_available();
    } else if ( op == "front" ) {
        o.n = 1;
        if ( s.var == 0 )
            o.d.push_back( val( c.front() ) );
        else {
            C const& cc = c;
            T const& x  = cc.front();
            o.d.push_back( val( x ) );
        }
    } else if ( op == "reset" ) {
        c.reset();
        o.n = 0;
    } else
        return false;
    return true;
}
#endif

// ---------------------------------------------------------------- running walks
static FILE*                              out;
static std::vector< Walk >                walks;
static std::string                        config;
static int                                cur_walk, cur_step;
static long                               steps_done, failures;
static std::vector< std::string >         seen_calls;

static void list( std::string& s, std::vector< int > const& v )
{
    s += "[";
    for ( size_t i = 0; i < v.size(); ++i )
        s += ( i ? "," : "" ) + std::to_string( v[ i ] );
    s += "]";
}

static void fail( Step const& s, Out const& o, const char* what )
{
    if ( ++failures > 20 )
        return;
    std::string x = "{\"bad\":\"" + std::string( what ) + "\",\"config\":\"" + config + "\",\"walk\":" + std::to_string( cur_walk )
                  + ",\"step\":" + std::to_string( cur_step ) + ",\"op\":\"" + s.op + "\",\"variant\":" + std::to_string( s.var ) + ",\"args\":";
    list( x, s.a );
    x += ",\"expected\":" + std::to_string( s.n ) + ",\"expected_delivered\":";
    list( x, s.d );
    x += ",\"got\":" + std::to_string( o.n ) + ",\"got_delivered\":";
    list( x, o.d );
    x += "}\n";
    std::fputs( x.c_str(), out );
    std::fflush( out );
}

#ifndef VERIF_MAPPED
enum { MAPPINGS = 1 };
template < class C >
C* via( C* c, int )
{
    return c;
}
// nodes keep what earlier owners wrote, so the memory under a container is not zero
template < class C >
struct Holder
{
    typename std::aligned_storage< sizeof( C ), ( alignof( C ) < 64 ? 64 : alignof( C ) ) >::type* mem;
    C* c;
    Holder() : c( 0 )
    {
        std::size_t n = ( sizeof( *mem ) + 63 ) / 64 * 64;
        mem           = (decltype( mem ))std::aligned_alloc( alignof( C ) < 64 ? 64 : alignof( C ), n );
        std::memset( (void*)mem, 0xA7, n );
    }
    template < class... A >
    C& make( A const&... a )
    {
        c = new ( (void*)mem ) C( a... );
        return *c;
    }
    ~Holder()
    {
        if ( c )
            c->~C();
        std::free( (void*)mem );
    }
};

#else
// The container lives in memory that is mapped at several addresses, only one of which is accessible at a time.
enum { MAPPINGS = VERIF_MAPPED, MAPSIZE = 1 << 18 };
static char* maps[ MAPPINGS ];
static int   open_map = -1;
static void  open_mapping( int k )
{
    if ( k == open_map )
        return;
    if ( open_map >= 0 )
        mprotect( maps[ open_map ], MAPSIZE, PROT_NONE );
    mprotect( maps[ k ], MAPSIZE, PROT_READ | PROT_WRITE );
    open_map = k;
}
static void make_maps()
{
    if ( maps[ 0 ] )
        return;
    int fd = memfd_create( "lockfree", 0 );
    if ( fd < 0 || ftruncate( fd, MAPSIZE ) != 0 ) {
        std::fprintf( stderr, "no shared memory\n" );
        std::_Exit( 3 );
    }
    for ( int k = 0; k < MAPPINGS; ++k ) {
        void* p = mmap( (void*)( 0x100000000000ull + ( 0x10000000000ull + 0x1000ull * 7 ) * ( k * k + 1 ) ), MAPSIZE, PROT_NONE, MAP_SHARED, fd, 0 );
        if ( p == MAP_FAILED ) {
            std::fprintf( stderr, "mmap failed\n" );
            std::_Exit( 3 );
        }
        maps[ k ] = (char*)p;
    }
}
template < class C >
C* via( C* c, int k )
{
    open_mapping( k - 1 );
    return (C*)( maps[ k - 1 ] + ( (char*)c - maps[ 0 ] ) );
}
template < class C >
struct Holder
{
    C* c;
    Holder() :
        c( 0 )
    {
        static_assert( sizeof( C ) + 4096 < MAPSIZE, "container too large" );
        make_maps();
        open_mapping( 0 );
        std::memset( maps[ 0 ], 0xA7, sizeof( C ) + 4096 );
    }
    template < class... A >
    C& make( A const&... a )
    {
        c = new ( (void*)maps[ 0 ] ) C( a... );
        return *c;
    }
    ~Holder()
    {
        if ( c )
            via( c, MAPPINGS )->~C();
    }
};
#endif

template < class T, bool Node, class C >
void play( C& c, Walk const& w )
{
    cur_walk = w.id;
    for ( size_t i = 0; i < w.st.size(); ++i ) {
        cur_step      = (int)i;
        Step const& s = w.st[ i ];
        Out         o;
        sink = &o;
        bool known = false;
        try {
            known = step< T, C, Node >( *via( &c, s.via ), s, o );
        } catch ( ... ) {
            o.n = -22;
            known = true;
        }
        if ( !known ) {
            std::fprintf( stderr, "unknown step %s.%d in %s\n", s.op.c_str(), s.var, config.c_str() );
            std::_Exit( 3 );
        }
        ++steps_done;
        if ( o.n != s.n || o.d != s.d ) {
            fail( s, o, "result" );
            return;
        }
    }
    Step s;
    Out  o;
    s.op  = "drain";
    s.var = 0;
    s.n   = (long)w.rest.size();
    s.d   = w.rest;
    for ( int i = 0; i < 64; ++i ) {
        T x( 77 );
        if ( !via( &c, i % MAPPINGS + 1 )->pop( x ) )
            break;
        o.d.push_back( val( x ) );
    }
    o.n = (long)o.d.size();
    cur_step = (int)w.st.size();
    if ( o.d != s.d )
        fail( s, o, "content" );
}

#ifdef VERIF_SEVERAL
// two containers of the same type (SeveralContainers.tla)
static bool foreign_block; // a block was returned to an allocator that is not equal to the one it came from
static long blocks;        // outstanding
template < class A >
A vary( A const& a, int )
{
    return a;
}
template < class T >
struct Al;
template < class T >
Al< T > vary( Al< T > const& a, int k ) // unequal allocators
{
    Al< T > x( a );
    x.id += k;
    return x;
}
template < class C >
struct Mover // puts what it is given into another container
{
    C*   to;
    Out* o;
    long n; // refused
    template < class T >
    void operator()( T const& x )
    {
        o->d.push_back( val( x ) );
        if ( !to->push( x ) )
            ++n;
    }
};
struct Nested // drains another container while it is called for the first element
{
    struct State
    {
        void* other;
        Out*  o;
        long  inner;
    };
    State* st;
    void*  unused;
};
template < class C >
struct NestF : Nested
{
    template < class T >
    void operator()( T const& x ) const
    {
        st->o->d.push_back( val( x ) );
        if ( C* c = (C*)st->other ) {
            NestF f;
            f.st      = st;
            st->other = 0;
            st->inner = (long)c->consume_all( f ); // the same instance as the outer call, if that is consume_all(F&)
        }
    }
};
template < class C >
void nest_all( C& c, C& other, Step const& s, Out& o )
{
    Nested::State st = { &other, &o, -1 };
    NestF< C >    f;
    f.st                = &st;
    NestF< C > const cf = f;
    switch ( s.var ) {
    case 0: o.n = (long)c.consume_all( f ); break;
    case 1: o.n = (long)c.consume_all( cf ); break;
#    ifdef KIND_STACK
    case 2: o.n = (long)c.consume_all_atomic( f ); break;
    case 3: o.n = (long)c.consume_all_atomic( cf ); break;
#    endif
    }
    if ( st.inner != s.a[ 0 ] )
        o.n = -56;
}
template < class C >
struct MoveIt // output iterator
{
    Mover< C >* m;
    typedef std::output_iterator_tag iterator_category;
    typedef void                     value_type;
    typedef void                     difference_type;
    typedef void                     pointer;
    typedef void                     reference;
    MoveIt& operator*() { return *this; }
    MoveIt& operator++() { return *this; }
    MoveIt& operator++( int ) { return *this; }
    template < class T >
    MoveIt& operator=( T const& x )
    {
        ( *m )( x );
        return *this;
    }
};
template < class C >
void move_all( C& from, C& to, Step const& s, Out& o )
{
    Mover< C > m = { &to, &o, 0 };
#    ifdef KIND_STACK
    o.n = (long)( s.var == 0 ? from.consume_all( m ) : from.consume_all_atomic( m ) );
#    elif defined( KIND_SPSC )
    MoveIt< C > it = { &m };
    o.n            = (long)( s.var == 0 ? from.consume_all( m ) : from.pop( it ) );
#    else
    o.n = (long)from.consume_all( m );
#    endif
    if ( m.n != (long)( s.d.size() - s.a.size() ) )
        o.n = -55; // accepted more or fewer
}
template < class T, bool Node, class C, class... A >
void play_two( Walk const& w, A const&... a )
{
    cur_walk = w.id;
    Step s;
    Out  o;
    s.var  = 0;
    blocks = 0;
    foreign_block = false;
    {
        Holder< C > h[ 2 ];
        for ( int k = 0; k < 2; ++k )
            h[ k ].make( vary( a, k )... );
        int  k  = 0;
        bool ok = true;
        for ( size_t i = 0; ok && i < w.st.size(); ++i ) {
            cur_step = (int)i;
            s        = w.st[ i ];
            o        = Out();
            sink     = &o;
            ++steps_done;
            if ( s.op == "use" ) {
                k = s.a[ 0 ] - 1;
                continue;
            }
            if ( s.op == "new" ) {
                h[ k ].c->~C();
                h[ k ].make( vary( a, k )... );
                continue;
            }
            try {
                if ( s.op == "nst" )
                    nest_all( *h[ k ].c, *h[ 1 - k ].c, s, o );
                else if ( s.op == "mv" )
                    move_all( *h[ k ].c, *h[ 1 - k ].c, s, o );
                else if ( !step< T, C, Node >( *h[ k ].c, s, o ) ) {
                    std::fprintf( stderr, "unknown step %s.%d in %s\n", s.op.c_str(), s.var, config.c_str() );
                    std::_Exit( 3 );
                }
            } catch ( ... ) {
                o.n = -22;
            }
            if ( o.n != s.n || o.d != s.d ) {
                fail( s, o, "result" );
                ok = false;
            }
        }
        s.op = "drain";
        s.n  = (long)w.rest.size();
        s.d  = w.rest;
        o    = Out();
        for ( int j = 0; ok && j < 2; ++j, k = 1 - k ) {
            T x( 77 );
            for ( int i = 0; i < 64 && h[ k ].c->pop( x ); ++i )
                o.d.push_back( val( x ) );
            h[ k ].c->~C(); // before the other one is looked at
            h[ k ].c = 0;
        }
        o.n      = (long)o.d.size();
        cur_step = (int)w.st.size();
        if ( ok && o.d != s.d ) {
            fail( s, o, "content" );
            ok = false;
        }
        if ( !ok )
            return;
    }
    if ( foreign_block )
        fail( s, o, "memory of one container given to the allocator of another" );
    else if ( blocks )
        fail( s, o, "memory is not returned" );
}
#endif

template < class T, bool Node, class C, class... A >
void all( std::string const& name, int cap, A const&... a )
{
    config = name;
    for ( Walk const& w : walks ) {
        if ( w.cap != cap )
            continue;
#ifdef VERIF_SEVERAL
        play_two< T, Node, C >( w, a... );
#else
        Holder< C > h;
        C&          c = h.make( a... );
        play< T, Node >( c, w );
#endif
    }
    seen_calls.push_back( name );
}

template < class T >
struct Al // minimal allocator
{
    typedef T value_type;
    template < class U >
    struct rebind
    {
        typedef Al< U > other;
    };
    typedef T*             pointer;
    typedef T const*       const_pointer;
    typedef T&             reference;
    typedef T const&       const_reference;
    typedef std::size_t    size_type;
    typedef std::ptrdiff_t difference_type;
    int                    id;
    Al( int i = 3 ) : id( i ) {}
    template < class U >
    Al( Al< U > const& o ) : id( o.id )
    {}
    T* allocate( std::size_t n )
    {
        void* p = std::malloc( n * sizeof( T ) + 64 );
        std::memset( p, 0xB3, n * sizeof( T ) + 64 );
        char* q   = (char*)p + 64 - (std::size_t)p % 64; // always room before q
        if ( q - (char*)p < 16 )
            q += 0;
        ( (void**)q )[ -1 ] = p;
#ifdef VERIF_SEVERAL
        ( (long*)q )[ -2 ] = id;
        ++blocks;
#endif
        return (T*)q;
    }
    void deallocate( T* p, std::size_t )
    {
#ifdef VERIF_SEVERAL
        foreign_block = foreign_block || ( (long*)p )[ -2 ] != id;
        --blocks;
#endif
        std::free( ( (void**)p )[ -1 ] );
    }
    template < class U >
    bool operator==( Al< U > const& o ) const
    {
        return id == o.id;
    }
    template < class U >
    bool operator!=( Al< U > const& o ) const
    {
        return id != o.id;
    }
};

#ifndef KIND_SPSC
#    ifdef KIND_STACK
template < class... X >
using Cont = bl::stack< X... >;
#    else
template < class... X >
using Cont = bl::queue< X... >;
#    endif

template < class T >
void node_based( std::string const& t )
{
    for ( int cap = 0; cap <= 2; ++cap ) {
        all< T, true, Cont< T > >( t + " node", cap, cap );
        all< T, true, Cont< T, bl::fixed_sized< false > > >( t + " fixed_sized<false>", cap, cap );
        all< T, true, Cont< T, bl::allocator< Al< T > > > >( t + " node allocator", cap, cap );
        all< T, true, Cont< T, bl::allocator< Al< T > > > >( t + " node allocator (n, alloc)", cap, cap,
                                                             typename Cont< T, bl::allocator< Al< T > > >::allocator( 5 ) );
        all< T, true, Cont< T, bl::allocator< Al< T > >, bl::fixed_sized< false > > >( t + " allocator, fixed_sized<false>", cap, cap );
    }
}

template < class T, int cap >
void bounded( std::string const& t )
{
    typedef Cont< T, bl::fixed_sized< true > >                                             F;
    typedef Cont< T, bl::fixed_sized< true >, bl::allocator< Al< T > > >                   FA;
    typedef Cont< T, bl::allocator< Al< T > >, bl::fixed_sized< true > >                   AF;
    typedef Cont< T, bl::capacity< cap > >                                                 K;
    typedef Cont< T, bl::capacity< cap >, bl::fixed_sized< true > >                        KF;
    typedef Cont< T, bl::fixed_sized< true >, bl::capacity< cap > >                        FK;
    typedef Cont< T, bl::capacity< cap >, bl::fixed_sized< false > >                       KN;
#    ifndef VERIF_MAPPED
    all< T, false, F >( t + " fixed_sized", cap, cap );
    all< T, false, FA >( t + " fixed_sized, allocator", cap, cap );
    all< T, false, AF >( t + " allocator, fixed_sized (n, alloc)", cap, cap, typename AF::allocator( 5 ) );
#    endif
    all< T, false, K >( t + " capacity", cap );
    all< T, false, KF >( t + " capacity, fixed_sized", cap );
    all< T, false, FK >( t + " fixed_sized, capacity", cap );
    all< T, false, KN >( t + " capacity, fixed_sized<false>", cap );
    all< T, false, K >( t + " capacity (alloc)", cap, typename K::allocator() );
}

template < class T >
void type( std::string const& t )
{
#    ifdef CLASS_N
    node_based< T >( t );
#    else
    bounded< T, 1 >( t );
    bounded< T, 2 >( t );
    bounded< T, 3 >( t );
    bounded< T, 4 >( t );
#    endif
}
#else
template < class T, int cap >
void ring( std::string const& t )
{
    all< T, false, bl::spsc_queue< T, bl::capacity< cap > > >( t + " capacity", cap );
#    ifndef VERIF_MAPPED
    all< T, false, bl::spsc_queue< T > >( t + " run-time sized", cap, (std::size_t)cap );
    all< T, false, bl::spsc_queue< T, bl::allocator< Al< T > > > >( t + " run-time sized allocator", cap, (std::size_t)cap );
    all< T, false, bl::spsc_queue< T, bl::allocator< Al< T > > > >( t + " run-time sized (n, alloc)", cap, (std::size_t)cap, Al< T >( 5 ) );
#    endif
    all< T, false, bl::spsc_queue< T, bl::capacity< cap > > >( t + " capacity (alloc)", cap, typename bl::spsc_queue< T, bl::capacity< cap > >::allocator() );
}
template < class T >
void type( std::string const& t )
{
    ring< T, 1 >( t );
    ring< T, 2 >( t );
    ring< T, 3 >( t );
    ring< T, 4 >( t );
}
#endif

static void crashed( int sig )
{
    if ( sig == SIGPROF ) {
        static long last = -1;
        static int  n    = 0;
        n                = last == steps_done ? n + 1 : 0;
        last             = steps_done;
        if ( n < 3 )
            return;
    }
    Step s;
    if ( cur_walk >= 0 && cur_walk < (int)walks.size() && cur_step < (int)walks[ cur_walk ].st.size() )
        s = walks[ cur_walk ].st[ cur_step ];
    Out o;
    fail( s, o, sig == SIGPROF ? "hang" : "crash" );
    std::fprintf( out, "{\"steps\":%ld,\"configs\":%zu,\"failures\":%ld}\n", steps_done, seen_calls.size(), failures );
    std::fflush( out );
    std::_Exit( 0 );
}

int main( int, char** argv )
{
    std::ifstream in( argv[ 1 ] );
    out = std::fopen( argv[ 2 ], "w" );
    std::string line;
    while ( std::getline( in, line ) ) {
        std::istringstream ss( line );
        Walk               w;
        int                n, obs;
        w.id = (int)walks.size();
        ss >> w.cap >> obs >> n;
        for ( int i = 0; i < n; ++i ) {
            Step s;
            int  k;
            ss >> s.op >> s.var >> k;
            std::size_t at = s.op.find( '@' );
            if ( at != std::string::npos ) {
                s.via = std::atoi( s.op.c_str() + at + 1 );
                s.op.resize( at );
            }
            for ( int j = 0, x; j < k && ss >> x; ++j )
                s.a.push_back( x );
            ss >> s.n >> k;
            for ( int j = 0, x; j < k && ss >> x; ++j )
                s.d.push_back( x );
            w.st.push_back( s );
        }
        int k;
        ss >> k;
        for ( int j = 0, x; j < k && ss >> x; ++j )
            w.rest.push_back( x );
        if ( !ss ) {
            std::fprintf( stderr, "bad walk %s\n", line.c_str() );
            return 3;
        }
        walks.push_back( w );
    }
    int sigs[] = { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF };
    for ( int s : sigs )
        std::signal( s, crashed );
    struct itimerval it;
    std::memset( &it, 0, sizeof it );
    it.it_interval.tv_sec = it.it_value.tv_sec = 4;
    setitimer( ITIMER_PROF, &it, 0 );
#ifdef TYPE_INT
    type< int >( "int" );
#endif
#ifdef TYPE_BIG
    type< Big >( "Big" );
#endif
#ifdef TYPE_CHAR
    type< signed char >( "char" );
#endif
#ifdef TYPE_OBJ
    type< Obj >( "Obj" );
#endif
    std::fprintf( out, "{\"steps\":%ld,\"configs\":%zu,\"failures\":%ld}\n", steps_done, seen_calls.size(), failures );
    std::fclose( out );
    return 0;
}
