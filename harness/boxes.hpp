// The containers under test behind one small interpreter interface.
// KIND_STACK / KIND_QUEUE / KIND_SPSC select what is compiled.
#ifndef VERIF_BOXES_HPP
#define VERIF_BOXES_HPP

#include "rt.hpp"

#ifdef VERIF_DCAS
#    include <boost/lockfree/detail/prefix.hpp>
#    undef BOOST_LOCKFREE_PTR_COMPRESSION
#endif
#include <iterator>
#include <memory>
#include <type_traits>
#ifdef KIND_STACK
#    include <boost/lockfree/stack.hpp>
#endif
#ifdef KIND_QUEUE
#    include <boost/lockfree/queue.hpp>
#endif
#ifdef KIND_SPSC
#    include <boost/lockfree/spsc_queue.hpp>
#endif
#ifdef KIND_FLIST
#    include <boost/lockfree/queue.hpp>
#    include <boost/lockfree/detail/freelist.hpp>
#endif

namespace bl = boost::lockfree;

struct Result
{
    long               n = -1;   // bool / count / value of an observer
    std::vector< int > got;      // delivered elements
    bool               deliver_events = false;
    int                tid            = 0;
};

// functor for the consume_* operations: every call is an event
struct Sink
{
    Result* r;
    template < class T >
    void operator()( T const& x ) const
    {
        rt::point();
        OUT o;
        o.take( x );
        r->got.push_back( o.value() );
        if ( r->deliver_events )
            rt::log( 'd', r->tid );
    }
};

// memory of the caller with exact bounds
template < class T >
struct UBuf
{
    T*  p;
    int n;
    explicit UBuf( int k ) :
        p( (T*)rt::user_alloc( k * sizeof( T ), alignof( T ) ) ),
        n( k )
    {
        for ( int i = 0; i < n; ++i )
            new ( p + i ) T();
    }
    explicit UBuf( std::vector< int > const& v ) :
        p( (T*)rt::user_alloc( v.size() * sizeof( T ), alignof( T ) ) ),
        n( (int)v.size() )
    {
        for ( int i = 0; i < n; ++i )
            new ( p + i ) T( v[ i ] );
    }
    ~UBuf()
    {
        for ( int i = 0; i < n; ++i )
            p[ i ].~T();
        rt::user_free( p );
    }
    UBuf( UBuf const& ) = delete;
    void take( Result& r, long k ) const
    {
        for ( long i = 0; i < k && i < n; ++i )
            r.got.push_back( p[ i ].value() );
    }
};
inline bool exact()
{
    return rt::mode & rt::M_EXT;
}

struct Box
{
    virtual ~Box()
    {}
    virtual void run( rt::Op const& op, Result& r ) = 0;
    virtual bool quiet_push( int v )               = 0; // initial content
    virtual bool quiet_pop( int& v )               = 0;
    virtual int  quiet_fill( int v, int limit )    = 0; // bounded pushes until failure
    virtual void destroy()                         = 0;
};

template < class C, class... A >
C* make_obj( A&&... a )
{
    void* p = rt::object_storage( sizeof( C ), alignof( C ) );
    return new ( p ) C( std::forward< A >( a )... );
}

#if defined( KIND_STACK ) || defined( KIND_QUEUE )
// reserve exists for node-based containers only
template < class C >
struct node_based : std::true_type
{};
template < class C, class Unsafe >
void do_reserve( C*, int, Unsafe, std::false_type )
{
    std::fprintf( stderr, "reserve: not a node-based container\n" );
    std::_Exit( 3 );
}
template < class C >
void do_reserve( C* c, int n, std::true_type, std::true_type )
{
    c->reserve_unsafe( n );
}
template < class C >
void do_reserve( C* c, int n, std::false_type, std::true_type )
{
    c->reserve( n );
}

template < class C, class T >
struct MpmcBox : Box
{
    C* c;
    template < class D >
    static void reserve( D* d, int n, bool unsafe, int )
    {
        if ( unsafe )
            do_reserve( d, n, std::true_type(), std::integral_constant< bool, node_based< D >::value >() );
        else
            do_reserve( d, n, std::false_type(), std::integral_constant< bool, node_based< D >::value >() );
    }
    explicit MpmcBox( C* x ) :
        c( x )
    {}
    void destroy()
    {
        c->~C();
        rt::object_gone( c );
    }
    bool quiet_push( int v )
    {
        return c->push( T( v ) );
    }
    bool quiet_pop( int& v )
    {
        OUT o;
        if ( !c->pop( o ) )
            return false;
        v = o.value();
        return true;
    }
    int quiet_fill( int v, int limit )
    {
        int n = 0;
        while ( n < limit && c->bounded_push( T( v + n ) ) )
            ++n;
        return n;
    }
    bool common( rt::Op const& op, Result& r )
    {
        std::string const& o = op.name;
        if ( o == "push" ) {
            T v( op.arg[ 0 ] );
            r.n = c->push( v );
        } else if ( o == "bpush" ) {
            T v( op.arg[ 0 ] );
            r.n = c->bounded_push( v );
        } else if ( o == "pop" ) {
            T v;
            r.n = c->pop( v );
            if ( r.n )
                r.got.push_back( v.value() );
        } else if ( o == "popu" ) {
            OUT v;
            r.n = c->pop( v );
            if ( r.n )
                r.got.push_back( v.value() );
        } else if ( o == "c1" ) {
            Sink s { &r };
            r.n = c->consume_one( s );
        } else if ( o == "c1c" ) {
            const Sink s { &r };
            r.n = c->consume_one( s );
        } else if ( o == "call" ) {
            Sink s { &r };
            r.deliver_events = true;
            r.n              = (long)c->consume_all( s );
        } else if ( o == "callc" ) {
            const Sink s { &r };
            r.deliver_events = true;
            r.n              = (long)c->consume_all( s );
        } else if ( o == "upush" ) {
            T v( op.arg[ 0 ] );
            r.n = c->unsynchronized_push( v );
        } else if ( o == "upop" ) {
            T v;
            r.n = c->unsynchronized_pop( v );
            if ( r.n )
                r.got.push_back( v.value() );
        } else if ( o == "upopu" ) {
            OUT v;
            r.n = c->unsynchronized_pop( v );
            if ( r.n )
                r.got.push_back( v.value() );
        } else if ( o == "res" || o == "resu" ) {
            r.n = 0;
            reserve( c, op.arg[ 0 ], o == "resu", 0 );
        } else if ( o == "empty" ) {
            r.n = c->empty();
        } else if ( o == "cyc" ) { // cyc:k  k pairs of pop and push of the same element, as one quiet step
            long bad = 0;
            for ( int i = 0; i < op.arg[ 0 ]; ++i ) {
                OUT v;
                if ( !c->pop( v ) )
                    ++bad;
                else if ( !c->push( T( v.value() ) ) )
                    ++bad;
            }
            r.n = bad == 0;
        } else
            return false;
        return true;
    }
};
#endif

#ifdef KIND_STACK
template < class C >
struct StackBox : MpmcBox< C, VS >
{
    typedef MpmcBox< C, VS > base;
    using base::c;
    explicit StackBox( C* x ) :
        base( x )
    {}
    void run( rt::Op const& op, Result& r )
    {
        std::string const& o = op.name;
        if ( base::common( op, r ) )
            return;
        if ( o == "cata" ) {
            Sink s { &r };
            r.deliver_events = true;
            r.n              = (long)c->consume_all_atomic( s );
        } else if ( o == "catac" ) {
            const Sink s { &r };
            r.deliver_events = true;
            r.n              = (long)c->consume_all_atomic( s );
        } else if ( o == "catr" ) {
            Sink s { &r };
            r.deliver_events = true;
            r.n              = (long)c->consume_all_atomic_reversed( s );
        } else if ( o == "catrc" ) {
            const Sink s { &r };
            r.deliver_events = true;
            r.n              = (long)c->consume_all_atomic_reversed( s );
        } else if ( o == "rpush" || o == "rbpush" || o == "urpush" ) {
            if ( exact() ) {
                UBuf< VS > v( op.arg );
                VS const * b = v.p, *e = v.p + v.n;
                r.n = ( o == "urpush" ? c->unsynchronized_push( b, e ) : o == "rpush" ? c->push( b, e ) : c->bounded_push( b, e ) ) - b;
                return;
            }
            std::vector< VS > v( op.arg.begin(), op.arg.end() );
            std::vector< VS >::const_iterator b = v.begin(), e = v.end();
            r.n = ( o == "urpush" ? c->unsynchronized_push( b, e ) : o == "rpush" ? c->push( b, e ) : c->bounded_push( b, e ) ) - b;
        } else {
            std::fprintf( stderr, "unknown op %s\n", o.c_str() );
            std::_Exit( 3 );
        }
    }
};

typedef TrackAlloc< VS >                                              AL;
typedef bl::stack< VS, bl::allocator< AL > >                          StackN;
typedef bl::stack< VS, bl::fixed_sized< true >, bl::allocator< AL > > StackF;
template <>
struct node_based< StackF > : std::false_type
{};
template < std::size_t n >
using StackC = bl::stack< VS, bl::capacity< n >, bl::allocator< AL > >;
template < std::size_t n >
struct node_based< bl::stack< VS, bl::capacity< n >, bl::allocator< AL > > > : std::false_type
{};

template < class C >
Box* wrap( C* c )
{
    return new StackBox< C >( c );
}

inline Box* make_box( std::string const& cfg, int cap )
{
    AL al( 7 );
    if ( cfg == "N" )
        return wrap( make_obj< StackN >( cap, typename StackN::allocator( al ) ) );
    if ( cfg == "F" )
        return wrap( make_obj< StackF >( cap, typename StackF::allocator( al ) ) );
    if ( cfg == "C" && cap == 1 )
        return wrap( make_obj< StackC< 1 > >( typename StackC< 1 >::allocator( al ) ) );
    if ( cfg == "C" && cap == 2 )
        return wrap( make_obj< StackC< 2 > >( typename StackC< 2 >::allocator( al ) ) );
    if ( cfg == "C" && cap == 3 )
        return wrap( make_obj< StackC< 3 > >( typename StackC< 3 >::allocator( al ) ) );
    if ( cfg == "C" && cap == 4 )
        return wrap( make_obj< StackC< 4 > >( typename StackC< 4 >::allocator( al ) ) );
    return 0;
}
#endif

#ifdef KIND_QUEUE
template < class C >
struct QueueBox : MpmcBox< C, VQ >
{
    typedef MpmcBox< C, VQ > base;
    explicit QueueBox( C* x ) :
        base( x )
    {}
    void run( rt::Op const& op, Result& r )
    {
        if ( !base::common( op, r ) ) {
            std::fprintf( stderr, "unknown op %s\n", op.name.c_str() );
            std::_Exit( 3 );
        }
    }
};

typedef TrackAlloc< VQ >                                              AL;
typedef bl::queue< VQ, bl::allocator< AL > >                          QueueN;
typedef bl::queue< VQ, bl::fixed_sized< true >, bl::allocator< AL > > QueueF;
template <>
struct node_based< QueueF > : std::false_type
{};
template < std::size_t n >
using QueueC = bl::queue< VQ, bl::capacity< n >, bl::allocator< AL > >;
template < std::size_t n >
struct node_based< bl::queue< VQ, bl::capacity< n >, bl::allocator< AL > > > : std::false_type
{};

template < class C >
Box* wrap( C* c )
{
    return new QueueBox< C >( c );
}

inline Box* make_box( std::string const& cfg, int cap )
{
    AL al( 7 );
    if ( cfg == "N" )
        return wrap( make_obj< QueueN >( cap, typename QueueN::allocator( al ) ) );
    if ( cfg == "F" )
        return wrap( make_obj< QueueF >( cap, typename QueueF::allocator( al ) ) );
    if ( cfg == "C" && cap == 1 )
        return wrap( make_obj< QueueC< 1 > >( typename QueueC< 1 >::allocator( al ) ) );
    if ( cfg == "C" && cap == 2 )
        return wrap( make_obj< QueueC< 2 > >( typename QueueC< 2 >::allocator( al ) ) );
    if ( cfg == "C" && cap == 3 )
        return wrap( make_obj< QueueC< 3 > >( typename QueueC< 3 >::allocator( al ) ) );
    if ( cfg == "C" && cap == 4 )
        return wrap( make_obj< QueueC< 4 > >( typename QueueC< 4 >::allocator( al ) ) );
    return 0;
}
#endif

#ifdef KIND_SPSC
template < class C >
struct SpscBox : Box
{
    typedef VS T;
    C*         c;
    explicit SpscBox( C* x ) :
        c( x )
    {}
    void destroy()
    {
        c->~C();
        rt::object_gone( c );
    }
    bool quiet_push( int v )
    {
        return c->push( T( v ) );
    }
    bool quiet_pop( int& v )
    {
        OUT o;
        if ( !c->pop( o ) )
            return false;
        v = o.value();
        return true;
    }
    int quiet_fill( int v, int limit )
    {
        int n = 0;
        while ( n < limit && c->push( T( v + n ) ) )
            ++n;
        return n;
    }
    static void take( Result& r, std::vector< T > const& v, long n )
    {
        for ( long i = 0; i < n && i < (long)v.size(); ++i )
            r.got.push_back( v[ i ].value() );
    }
    template < int N >
    void push_array( rt::Op const& op, Result& r )
    {
        if ( exact() ) {
            UBuf< T > v( op.arg );
            r.n = (long)c->push( *(T const( * )[ N ])v.p );
            return;
        }
        T a[ N ];
        for ( int i = 0; i < N; ++i )
            a[ i ] = T( op.arg[ i ] );
        T const( &ca )[ N ] = a;
        r.n                 = (long)c->push( ca );
    }
    template < int N >
    void pop_array( Result& r )
    {
        if ( exact() ) {
            UBuf< T > v( N );
            r.n = (long)c->pop( *(T( * )[ N ])v.p );
            v.take( r, r.n );
            return;
        }
        T a[ N ];
        r.n = (long)c->pop( a );
        for ( int i = 0; i < N && i < r.n; ++i )
            r.got.push_back( a[ i ].value() );
    }
    void run( rt::Op const& op, Result& r )
    {
        std::string const& o = op.name;
        if ( o == "push" ) {
            T v( op.arg[ 0 ] );
            r.n = c->push( v );
        } else if ( o == "pushr" && exact() ) {
            UBuf< T > v( op.arg );
            T const * b = v.p, *e = v.p + v.n;
            r.n = (long)( c->push( b, e ) - v.p );
        } else if ( o == "pushp" && exact() ) {
            UBuf< T > v( op.arg );
            r.n = (long)c->push( (T const*)v.p, (std::size_t)v.n );
        } else if ( o == "popp" && exact() ) {
            UBuf< T > v( op.arg[ 0 ] );
            r.n = (long)c->pop( v.p, (std::size_t)v.n );
            v.take( r, r.n );
        } else if ( o == "popi" && exact() ) {
            UBuf< T > v( 8 ); // more than any capacity used
            r.n = (long)c->pop( v.p );
            v.take( r, r.n );
        } else if ( o == "pushr" ) {
            std::vector< T >                   v( op.arg.begin(), op.arg.end() );
            std::vector< T >::const_iterator b = v.begin(), e = v.end();
            r.n = c->push( b, e ) - b;
        } else if ( o == "pushp" ) {
            std::vector< T > v( op.arg.begin(), op.arg.end() );
            r.n = (long)c->push( (T const*)v.data(), v.size() );
        } else if ( o == "pusha" ) {
            if ( op.arg.size() == 1 )
                push_array< 1 >( op, r );
            else if ( op.arg.size() == 2 )
                push_array< 2 >( op, r );
            else
                push_array< 3 >( op, r );
        } else if ( o == "pop" ) {
            T v;
            r.n = c->pop( v );
            if ( r.n )
                r.got.push_back( v.value() );
        } else if ( o == "popu" ) {
            OUT v;
            r.n = c->pop( v );
            if ( r.n )
                r.got.push_back( v.value() );
        } else if ( o == "popv" ) {
            r.n = c->pop();
        } else if ( o == "popp" ) {
            std::vector< T > v( op.arg[ 0 ] );
            r.n = (long)c->pop( v.data(), v.size() );
            take( r, v, r.n );
        } else if ( o == "popa" ) {
            if ( op.arg[ 0 ] == 1 )
                pop_array< 1 >( r );
            else if ( op.arg[ 0 ] == 2 )
                pop_array< 2 >( r );
            else
                pop_array< 3 >( r );
        } else if ( o == "popi" ) {
            std::vector< T > v;
            v.reserve( 16 );
            r.n = (long)c->pop( std::back_inserter( v ) );
            take( r, v, (long)v.size() );
        } else if ( o == "c1" ) {
            Sink s { &r };
            r.n = c->consume_one( s );
        } else if ( o == "c1c" ) {
            const Sink s { &r };
            r.n = c->consume_one( s );
        } else if ( o == "call" ) {
            Sink s { &r };
            r.n = (long)c->consume_all( s );
        } else if ( o == "callc" ) {
            const Sink s { &r };
            r.n = (long)c->consume_all( s );
        } else if ( o == "reset" ) {
            r.n = 0;
            c->reset();
        } else if ( o == "ra" ) {
            r.n = (long)c->read_available();
        } else if ( o == "wa" ) {
            r.n = (long)c->write_available();
        } else if ( o == "empty" ) {
            r.n = c->empty();
        } else if ( o == "front" ) { // guarded as documented
            r.n = c->read_available() > 0;
            if ( r.n ) {
                OUT v;
                v.take( c->front() );
                r.got.push_back( v.value() );
            }
        } else {
            std::fprintf( stderr, "unknown op %s\n", o.c_str() );
            std::_Exit( 3 );
        }
    }
};

typedef TrackAlloc< VS >                          AL;
typedef bl::spsc_queue< VS, bl::allocator< AL > > SpscR;
template < std::size_t n >
using SpscC = bl::spsc_queue< VS, bl::capacity< n > >;

template < class C >
Box* wrap( C* c )
{
    return new SpscBox< C >( c );
}

inline Box* make_box( std::string const& cfg, int cap )
{
    AL al( 7 );
    if ( cfg == "R" )
        return wrap( make_obj< SpscR >( cap, al ) );
    if ( cfg == "C" && cap == 1 )
        return wrap( make_obj< SpscC< 1 > >() );
    if ( cfg == "C" && cap == 2 )
        return wrap( make_obj< SpscC< 2 > >() );
    if ( cfg == "C" && cap == 3 )
        return wrap( make_obj< SpscC< 3 > >() );
    if ( cfg == "C" && cap == 4 )
        return wrap( make_obj< SpscC< 4 > >() );
    return 0;
}
#endif

#ifdef KIND_FLIST
struct FNode
{
    void* link; // the free list keeps its link here
    int   pad[ 2 ];
    FNode()
    {}
};

template < class F >
struct FlistBox : Box
{
    F*                   f;
    std::vector< void* > ids;
    std::vector< FNode* > held[ 8 ];
    explicit FlistBox( F* x, int n ) :
        f( x )
    {
        // number the nodes: take all of them out and put them back in the same order
        std::vector< FNode* > v;
        for ( int i = 0; i < n; ++i ) {
            FNode* p = f->template construct< true, true >();
            if ( !p )
                break;
            v.push_back( p );
        }
        for ( FNode* p : v )
            id( p );
        while ( !v.empty() ) {
            f->template destruct< true >( v.back() );
            v.pop_back();
        }
    }
    int id( void* p )
    {
        for ( size_t i = 0; i < ids.size(); ++i )
            if ( ids[ i ] == p )
                return (int)i + 1;
        ids.push_back( p );
        return (int)ids.size();
    }
    void destroy()
    {
        f->~F();
    }
    bool quiet_push( int )
    {
        return true;
    }
    bool quiet_pop( int& v )
    {
        FNode* p = f->template construct< true, true >();
        if ( !p )
            return false;
        v = id( p );
        return true;
    }
    int quiet_fill( int, int )
    {
        return 0;
    }
    void run( rt::Op const& op, Result& r )
    {
        std::string const& o = op.name;
        if ( o == "al" || o == "alu" ) {
            FNode* p = o == "al" ? f->template construct< true, true >() : f->template construct< true, false >();
            r.n      = p ? id( p ) : 0;
            if ( p )
                held[ r.tid ].push_back( p );
        } else if ( o == "fr" ) {
            size_t k = op.arg[ 0 ];
            r.n      = 0;
            if ( k < held[ r.tid ].size() ) {
                FNode* p = held[ r.tid ][ k ];
                held[ r.tid ].erase( held[ r.tid ].begin() + k );
                r.n = 1;
                r.got.push_back( id( p ) );
                f->template destruct< true >( p );
            }
        } else if ( o == "cyc" ) {
            for ( int i = 0; i < op.arg[ 0 ]; ++i ) {
                FNode* p = f->template construct< true, true >();
                if ( p )
                    f->template destruct< true >( p );
            }
            r.n = 1;
        } else {
            std::fprintf( stderr, "unknown op %s\n", o.c_str() );
            std::_Exit( 3 );
        }
    }
};
namespace bld = boost::lockfree::detail;
typedef TrackAlloc< FNode > FAL;
template < int n >
Box* flist_c()
{
    typedef bld::fixed_size_freelist< FNode, bld::compiletime_sized_freelist_storage< FNode, n > > F;
    return new FlistBox< F >( make_obj< F >( FAL( 7 ), (std::size_t)n ), n );
}
inline Box* make_box( std::string const& cfg, int cap )
{
    FAL al( 7 );
    if ( cfg == "N" ) {
        typedef bld::freelist_stack< FNode, FAL > F;
        return new FlistBox< F >( make_obj< F >( al, (std::size_t)cap ), cap );
    }
    if ( cfg == "F" ) {
        typedef bld::fixed_size_freelist< FNode, bld::runtime_sized_freelist_storage< FNode, FAL > > F;
        return new FlistBox< F >( make_obj< F >( al, (std::size_t)cap ), cap );
    }
    if ( cfg == "C" )
        return cap == 1 ? flist_c< 1 >() : cap == 2 ? flist_c< 2 >() : cap == 3 ? flist_c< 3 >() : cap == 4 ? flist_c< 4 >() : 0;
    return 0;
}
#endif

#endif
