// Runs long fill / drain programs on containers of every interesting size and writes what happened, run-length
// encoded, one JSON line per program.     sizes PROGRAMS OUT
// program:  cfg cap op:k op:k ...      cfg: N node based, F fixed_sized, C capacity<cap>, R spsc run-time sized
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iterator>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#ifdef KIND_STACK
#    include <boost/lockfree/stack.hpp>
#endif
#ifdef KIND_QUEUE
#    include <boost/lockfree/queue.hpp>
#endif
#ifdef KIND_SPSC
#    include <boost/lockfree/spsc_queue.hpp>
#endif
namespace bl = boost::lockfree;

static long allocs = 0, bytes_out = 0;
template < class T >
struct CountAlloc
{
    typedef T value_type;
    CountAlloc()
    {}
    template < class U >
    CountAlloc( CountAlloc< U > const& )
    {}
    template < class U >
    struct rebind
    {
        typedef CountAlloc< U > other;
    };
    typedef T*             pointer;
    typedef const T*       const_pointer;
    typedef T&             reference;
    typedef const T&       const_reference;
    typedef std::size_t    size_type;
    typedef std::ptrdiff_t difference_type;
    T* allocate( std::size_t n )
    {
        if ( n > ( std::size_t( 1 ) << 30 ) / sizeof( T ) )
            throw std::bad_alloc();
        void* p = 0;
        if ( posix_memalign( &p, 64, n * sizeof( T ) + 64 ) )
            throw std::bad_alloc();
        std::memset( p, 0xA5, n * sizeof( T ) );
        ++allocs;
        bytes_out += (long)( n * sizeof( T ) );
        return (T*)p;
    }
    void deallocate( T* p, std::size_t n )
    {
        bytes_out -= (long)( n * sizeof( T ) );
        std::free( p );
    }
    bool operator==( CountAlloc const& ) const
    {
        return true;
    }
    bool operator!=( CountAlloc const& ) const
    {
        return false;
    }
};

typedef int              T;
typedef CountAlloc< T >  AL;
static std::string       out;
static void              ev( const char* e, long from, long step, long n, long al, long k = 0 )
{
    char b[ 200 ];
    std::snprintf( b, sizeof b, "%s{\"e\":\"%s\",\"f\":%ld,\"d\":%ld,\"n\":%ld,\"al\":%ld,\"k\":%ld}", out.empty() ? "" : ",", e, from, step, n, al, k );
    out += b;
}
// delivered values, recorded as arithmetic runs; the last one carries what the call returned
static std::vector< int > got;
static void               runs( const char* more, const char* last, long ret, long k )
{
    size_t i = 0;
    long   total = (long)got.size(), parts = 0;
    do {
        size_t j = i + 1;
        long   step = j < got.size() ? (long)got[ j ] - got[ i ] : 1;
        while ( j < got.size() && (long)got[ j ] - got[ j - 1 ] == step )
            ++j;
        bool end = j >= got.size() || ++parts > 20;
        ev( end ? last : more, got.empty() ? 0 : got[ i ], step, got.empty() ? 0 : (long)( j - i ), ret, end ? k : total );
        if ( end )
            return;
        i = j;
    } while ( true );
}
struct Take
{
    void operator()( int v )
    {
        got.push_back( v );
    }
};
struct TakeC
{
    void operator()( int v ) const
    {
        got.push_back( v );
    }
};
// an input of consecutive values that needs no memory
struct Count : std::iterator< std::forward_iterator_tag, int, std::ptrdiff_t, const int*, int >
{
    int v;
    explicit Count( int x = 0 ) :
        v( x )
    {}
    int operator*() const
    {
        return v;
    }
    Count& operator++()
    {
        ++v;
        return *this;
    }
    Count operator++( int )
    {
        return Count( v++ );
    }
    bool operator==( Count o ) const
    {
        return v == o.v;
    }
    bool operator!=( Count o ) const
    {
        return v != o.v;
    }
};

#ifdef KIND_SPSC
template < class C >
bool bounded( C& c, int v )
{
    return c.push( v );
}
template < class C >
void reserve( C&, long, int )
{}
#else
template < class C >
bool bounded( C& c, int v )
{
    return c.bounded_push( v );
}
template < class C >
auto reserve( C& c, long n, int unsafe ) -> typename std::enable_if< C::verif_nodes >::type
{
    if ( unsafe )
        c.reserve_unsafe( n );
    else
        c.reserve( n );
}
template < class C >
auto reserve( C&, long, int ) -> typename std::enable_if< !C::verif_nodes >::type
{}
#endif

// operations that move many elements at once; what they are asked for (k), what they return (al) and what they move is recorded
template < class C >
bool bulk( C& c, std::string const& op, long k, long& size, long& pushed )
{
    got.clear();
    long ret = 0, al0 = allocs;
#ifdef KIND_STACK
    int first = (int)( size + 1 );
#else
    int first = (int)( pushed + 1 );
#endif
    if ( op == "call" ) {
        Take t;
        ret = (long)c.consume_all( t );
    } else if ( op == "callc" )
        ret = (long)c.consume_all( TakeC() );
#ifdef KIND_STACK
    else if ( op == "cata" ) {
        Take t;
        ret = (long)c.consume_all_atomic( t );
    } else if ( op == "catac" )
        ret = (long)c.consume_all_atomic( TakeC() );
    else if ( op == "catr" || op == "catrc" ) {
        Take t;
        ret = (long)( op == "catr" ? c.consume_all_atomic_reversed( t ) : c.consume_all_atomic_reversed( TakeC() ) );
        size -= (long)got.size();
        runs( "part", "takerev", ret, 0 );
        return true;
    } else if ( op == "rpush" || op == "rbpush" || op == "urpush" ) {
        Count b( first ), e( first + (int)k );
        Count r = op == "rpush" ? c.push( b, e ) : op == "rbpush" ? c.bounded_push( b, e ) : c.unsynchronized_push( b, e );
        ev( op == "rbpush" ? "brange" : "range", first, 1, r.v - first, allocs - al0, k );
        size += r.v - first;
        pushed += r.v - first;
        return true;
    }
#endif
#ifdef KIND_SPSC
    else if ( op == "rpush" || op == "npush" ) {
        long n;
        if ( op == "rpush" )
            n = c.push( Count( first ), Count( first + (int)k ) ).v - first;
        else {
            std::vector< int > in( k );
            for ( long i = 0; i < k; ++i )
                in[ i ] = first + (int)i;
            n = (long)c.push( in.data(), (std::size_t)k );
        }
        ev( "range", first, 1, n, allocs - al0, k );
        size += n;
        pushed += n;
        return true;
    } else if ( op == "npop" ) {
        std::vector< int > o( k + 8, -7 );
        ret = (long)c.pop( o.data(), (std::size_t)k );
        for ( long i = 0; i < k + 8 && o[ i ] != -7; ++i )
            got.push_back( o[ i ] );
        size -= (long)got.size();
        runs( "part", "take", ret, k );
        return true;
    } else if ( op == "ipop" )
        ret = (long)c.pop( std::back_inserter( got ) );
    else if ( op == "ra" || op == "wa" ) {
        ev( op.c_str(), 0, 0, (long)( op == "ra" ? c.read_available() : c.write_available() ), 0 );
        return true;
    }
#endif
    else
        return false;
    size -= (long)got.size();
    runs( "part", "take", ret, -1 );
    return true;
}

template < class C >
void steps( C& c, std::vector< std::pair< std::string, long > > const& ops )
{
    long size = 0, pushed = 0;
    for ( auto const& op : ops ) {
        long k = op.second;
        if ( op.first == "push" || op.first == "bpush" ) {
            long i = 0;
            while ( i < k ) {
#ifdef KIND_STACK
                long first = size + 1;
#else
                long first = pushed + 1;
#endif
                long al0 = allocs, n = 0, bad = 0;
                while ( i < k && ( op.first == "push" ? c.push( (int)( first + n ) ) : bounded( c, (int)( first + n ) ) ) )
                    ++n, ++i;
                size += n;
                pushed += n;
                if ( n )
                    ev( op.first == "push" ? "push" : "bpush", first, 1, n, allocs - al0 );
                al0 = allocs;
                while ( i < k && bad < 3 ) { // refused: and again
                    bool ok = op.first == "push" ? c.push( -1 ) : bounded( c, -1 );
                    if ( ok ) {
                        ev( "odd", 0, 0, 0, 0 );
                        return;
                    }
                    ++bad;
                }
                if ( bad )
                    ev( op.first == "push" ? "pushfail" : "bpushfail", 0, 0, bad, allocs - al0 );
                i += k; // no more after a failure
            }
        } else if ( op.first == "pop" ) {
            long i = 0, from = 0, step = 0, n = 0, prev = 0;
            int  v;
            for ( ; i < k; ++i ) {
                v = -7;
                if ( !c.pop( v ) )
                    break;
                if ( n >= 1 && v != prev + step && n > 1 ) {
                    ev( "pop", from, step, n, 0 );
                    n = 0;
                }
                if ( n == 0 )
                    from = v, step = 0;
                else if ( n == 1 )
                    step = v - prev;
                prev = v;
                ++n;
            }
            if ( n )
                ev( "pop", from, n > 1 ? step : 1, n, 0 );
            size -= i;
            if ( i < k )
                ev( "popfail", 0, 0, 1, 0 );
        } else if ( bulk( c, op.first, k, size, pushed ) ) {
        } else if ( op.first == "res" || op.first == "resu" ) {
            long al0 = allocs;
            reserve( c, k, op.first == "resu" );
            ev( "res", 0, 0, k, allocs - al0 );
        } else {
            std::fprintf( stderr, "unknown op %s\n", op.first.c_str() );
            std::_Exit( 3 );
        }
    }
    ev( "empty", 0, 0, c.empty(), 0 );
}

template < class C >
void program( std::vector< std::pair< std::string, long > > const& ops, std::unique_ptr< C > ( *make )( long ), long cap )
{
    long al0 = allocs, by0 = bytes_out;
    std::unique_ptr< C > c;
    try {
        c = make( cap );
    } catch ( std::exception const& ) {
        ev( "refused", 0, 0, 0, bytes_out - by0 );
        return;
    }
    ev( "new", 0, 0, 0, allocs - al0 );
    steps( *c, ops );
    c.reset();
    ev( "gone", 0, 0, 0, bytes_out - by0 );
}

#if defined( KIND_STACK ) || defined( KIND_QUEUE )
#    ifdef KIND_STACK
#        define BASE bl::stack
#    else
#        define BASE bl::queue
#    endif
struct N : BASE< T, bl::allocator< AL > >
{
    static const bool verif_nodes = true;
    N( long n ) :
        BASE< T, bl::allocator< AL > >( (std::size_t)n )
    {}
};
struct F : BASE< T, bl::fixed_sized< true >, bl::allocator< AL > >
{
    static const bool verif_nodes = false;
    F( long n ) :
        BASE< T, bl::fixed_sized< true >, bl::allocator< AL > >( (std::size_t)n )
    {}
};
template < std::size_t n >
struct C : BASE< T, bl::capacity< n >, bl::allocator< AL > >
{
    static const bool verif_nodes = false;
    C( long )
    {}
};
#else
struct R : bl::spsc_queue< T, bl::allocator< AL > >
{
    static const bool verif_nodes = false;
    R( long n ) :
        bl::spsc_queue< T, bl::allocator< AL > >( (std::size_t)n )
    {}
};
template < std::size_t n >
struct C : bl::spsc_queue< T, bl::capacity< n > >
{
    static const bool verif_nodes = false;
    C( long )
    {}
};
#endif
template < class X >
std::unique_ptr< X > make( long n )
{
    return std::unique_ptr< X >( new X( n ) );
}

int main( int, char** argv )
{
    std::ifstream in( argv[ 1 ] );
    FILE*         f = std::fopen( argv[ 2 ], "w" );
    std::string   line;
    int           id = 0;
    while ( std::getline( in, line ) ) {
        std::stringstream ss( line );
        std::string       cfg, w;
        long              cap;
        ss >> cfg >> cap;
        std::vector< std::pair< std::string, long > > ops;
        while ( ss >> w ) {
            size_t p = w.find( ':' );
            ops.push_back( std::make_pair( w.substr( 0, p ), std::atol( w.c_str() + p + 1 ) ) );
        }
        out.clear();
#ifdef KIND_SPSC
        if ( cfg == "R" )
            program< R >( ops, make< R >, cap );
#else
        if ( cfg == "N" )
            program< N >( ops, make< N >, cap );
        else if ( cfg == "F" )
            program< F >( ops, make< F >, cap );
#endif

#define CASE( k )                        \
    else if ( cfg == "C" && cap == k )   \
    {                                    \
        program< C< k > >( ops, make< C< k > >, cap ); \
    }
        VERIF_CAPS
        else
        {
            std::fprintf( stderr, "bad program %s\n", line.c_str() );
            std::_Exit( 3 );
        }
        // sizes beyond what TLC's integers hold are given by name
        std::string capname = cap < 0 || cap > 1000000000l ? "1000000000" : std::to_string( cap );
        std::fprintf( f, "{\"cfg\":\"%s\",\"cap\":%s,\"id\":%d,\"ev\":[%s]}\n", cfg.c_str(), capname.c_str(), id++, out.c_str() );
        std::fflush( f );
    }
    std::fclose( f );
    std::_Exit( 0 );
}
