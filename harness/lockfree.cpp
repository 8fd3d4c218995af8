// What does is_lock_free() answer on platforms with different lock-free atomics?   lockfree OUT
// atomic<> is replaced by one that knows which object sizes are lock-free "here" and records the sizes of the
// objects that operations touch.  One JSON line per configuration and platform.
#ifdef VERIF_DCAS
#    include <boost/lockfree/detail/prefix.hpp>
#    undef BOOST_LOCKFREE_PTR_COMPRESSION
#endif
#define LOCKFREE_VERIF_ATOMIC_HPP // instead of lockfree_verif/atomic.hpp
#include <atomic>
#include <cstdio>
#include <cstring>
#include <set>
#include <string>
#include <vector>

static std::set< int > used;      // sizes of the atomic objects touched
static unsigned        platform;  // bit i: objects of 2^i bytes are lock-free
static bool            free_size( size_t s )
{
    for ( int i = 0; i < 5; ++i )
        if ( s <= ( size_t( 1 ) << i ) )
            return platform >> i & 1;
    return false;
}
namespace lockfree_verif {
template < typename T >
class atomic
{
    std::atomic< T > v_;
    void             touch() const
    {
        used.insert( (int)sizeof( T ) );
    }

public:
    typedef T             value_type;
    static constexpr bool is_always_lock_free = false;
    atomic() = default;
    atomic( T x ) :
        v_( x )
    {}
    atomic( atomic const& )            = delete;
    atomic& operator=( atomic const& ) = delete;
    bool is_lock_free() const
    {
        return free_size( sizeof( T ) );
    }
    T load( std::memory_order o = std::memory_order_seq_cst ) const
    {
        touch();
        return v_.load( o );
    }
    operator T() const
    {
        return load();
    }
    void store( T x, std::memory_order o = std::memory_order_seq_cst )
    {
        touch();
        v_.store( x, o );
    }
    T operator=( T x )
    {
        store( x );
        return x;
    }
    T exchange( T x, std::memory_order o = std::memory_order_seq_cst )
    {
        touch();
        return v_.exchange( x, o );
    }
    template < class... O >
    bool compare_exchange_weak( T& e, T d, O... o )
    {
        touch();
        return v_.compare_exchange_weak( e, d, o... );
    }
    template < class... O >
    bool compare_exchange_strong( T& e, T d, O... o )
    {
        touch();
        return v_.compare_exchange_strong( e, d, o... );
    }
#define RMW( F )                                                 \
    T F( T x, std::memory_order o = std::memory_order_seq_cst )  \
    {                                                            \
        touch();                                                 \
        return v_.F( x, o );                                     \
    }
    RMW( fetch_add )
    RMW( fetch_sub )
    RMW( fetch_and )
    RMW( fetch_or )
    RMW( fetch_xor )
#undef RMW
};
} // namespace lockfree_verif

#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/spsc_queue.hpp>
#include <boost/lockfree/stack.hpp>
namespace bl = boost::lockfree;

static FILE* f;
template < class C >
static void run( const char* name, C* ( *make )() )
{
    for ( platform = 0; platform < 32; ++platform ) {
        used.clear();
        C*          c      = make();
        C const&    k      = *c;
        std::string answers;
        auto        ask = [ & ] { answers += std::string( answers.empty() ? "" : "," ) + ( k.is_lock_free() ? "true" : "false" ); };
        ask();
        int x = 0;
        for ( int i = 0; i < 3; ++i ) {
            c->push( i );
            ask();
        }
        (void)c->empty();
        c->pop( x );
        ask();
        c->consume_one( []( int ) {} );
        c->consume_all( []( int ) {} );
        c->pop( x );
        ask();
        delete c;
        std::string u, p;
        for ( int s : used )
            u += ( u.empty() ? "" : "," ) + std::to_string( s );
        for ( int i = 0; i < 5; ++i )
            if ( platform >> i & 1 )
                p += ( p.empty() ? "" : "," ) + std::to_string( 1 << i );
        std::fprintf( f, "{\"cfg\":\"%s\",\"used\":[%s],\"free\":[%s],\"ev\":[%s]}\n", name, u.c_str(), p.c_str(), answers.c_str() );
    }
}
template < class C >
static C* def()
{
    return new C;
}
template < class C >
static C* four()
{
    return new C( 4 );
}
int main( int, char** v )
{
    f = std::fopen( v[ 1 ], "w" );
    run( "stack", &four< bl::stack< int > > );
    run( "stack fixed_sized", &four< bl::stack< int, bl::fixed_sized< true > > > );
    run( "queue", &four< bl::queue< int > > );
    run( "queue fixed_sized", &four< bl::queue< int, bl::fixed_sized< true > > > );
    run( "spsc_queue", &four< bl::spsc_queue< int > > );
    run( "stack capacity", &def< bl::stack< int, bl::capacity< 4 > > > );
    run( "queue capacity", &def< bl::queue< int, bl::capacity< 4 > > > );
    run( "spsc_queue capacity", &def< bl::spsc_queue< int, bl::capacity< 4 > > > );
    return std::fclose( f );
}
