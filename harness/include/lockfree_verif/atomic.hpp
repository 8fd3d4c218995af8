// Instrumented replacement of std::atomic<> for the verification build of boost.lockfree.
// Selected by the hook in boost/lockfree/detail/atomic.hpp (BOOST_LOCKFREE_VERIF_HOOKS).
// Every operation is a scheduling point of the deterministic scheduler and is reported with the memory
// order the library asked for.  The stored value is kept as the plain bits of T (the library overlays free
// list links on it) and compare-exchange compares bits, as std::atomic does.
#ifndef LOCKFREE_VERIF_ATOMIC_HPP
#define LOCKFREE_VERIF_ATOMIC_HPP

#include <atomic>
#include <cstddef>
#include <cstring>
#include <type_traits>

// the accesses of this class to its value are no plain accesses
#define LOCKFREE_VERIF_OWN __attribute__( ( no_sanitize( "thread" ) ) )

namespace lockfree_verif {

namespace rt {
enum atomic_kind { A_LOAD, A_STORE, A_RMW, A_CASF };
void before_atomic( const void* addr, std::size_t size, int kind );         // scheduling point, validity of memory
bool spurious_failure();                                                   // shall this weak CAS fail spuriously?
void after_atomic( const void* addr, int kind, std::memory_order order, std::size_t size ); // report
void load_value( const void* addr, void* value, std::size_t size, std::memory_order order ); // a load may see an older value
} // namespace rt

namespace detail_ {
constexpr std::size_t pow2_align( std::size_t s, std::size_t a )
{
    return ( s == 1 || s == 2 || s == 4 || s == 8 || s == 16 ) && s > a ? s : a;
}
inline std::memory_order fail_order( std::memory_order o )
{
    return o == std::memory_order_acq_rel   ? std::memory_order_acquire
           : o == std::memory_order_release ? std::memory_order_relaxed
                                            : o;
}
} // namespace detail_

template < typename T >
class atomic
{
    alignas( detail_::pow2_align( sizeof( T ), alignof( T ) ) ) T v_;

    LOCKFREE_VERIF_OWN static void clear_padding( T* p )
    {
#if defined( __has_builtin )
#    if __has_builtin( __builtin_clear_padding )
        if ( sizeof( T ) == 16 )
            __builtin_clear_padding( p ); // as std::atomic does
#    endif
#endif
        (void)p;
    }

    LOCKFREE_VERIF_OWN void set( T x )
    {
        clear_padding( &x );
        std::memcpy( static_cast< void* >( &v_ ), static_cast< const void* >( &x ), sizeof( T ) );
    }

    LOCKFREE_VERIF_OWN bool cas( T& e, const T& d, std::memory_order so, std::memory_order fo, bool weak )
    {
        rt::before_atomic( this, sizeof( T ), rt::A_RMW );
        clear_padding( &e );
        clear_padding( &v_ );
        bool const eq = std::memcmp( static_cast< const void* >( &v_ ), static_cast< const void* >( &e ), sizeof( T ) ) == 0;
        if ( eq && weak && rt::spurious_failure() ) {
            rt::after_atomic( this, rt::A_CASF, fo, sizeof( T ) );
            return false;
        }
        if ( eq ) {
            set( d );
            rt::after_atomic( this, rt::A_RMW, so, sizeof( T ) );
            return true;
        }
        std::memcpy( static_cast< void* >( &e ), static_cast< const void* >( &v_ ), sizeof( T ) );
        rt::after_atomic( this, rt::A_CASF, fo, sizeof( T ) );
        return false;
    }

public:
    typedef T value_type;
    static constexpr bool is_always_lock_free = sizeof( T ) <= 8;

    atomic() = default;
    atomic( T x ) :
        v_( x )
    {
        rt::after_atomic( this, rt::A_STORE, std::memory_order_relaxed, sizeof( T ) );
    }
    atomic( const atomic& )            = delete;
    atomic& operator=( const atomic& ) = delete;

    bool is_lock_free() const
    {
        return sizeof( T ) <= 8;
    }

    LOCKFREE_VERIF_OWN T load( std::memory_order o = std::memory_order_seq_cst ) const
    {
        rt::before_atomic( this, sizeof( T ), rt::A_LOAD );
        T r( v_ );
        rt::load_value( this, &r, sizeof( T ), o );
        rt::after_atomic( this, rt::A_LOAD, o, sizeof( T ) );
        return r;
    }
    LOCKFREE_VERIF_OWN operator T() const
    {
        return load();
    }

    LOCKFREE_VERIF_OWN void store( T x, std::memory_order o = std::memory_order_seq_cst )
    {
        rt::before_atomic( this, sizeof( T ), rt::A_STORE );
        set( x );
        rt::after_atomic( this, rt::A_STORE, o, sizeof( T ) );
    }
    LOCKFREE_VERIF_OWN T operator=( T x )
    {
        store( x );
        return x;
    }

    LOCKFREE_VERIF_OWN T exchange( T x, std::memory_order o = std::memory_order_seq_cst )
    {
        rt::before_atomic( this, sizeof( T ), rt::A_RMW );
        T r( v_ );
        set( x );
        rt::after_atomic( this, rt::A_RMW, o, sizeof( T ) );
        return r;
    }

    LOCKFREE_VERIF_OWN bool compare_exchange_weak( T& e, T d, std::memory_order so, std::memory_order fo )
    {
        return cas( e, d, so, fo, true );
    }
    LOCKFREE_VERIF_OWN bool compare_exchange_weak( T& e, T d, std::memory_order o = std::memory_order_seq_cst )
    {
        return cas( e, d, o, detail_::fail_order( o ), true );
    }
    LOCKFREE_VERIF_OWN bool compare_exchange_strong( T& e, T d, std::memory_order so, std::memory_order fo )
    {
        return cas( e, d, so, fo, false );
    }
    LOCKFREE_VERIF_OWN bool compare_exchange_strong( T& e, T d, std::memory_order o = std::memory_order_seq_cst )
    {
        return cas( e, d, o, detail_::fail_order( o ), false );
    }

    // integral read-modify-write operations (only instantiated when used)
    LOCKFREE_VERIF_OWN T fetch_add( T x, std::memory_order o = std::memory_order_seq_cst )
    {
        return rmw( [ x ]( T v ) { return T( v + x ); }, o );
    }
    LOCKFREE_VERIF_OWN T fetch_sub( T x, std::memory_order o = std::memory_order_seq_cst )
    {
        return rmw( [ x ]( T v ) { return T( v - x ); }, o );
    }
    LOCKFREE_VERIF_OWN T fetch_and( T x, std::memory_order o = std::memory_order_seq_cst )
    {
        return rmw( [ x ]( T v ) { return T( v & x ); }, o );
    }
    LOCKFREE_VERIF_OWN T fetch_or( T x, std::memory_order o = std::memory_order_seq_cst )
    {
        return rmw( [ x ]( T v ) { return T( v | x ); }, o );
    }
    LOCKFREE_VERIF_OWN T fetch_xor( T x, std::memory_order o = std::memory_order_seq_cst )
    {
        return rmw( [ x ]( T v ) { return T( v ^ x ); }, o );
    }
    T operator++()
    {
        return T( fetch_add( T( 1 ) ) + 1 );
    }
    T operator++( int )
    {
        return fetch_add( T( 1 ) );
    }
    T operator--()
    {
        return T( fetch_sub( T( 1 ) ) - 1 );
    }
    T operator--( int )
    {
        return fetch_sub( T( 1 ) );
    }
    T operator+=( T x )
    {
        return T( fetch_add( x ) + x );
    }
    T operator-=( T x )
    {
        return T( fetch_sub( x ) - x );
    }

private:
    template < typename F >
    LOCKFREE_VERIF_OWN T rmw( F f, std::memory_order o )
    {
        rt::before_atomic( this, sizeof( T ), rt::A_RMW );
        T r( v_ );
        set( f( r ) );
        rt::after_atomic( this, rt::A_RMW, o, sizeof( T ) );
        return r;
    }
};

} // namespace lockfree_verif

#endif
