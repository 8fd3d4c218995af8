#include "rt.hpp"

#include <algorithm>
#include <csignal>
#include <cxxabi.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace rt {

std::vector< Event > evs;
std::vector< int >   vals;
int                  mode   = M_HIST;
bool                 active = false;
int                  cur    = 0;
bool                 aborted = false;
long allocs_total = 0;
static long fail_alloc_at[ 16 ], fail_copy_at[ 16 ];
long live_cells = 0, live_total = 0;

void log( char e, int t, int k, int a, int b, int c )
{
    Event x;
    x.e  = e;
    x.t  = (int8_t)t;
    x.k  = (int16_t)k;
    x.a  = a;
    x.b  = b;
    x.c  = c;
    x.vo = 0;
    x.vn = 0;
    evs.push_back( x );
}

int log_vals( char e, int t, int k, int a, const int* v, int n )
{
    log( e, t, k, a );
    evs.back().vo = (int)vals.size();
    evs.back().vn = n;
    vals.insert( vals.end(), v, v + n );
    return (int)evs.size() - 1;
}

// ------------------------------------------------------------------ fibers
extern "C" void verif_switch( void** save, void* load );
asm( R"(
.text
.globl verif_switch
.type verif_switch,@function
verif_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size verif_switch,.-verif_switch
)" );

enum { MAXT = 6, STACK = 256 * 1024 };
struct Fiber
{
    void* sp;
    bool  done;
    bool  skip;  // next point belongs to the step that began the call
    bool  inop;
    int   solo, maxsolo;
    long  steps;
};
static long          idle_points; // points of the main thread in this execution
static void          on_signal( int );
static Fiber   fib[ MAXT + 1 ];
static char*   stacks  = 0;
static void*   main_sp = 0;
static int     nthr    = 0;
static body_fn g_body;
static void*   g_arg;

// ------------------------------------------------------------------ choices
struct Node
{
    uint8_t chosen, n;
};
static std::vector< Node > nodes;
static size_t              depth;
static int                 pb_used, sp_used, sr_used;
static long                steps;
static Explorer*           ex = 0;
static bool                forced = false;
static std::vector< uint8_t > forced_path;
static uint64_t            rng;
static int                 rr_left;
static size_t              rr_pos;

static uint64_t rnd()
{
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    return rng * 0x2545F4914F6CDD1Dull;
}

static int choose( int n, bool preemption )
{
    if ( n <= 1 )
        return 0;
    int r;
    if ( forced )
        r = depth < forced_path.size() ? forced_path[ depth ] : 0;
    else if ( ex->cfg.random ) {
        if ( preemption )
            r = ( rnd() % ex->cfg.rand_period ) ? 0 : 1 + (int)( rnd() % ( n - 1 ) );
        else
            r = (int)( rnd() % n );
        nodes.push_back( Node { (uint8_t)r, (uint8_t)n } );
    } else if ( depth < nodes.size() ) {
        r = nodes[ depth ].chosen;
        if ( nodes[ depth ].n != n ) {
            std::fprintf( stderr, "internal: non-deterministic execution at choice %zu\n", depth );
            std::_Exit( 3 );
        }
    } else {
        nodes.push_back( Node { 0, (uint8_t)n } );
        r = 0;
    }
    if ( r >= n )
        r = 0;
    ++depth;
    return r;
}

Explorer::Explorer( Config const& c ) :
    cfg( c )
{
    nodes.clear();
    rng    = c.seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    forced = false;
    ex     = this;
}

void Explorer::force( std::vector< uint8_t > const& p )
{
    forced      = true;
    forced_path = p;
}

void Explorer::begin()
{
    ex = this;
    evs.clear();
    vals.clear();
    depth = 0;
    if ( cfg.random )
        nodes.clear();
    pb_used = sp_used = sr_used = 0;
    steps             = 0;
    idle_points       = 0;
    aborted           = false;
    cur               = 0;
    active            = false;
    std::memset( fail_alloc_at, 0, sizeof fail_alloc_at );
    std::memset( fail_copy_at, 0, sizeof fail_copy_at );
    ++executions;
}

// every fiber has its own stack of caught exceptions
struct EhGlobals
{
    void*        caught;
    unsigned int uncaught;
};
static EhGlobals eh_saved[ MAXT + 1 ];
static EhGlobals& eh_globals()
{
    return *(EhGlobals*)abi::__cxa_get_globals();
}

static void to_main()
{
    void* dummy;
    verif_switch( &dummy, main_sp );
}

static void switch_to( int t )
{
    int from        = cur;
    cur             = t;
    fib[ t ].solo   = 0;
    eh_saved[ from ] = eh_globals();
    eh_globals()     = eh_saved[ t ];
    verif_switch( &fib[ from ].sp, fib[ t ].sp );
}

static int runnable( int* out, int first )
{
    int n = 0;
    if ( first )
        out[ n++ ] = first;
    for ( int t = 1; t <= nthr; ++t )
        if ( t != first && !fib[ t ].done )
            out[ n++ ] = t;
    return n;
}

static void abort_execution( int why )
{
    log( 'X', cur, why );
    aborted = true;
    active  = false;
    to_main();
    std::abort();
}

extern "C" void verif_fiber_main()
{
    g_body( g_arg, cur );
    fib[ cur ].done = true;
    int opt[ MAXT ];
    int n = runnable( opt, 0 );
    if ( n == 0 ) {
        active = false;
        to_main();
    }
    switch_to( opt[ choose( n, false ) ] );
    std::abort();
}

void Explorer::run( int nthreads, body_fn body, void* arg )
{
    if ( !stacks )
        stacks = (char*)mmap( 0, (size_t)STACK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
    nthr   = nthreads;
    g_body = body;
    g_arg  = arg;
    for ( int t = 1; t <= nthr; ++t ) {
        char*  top = stacks + (size_t)STACK * t;
        void** sp  = (void**)( (uintptr_t)top & ~(uintptr_t)15 );
        *--sp      = 0; // alignment / return address of verif_fiber_main
        *--sp      = (void*)&verif_fiber_main;
        for ( int i = 0; i < 6; ++i )
            *--sp = 0;
        fib[ t ].sp   = sp;
        fib[ t ].done = fib[ t ].skip = fib[ t ].inop = false;
        fib[ t ].solo = fib[ t ].maxsolo = 0;
        fib[ t ].steps                   = 0;
    }
    rr_pos  = 0;
    rr_left = cfg.rr.empty() ? 0 : cfg.rr[ 0 ] - '0';
    if ( nthr ) {
        int opt[ MAXT ];
        int n  = runnable( opt, 0 );
        active = true;
        cur    = opt[ choose( n, false ) ];
        std::memset( (void*)eh_saved, 0, sizeof eh_saved );
        EhGlobals mine = eh_globals();
        eh_globals()   = eh_saved[ 0 ];
        verif_switch( &main_sp, fib[ cur ].sp );
        eh_globals() = mine;
    }
    active = false;
    cur    = 0;
    path.clear();
    if ( forced )
        path = forced_path;
    else
        for ( size_t i = 0; i < nodes.size(); ++i )
            path.push_back( nodes[ i ].chosen );
    points += steps;
}

bool Explorer::next()
{
    if ( forced )
        return false;
    if ( cfg.random )
        return executions < cfg.random;
    if ( executions >= cfg.max_exec )
        return false;
    nodes.resize( std::min( nodes.size(), depth ) );
    while ( !nodes.empty() && nodes.back().chosen + 1 >= nodes.back().n )
        nodes.pop_back();
    if ( nodes.empty() ) {
        done = true;
        return false;
    }
    ++nodes.back().chosen;
    return true;
}

static void do_point()
{
    Fiber& f = fib[ cur ];
    ++f.steps;
    ++steps;
    if ( ++f.solo > f.maxsolo )
        f.maxsolo = f.solo;
    if ( f.solo > ex->cfg.solo_limit )
        abort_execution( 1 ); // stuck although everybody else stands still
    if ( steps > ex->cfg.step_limit )
        abort_execution( 2 );
    if ( f.skip ) {
        f.skip = false;
        return;
    }
    if ( !ex->cfg.rr.empty() ) {
        if ( --rr_left > 0 )
            return;
        rr_pos  = ( rr_pos + 1 ) % ex->cfg.rr.size();
        rr_left = ex->cfg.rr[ rr_pos ] - '0';
        for ( int k = 1; k < nthr; ++k ) {
            int t = ( cur - 1 + k ) % nthr + 1;
            if ( !fib[ t ].done ) {
                switch_to( t );
                return;
            }
        }
        return;
    }
    if ( ex->cfg.nopreempt & ( 1 << cur ) )
        return;
    if ( !ex->cfg.random && pb_used >= ex->cfg.pb && !forced )
        return;
    if ( forced && !ex->cfg.random && pb_used >= ex->cfg.pb )
        return;
    int opt[ MAXT ];
    int n = runnable( opt, cur );
    int r = choose( n, true );
    if ( r ) {
        ++pb_used;
        switch_to( opt[ r ] );
    }
}

static unsigned long beat;
void point()
{
    ++beat;
    if ( !active && ++idle_points > ( ex ? ex->cfg.main_limit : 1000000000L ) )
        on_signal( -1 ); // an operation without any concurrency does not come to an end
    if ( active )
        do_point();
}

void op_begin()
{
    if ( !active )
        return;
    Fiber& f  = fib[ cur ];
    f.solo    = 0;
    do_point();
    f.skip    = true;
    f.inop    = true;
    f.steps   = 0;
    f.maxsolo = 0;
    f.solo    = 0;
}

static long last_steps;
static int  last_solo;
void        op_end()
{
    if ( !active )
        return;
    Fiber& f   = fib[ cur ];
    f.inop     = false;
    f.skip     = false;
    last_steps = f.steps;
    last_solo  = f.maxsolo;
}
long op_steps()
{
    return last_steps;
}
int op_solo()
{
    return last_solo;
}

// ------------------------------------------------------------------ memory
struct Block
{
    char*       p;
    std::size_t size;
    int         owner;
    bool        live;
};
static char*                arena     = 0;
static std::size_t          ARENA     = 512u << 20;
static std::size_t          used      = 0;
static std::vector< Block > blocks;
static std::vector< const void* > locs, cells;

static void arena_init()
{
    if ( !arena ) {
        arena = (char*)mmap( (void*)0x200000000000ull, ARENA, PROT_READ | PROT_WRITE,
                             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
        if ( arena == MAP_FAILED )
            std::_Exit( 3 );
    }
}

// ---- which memory is touched (M_EXT): accesses since the last change of what is there, in order of addresses
struct Acc
{
    int  k, off, n;
    bool operator<( Acc const& o ) const
    {
        return off != o.off ? off < o.off : n != o.n ? n < o.n : k < o.k;
    }
};
static std::set< Acc > accs;
int                    in_elem[ MAXT + 1 ];
static char*           uarena = 0;
static std::size_t     uused  = 0;
static int             ext_offset( const void* q )
{
    const char* p = (const char*)q;
    if ( arena && p >= arena && p < arena + ARENA )
        return (int)( p - arena );
    if ( uarena && p >= uarena && p < uarena + ARENA )
        return (int)( ( p - uarena ) + ARENA );
    return -1;
}
static void ext( const void* p, std::size_t n, int kind )
{
    if ( !( mode & M_EXT ) || n == 0 )
        return;
    int o = ext_offset( p );
    if ( o >= 0 )
        accs.insert( Acc { kind == 1 && in_elem[ cur ] ? 3 : kind, o, (int)n } );
}
void ext_flush()
{
    for ( Acc const& a : accs )
        log( 'x', 0, a.k, a.off, a.n );
    accs.clear();
}
static void ext_event( char e, const void* p, std::size_t n )
{
    if ( !( mode & M_EXT ) )
        return;
    int o = ext_offset( p );
    if ( o < 0 && ( e == 'C' || e == 'D' ) )
        return;
    ext_flush();
    log( e, 0, 0, o, (int)n );
}
void* user_alloc( std::size_t bytes, std::size_t align )
{
    if ( !uarena ) {
        uarena = (char*)mmap( (void*)0x280000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
        if ( uarena == MAP_FAILED )
            std::_Exit( 3 );
    }
    std::size_t at = ( uused + 2 * align - 1 ) / ( 2 * align ) * ( 2 * align ) + align;
    if ( at + bytes + 1024 > ARENA )
        std::_Exit( 3 );
    uused = at + bytes + 256;
    ext_event( 'u', uarena + at, bytes );
    return uarena + at;
}
void user_free( void* p )
{
    ext_event( 'z', p, 0 );
}
void object_gone( void* p )
{
    ext_event( 'z', p, 0 );
}

static void wm_reset();
void        arena_reset()
{
    accs.clear();
    uused = 0;
    std::memset( in_elem, 0, sizeof in_elem );
    arena_init();
    std::memset( arena, 0xCD, used );
    used = 0;
    blocks.clear();
    locs.clear();
    cells.clear();
    live_cells = 0;
    wm_reset();
}

static char* bump( std::size_t bytes, std::size_t align )
{
    arena_init();
    std::size_t at = ( used + align - 1 ) / align * align, gap = 16;
    if ( mode & M_EXT ) { // no more alignment than asked for, and room to go astray
        at  = ( used + 2 * align - 1 ) / ( 2 * align ) * ( 2 * align ) + align;
        gap = 512;
    }
    if ( at + bytes + 1024 > ARENA ) {
        if ( active )
            abort_execution( 4 );
        throw std::bad_alloc();
    }
    std::size_t end = at + bytes + gap;
    if ( end > used )
        used = end;
    return arena + at;
}

void* object_storage( std::size_t bytes, std::size_t align )
{
    void* p = bump( bytes, align < 64 && !( mode & M_EXT ) ? 64 : align );
    ext_event( 'O', p, bytes );
    return p;
}

void* arena_alloc( std::size_t bytes, std::size_t align, int owner )
{
    point();
    ++allocs_total;
    if ( fail_alloc_at[ cur ] > 0 && --fail_alloc_at[ cur ] == 0 ) {
        log( 'T', cur );
        if ( allocs_total % 2 )
            throw AllocFail();
        throw AllocFailStd();
    }
    if ( bytes > ( 64u << 20 ) )
        throw std::bad_alloc();
    char* p = bump( bytes, align < 64 && !( mode & M_EXT ) ? 64 : align );
    ext_event( 'b', p, bytes );
    blocks.push_back( Block { p, bytes, owner, true } );
    if ( mode & M_MEM )
        log( 'a', cur, owner, (int)blocks.size() - 1, (int)bytes );
    return p;
}

static int find_block( const void* q )
{
    const char* p = (const char*)q;
    int         lo = 0, hi = (int)blocks.size();
    while ( lo < hi ) {
        int m = ( lo + hi ) / 2;
        if ( blocks[ m ].p <= p )
            lo = m + 1;
        else
            hi = m;
    }
    if ( lo == 0 )
        return -1;
    Block& b = blocks[ lo - 1 ];
    return p < b.p + b.size || p == b.p ? lo - 1 : -1;
}

void arena_free( void* p, std::size_t bytes, int owner )
{
    point();
    int i = find_block( p );
    if ( i >= 0 && blocks[ i ].p != p )
        i = -1;
    if ( mode & M_MEM )
        log( 'f', cur, owner, i, (int)bytes );
    ext_event( 'z', p, 0 );
    if ( i >= 0 && blocks[ i ].live ) {
        blocks[ i ].live = false;
        std::memset( blocks[ i ].p, 0xDD, blocks[ i ].size );
    }
}

bool in_region( const void* p )
{
    return (const char*)p >= arena && (const char*)p < arena + used;
}

long outstanding()
{
    long n = 0;
    for ( size_t i = 0; i < blocks.size(); ++i )
        n += blocks[ i ].live;
    return n;
}

static void check_valid( const void* p )
{
    if ( blocks.empty() || !in_region( p ) )
        return;
    int i = find_block( p );
    if ( i >= 0 && !blocks[ i ].live ) {
        if ( active )
            abort_execution( 5 ); // memory already returned to the allocator
        log( 'X', cur, 5 );
    }
}

static int id_of( std::vector< const void* >& v, const void* p )
{
    for ( size_t i = v.size(); i-- > 0; )
        if ( v[ i ] == p )
            return (int)i;
    v.push_back( p );
    return (int)v.size() - 1;
}

// ------------------------------------------------------------------ memory model
// Every location has its modification order; a thread (and a message) has a view: for every location the
// oldest write it may still read.  The specification (spec/MemoryModel.tla) does the same and checks it.
typedef std::vector< int > View;
struct Msg
{
    unsigned char b[ 16 ];
    View          view;
};
static std::vector< std::vector< Msg > > mo;   // per location; index 0 unused: initial, unknown value
static View                              views[ MAXT + 1 ], scview;
static View                              facq[ MAXT + 1 ], frel[ MAXT + 1 ]; // what fences may still acquire / have released
static int                               wm_last; // index read by the load in progress

static bool acq( int o )
{
    return o == (int)std::memory_order_acquire || o == (int)std::memory_order_consume || o == (int)std::memory_order_acq_rel
           || o == (int)std::memory_order_seq_cst;
}
static bool rel( int o )
{
    return o == (int)std::memory_order_release || o == (int)std::memory_order_acq_rel || o == (int)std::memory_order_seq_cst;
}
static void join( View& a, View const& b )
{
    if ( a.size() < b.size() )
        a.resize( b.size(), 0 );
    for ( size_t i = 0; i < b.size(); ++i )
        if ( a[ i ] < b[ i ] )
            a[ i ] = b[ i ];
}
static int& at( View& v, int l )
{
    if ( (int)v.size() <= l )
        v.resize( l + 1, 0 );
    return v[ l ];
}
static void wm_reset()
{
    mo.clear();
    for ( View& v : views )
        v.clear();
    for ( View& v : facq )
        v.clear();
    for ( View& v : frel )
        v.clear();
    scview.clear();
}
void fork_views()
{
    for ( int t = 1; t <= MAXT; ++t )
        views[ t ] = views[ 0 ];
}
void join_views()
{
    for ( int t = 1; t <= MAXT; ++t )
        join( views[ 0 ], views[ t ] );
}
int loc_count()
{
    return (int)locs.size();
}
int cell_count()
{
    return (int)cells.size();
}
static int wm_loc( const void* addr, std::size_t size )
{
    int l = id_of( locs, addr );
    if ( (int)mo.size() <= l )
        mo.resize( l + 1 );
    std::vector< Msg >& h = mo[ l ];
    if ( !h.empty() && size <= 16 && std::memcmp( h.back().b, addr, size ) != 0 ) {
        // overwritten by plain accesses (memory recycled): known to everybody, and its reader knows what anybody knows
        Msg m;
        std::memcpy( m.b, addr, size );
        for ( View& v : views )
            join( m.view, v );
        h.push_back( m );
        for ( View& v : views )
            at( v, l ) = (int)h.size();
        log( 'A', cur, 4 * 8, l, (int)h.size() );
    }
    return l;
}
static void wm_append( int l, const void* addr, std::size_t size, View const& v )
{
    Msg m;
    std::memcpy( m.b, addr, std::min< std::size_t >( size, 16 ) );
    m.view = v;
    mo[ l ].push_back( m );
}
static void wm_load( const void* addr, void* value, std::size_t size, int o )
{
    int                 l = id_of( locs, addr );
    std::vector< Msg >& h = mo[ l ];
    wm_last               = (int)h.size();
    if ( o == (int)std::memory_order_seq_cst )
        join( views[ cur ], scview );
    if ( active && size <= 16 && ex && sr_used < ex->cfg.stale && !( ex->cfg.nopreempt & ( 1 << cur ) ) ) {
        int lo = std::max( 1, at( views[ cur ], l ) );
        int n  = (int)h.size() - lo + 1;
        if ( n > 1 ) {
            int r = choose( std::min( n, 4 ), true );
            if ( r ) {
                ++sr_used;
                wm_last = (int)h.size() - r;
                std::memcpy( value, h[ wm_last - 1 ].b, size );
            }
        }
    }
}
static void wm_after( const void* addr, int kind, int o, std::size_t size )
{
    int l = id_of( locs, addr );
    if ( (int)mo.size() <= l )
        mo.resize( l + 1 );
    View& v = views[ cur ];
    if ( o == (int)std::memory_order_seq_cst )
        join( v, scview );
    int i = kind == lockfree_verif::rt::A_LOAD ? wm_last : (int)mo[ l ].size();
    if ( kind != lockfree_verif::rt::A_STORE ) {
        at( v, l ) = std::max( at( v, l ), i );
        if ( i > 0 )
            join( acq( o ) ? v : facq[ cur ], mo[ l ][ i - 1 ].view );
    }
    if ( kind == lockfree_verif::rt::A_STORE || kind == lockfree_verif::rt::A_RMW ) {
        View m;
        at( v, l ) = (int)mo[ l ].size() + 1;
        if ( kind == lockfree_verif::rt::A_RMW && i > 0 )
            m = mo[ l ][ i - 1 ].view; // release sequence
        join( m, rel( o ) ? v : frel[ cur ] );
        at( m, l ) = (int)mo[ l ].size() + 1;
        wm_append( l, addr, size, m );
    }
    if ( o == (int)std::memory_order_seq_cst )
        join( scview, v );
    log( 'A', cur, kind * 8 + o, l, i );
}

// ------------------------------------------------------------------ plain accesses
// The harness is compiled with -fsanitize=thread, but linked with the functions below: every access of the
// containers to plain memory is reported.  Elements report themselves and are left out here.
static bool   in_atomic = false;
static size_t cell_size = 0;
int           offset_of( const void* p )
{
    return (int)( (const char*)p - arena );
}
void set_cell_size( std::size_t n )
{
    cell_size = n;
}
static void plain( const void* p, std::size_t size, int kind )
{
    if ( ( mode & M_EXT ) && !in_atomic )
        ext( p, size, kind );
    if ( !( mode & M_PLAIN ) || !cur || !active || in_atomic || !in_region( p ) )
        return;
    for ( const void* c : cells )
        if ( (const char*)p < (const char*)c + cell_size && (const char*)p + size > (const char*)c )
            return;
    log( 'M', cur, kind, offset_of( p ), (int)size );
}
// a fence: acquire (2), release (3), both (4), sequentially consistent (5)
static void fence( int o )
{
    if ( mode & M_ATOM ) {
        if ( acq( o ) )
            join( views[ cur ], facq[ cur ] );
        if ( o == (int)std::memory_order_seq_cst ) {
            join( views[ cur ], scview );
            join( scview, views[ cur ] );
        }
        if ( rel( o ) )
            frel[ cur ] = views[ cur ];
        log( 'A', cur, 5 * 8 + o, -1, 0 );
    }
}

// ------------------------------------------------------------------ payload
void pay_point( const void* p )
{
    if ( in_region( p ) ) {
        point();
        check_valid( p );
    }
}
void arm_faults( long alloc_at, long copy_at )
{
    fail_alloc_at[ cur ] = alloc_at;
    fail_copy_at[ cur ]  = copy_at;
}
void pay_copy_fault()
{
    if ( fail_copy_at[ cur ] > 0 && --fail_copy_at[ cur ] == 0 ) {
        log( 'T', cur );
        if ( evs.size() % 2 )
            throw CopyFail();
        throw CopyFailStd();
    }
}
void pay_ctor( const void* p, int id )
{
    if ( in_region( p ) ) {
        ++live_cells;
        ext_event( 'C', p, 0 );
        if ( mode & M_PAY )
            log( 'P', cur, 0, id_of( cells, p ), id );
    }
}
void pay_read( const void* p, int id )
{
    if ( ( mode & M_PAY ) && in_region( p ) )
        log( 'P', cur, 1, id_of( cells, p ), id );
}
void pay_assign( const void* p, int id )
{
    if ( ( mode & M_PAY ) && in_region( p ) )
        log( 'P', cur, 3, id_of( cells, p ), id );
}
void pay_dtor( const void* p, int id )
{
    if ( in_region( p ) ) {
        pay_point( p );
        --live_cells;
        ext_event( 'D', p, 0 );
        if ( mode & M_PAY )
            log( 'P', cur, 2, id_of( cells, p ), id );
    }
}

// ------------------------------------------------------------------ crashes
static void ( *crash_cb )( const char* );
static char altstack[ 1 << 16 ];
static void on_signal( int s )
{
    const char* w = s == SIGPROF || s == -1 ? "hang" : s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : "SIGILL";
    if ( s > 0 )
        signal( s, SIG_DFL );
    if ( s == SIGPROF ) {
        static long last = -1;
        static int  same = 0;
        long        now  = (long)beat + ( ex ? ex->executions * 1000003 : 0 );
        same             = now == last ? same + 1 : 0;
        last             = now;
        if ( same < 10 ) {
            signal( s, on_signal );
            return;
        }
    }
    if ( crash_cb )
        crash_cb( w );
    std::_Exit( 0 );
}

void install_crash_handlers( void ( *cb )( const char* ) )
{
    crash_cb = cb;
    stack_t ss;
    std::memset( &ss, 0, sizeof ss );
    ss.ss_sp   = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack( &ss, 0 );
    int sigs[] = { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL };
    for ( int s : sigs ) {
        struct sigaction sa;
        std::memset( &sa, 0, sizeof sa );
        sa.sa_handler = on_signal;
        sa.sa_flags   = SA_ONSTACK;
        sigaction( s, &sa, 0 );
    }
}

void watchdog_arm( int cpu_seconds )
{
    // ten periods without any progress: hang
    signal( SIGPROF, on_signal );
    struct itimerval it;
    long             us   = cpu_seconds * 100000L;
    it.it_interval.tv_sec = us / 1000000;
    it.it_interval.tv_usec = us % 1000000;
    it.it_value            = it.it_interval;
    setitimer( ITIMER_PROF, &it, 0 );
}

} // namespace rt

// ------------------------------------------------------------------ hooks of the instrumented atomic
namespace lockfree_verif { namespace rt {

void before_atomic( const void* addr, std::size_t size, int )
{
    ::rt::point();
    ::rt::check_valid( addr );
    if ( ::rt::mode & ::rt::M_ATOM )
        ::rt::wm_loc( addr, size );
    ::rt::ext( addr, size, 2 );
    ::rt::in_atomic = true;
}

bool spurious_failure()
{
    using namespace ::rt;
    if ( !active || sp_used >= ex->cfg.spurious )
        return false;
    if ( ex->cfg.nopreempt & ( 1 << cur ) )
        return false;
    int r = choose( 2, true );
    sp_used += r;
    return r != 0;
}

void load_value( const void* addr, void* value, std::size_t size, std::memory_order o )
{
    using namespace ::rt;
    if ( mode & M_ATOM )
        wm_load( addr, value, size, (int)o );
}

void after_atomic( const void* addr, int kind, std::memory_order o, std::size_t size )
{
    using namespace ::rt;
    in_atomic = false;
    if ( ( mode & M_PLAIN ) && cur && in_region( addr ) && ( kind == A_STORE || kind == A_RMW ) )
        log( 'M', cur, 2, offset_of( addr ), (int)size );
    if ( mode & M_ATOM )
        wm_after( addr, kind, (int)o, size );
}

}} // namespace lockfree_verif::rt

std::vector< uint8_t > rt_path()
{
    std::vector< uint8_t > p;
    if ( rt::forced )
        return rt::forced_path;
    for ( size_t i = 0; i < rt::nodes.size() && i < rt::depth; ++i )
        p.push_back( rt::nodes[ i ].chosen );
    return p;
}

// ------------------------------------------------------------------ what -fsanitize=thread calls
namespace rt {
static inline void r_( void* p, std::size_t n )
{
    plain( p, n, 0 );
}
static inline void w_( void* p, std::size_t n )
{
    plain( p, n, 1 );
}
} // namespace rt
extern "C" {
#define ACC( N )                                        \
    void __tsan_read##N( void* p )                      \
    {                                                   \
        ::rt::r_( p, N );                               \
    }                                                   \
    void __tsan_write##N( void* p )                     \
    {                                                   \
        ::rt::w_( p, N );                               \
    }                                                   \
    void __tsan_unaligned_read##N( void* p )            \
    {                                                   \
        ::rt::r_( p, N );                               \
    }                                                   \
    void __tsan_unaligned_write##N( void* p )           \
    {                                                   \
        ::rt::w_( p, N );                               \
    }                                                   \
    void __tsan_volatile_read##N( void* p )             \
    {                                                   \
        ::rt::r_( p, N );                               \
    }                                                   \
    void __tsan_volatile_write##N( void* p )            \
    {                                                   \
        ::rt::w_( p, N );                               \
    }                                                   \
    void __tsan_unaligned_volatile_read##N( void* p )   \
    {                                                   \
        ::rt::r_( p, N );                               \
    }                                                   \
    void __tsan_unaligned_volatile_write##N( void* p )  \
    {                                                   \
        ::rt::w_( p, N );                               \
    }
ACC( 1 )
ACC( 2 )
ACC( 4 )
ACC( 8 )
ACC( 16 )
void __tsan_init()
{}
void __tsan_func_entry( void* )
{}
void __tsan_func_exit( void* )
{}
void __tsan_vptr_update( void**, void* )
{}
void __tsan_vptr_read( void** )
{}
void __tsan_read_range( void* p, unsigned long n )
{
    ::rt::r_( p, n );
}
void __tsan_write_range( void* p, unsigned long n )
{
    ::rt::w_( p, n );
}
// block copies of the containers (the object file's references are redirected here)
void* verif_memcpy( void* d, const void* s, unsigned long n )
{
    if ( ::rt::mode & ( ::rt::M_EXT | ::rt::M_PLAIN ) ) {
        ::rt::r_( (void*)s, n );
        ::rt::w_( d, n );
    }
    return std::memcpy( d, s, n );
}
void* verif_memmove( void* d, const void* s, unsigned long n )
{
    if ( ::rt::mode & ( ::rt::M_EXT | ::rt::M_PLAIN ) ) {
        ::rt::r_( (void*)s, n );
        ::rt::w_( d, n );
    }
    return std::memmove( d, s, n );
}
void* verif_memset( void* d, int c, unsigned long n )
{
    if ( ::rt::mode & ( ::rt::M_EXT | ::rt::M_PLAIN ) )
        ::rt::w_( d, n );
    return std::memset( d, c, n );
}
void __tsan_atomic_thread_fence( int o )
{
    ::rt::fence( o );
}
void __tsan_atomic_signal_fence( int )
{}
}
