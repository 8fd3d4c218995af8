// Deterministic cooperative runtime: fibers, schedule enumeration, event log, accounting memory.
#ifndef VERIF_RT_HPP
#define VERIF_RT_HPP

#include <cstddef>
#include <cstdint>
#include <lockfree_verif/atomic.hpp>
#include <new>
#include <string>
#include <vector>

namespace rt {

enum mode_bits { M_HIST = 1, M_MEM = 2, M_ATOM = 4, M_PAY = 8, M_STEPS = 16, M_PLAIN = 32, M_EXT = 64 };

struct Event
{
    char    e;      // c r d a f A P X E K
    int8_t  t;      // thread
    int16_t k;      // op id / kind
    int     a, b, c;
    int     vo, vn; // operand / result values in vals
};

struct Op
{
    std::string       name;
    std::vector< int > arg;
    int               box = 0; // which of two containers
    int               fault_alloc = 0, fault_copy = 0; // which allocation / copy of the call fails
};

struct Config
{
    int  mode        = M_HIST;
    int  pb          = 2;       // preemption bound
    int  stale       = 0;       // loads that may see an older value allowed by the memory model, per execution
    int  spurious    = 0;       // spurious weak CAS failures allowed per execution
    long max_exec    = 1000000; // executions
    long random      = 0;       // >0: number of random executions instead of enumeration
    int  rand_period = 4;       // mean number of points between random preemptions
    std::string rr;             // fixed schedule: quanta (digits) of the threads in turn, repeated
    int  nopreempt   = 0;       // bit mask of threads that are never preempted
    int  solo_limit  = 3000;    // own steps inside one op without anybody else moving: stuck
    long main_limit  = 300000;  // points of the main thread per execution
    long step_limit  = 400000;  // steps of a whole execution
    uint64_t seed    = 1;
};

// ---- log
extern std::vector< Event > evs;
extern std::vector< int >   vals;
extern int                  mode;
void                        log( char e, int t, int k = 0, int a = 0, int b = 0, int c = 0 );
int                         log_vals( char e, int t, int k, int a, const int* v, int n ); // returns event index

// ---- scheduling
extern bool active;
extern int  cur; // running thread 1..n, 0: main
void        point();
void        op_begin(); // scheduling point before a call; the call's first step belongs to it
void        op_end();
long        op_steps(); // own steps of the operation that just ended
int         op_solo();

typedef void ( *body_fn )( void*, int );
struct Explorer
{
    Config               cfg;
    std::vector< uint8_t > path; // choices of the current execution
    long                 executions = 0, points = 0;
    bool                 done       = false;
    explicit Explorer( Config const& c );
    void begin();    // before an execution
    void run( int nthreads, body_fn, void* );
    bool next();     // false: nothing left
    void force( std::vector< uint8_t > const& );
};
void fork_views(); // between the main thread and the others (memory model)
void join_views();
int  loc_count();
int  cell_count();
extern bool aborted; // execution was cut (stuck, limits)

// ---- memory
void*  arena_alloc( std::size_t bytes, std::size_t align, int owner ); // accounting allocator
void   arena_free( void* p, std::size_t bytes, int owner );
void   arena_reset();
int    offset_of( const void* p );
void   set_cell_size( std::size_t n ); // size of the elements (plain accesses to them are reported by themselves)
void*  object_storage( std::size_t bytes, std::size_t align ); // the container itself
bool   in_region( const void* p );
void*  user_alloc( std::size_t bytes, std::size_t align ); // memory of the caller: exact bounds (M_EXT)
void   user_free( void* p );
void   object_gone( void* p ); // the container has been destroyed
void   ext_flush();
extern int in_elem[]; // running inside a member function of an element
long   outstanding();
// failures of several types: whoever handles one has to let it out again
struct AllocFail
{};
struct AllocFailStd : AllocFail, std::bad_alloc
{};
struct CopyFail
{};
struct CopyFailStd : CopyFail, std::bad_alloc
{};
// >0: the n-th allocation / element copy of the running thread from now on throws
void arm_faults( long alloc_at, long copy_at );
extern long allocs_total;

// ---- payload
void pay_ctor( const void* p, int id );
void pay_read( const void* p, int id );
void pay_assign( const void* p, int id );
void pay_dtor( const void* p, int id );
void pay_point( const void* p );
void pay_copy_fault();
extern long live_cells;  // elements alive inside the container region
extern long live_total;  // all element objects alive

void install_crash_handlers( void ( *on_crash )( const char* ) );
void watchdog_arm( int cpu_seconds );

} // namespace rt

// ---- element types
#ifndef VERIF_EINT
#    define VERIF_EINT int
#endif
#ifndef VERIF_EALIGN
#    define VERIF_EALIGN alignof( VERIF_EINT )
#endif
// VS: for stack and spsc_queue, everything observable
struct alignas( VERIF_EALIGN ) VS
{
    VERIF_EINT id, chk;
    VS() :
        id( 0 ),
        chk( ~0 )
    {
        ++rt::live_total;
        rt::pay_ctor( this, id );
    }
    VS( int i ) :
        id( i ),
        chk( ~i )
    {
        ++rt::live_total;
        rt::pay_ctor( this, id );
    }
    VS( VS const& o )
    {
        rt::pay_copy_fault();
        copy( o );
        ++rt::live_total;
        rt::pay_ctor( this, id );
    }
    VS& operator=( VS const& o )
    {
        int* in = rt::in_elem + rt::cur;
        ++*in;
        copy( o );
        --*in;
        rt::pay_assign( this, id );
        return *this;
    }
    ~VS()
    {
        rt::pay_dtor( this, id );
        id  = -99;
        chk = -99;
        --rt::live_total;
    }
    int value() const
    {
        return chk == ~id ? id : -77;
    }

private:
    void copy( VS const& o )
    {
        rt::pay_point( &o );
        int i = o.id;
        rt::pay_point( &o );
        int c = o.chk;
        rt::pay_read( &o, c == ~i ? i : -77 );
        id = i;
        rt::pay_point( this ); // half written
        chk = c;
    }
};

// VQ: for queue (trivial assignment and destructor required); copies into nodes are visible
struct alignas( VERIF_EALIGN ) VQ
{
    VERIF_EINT id, chk;
    VQ() :
        id( 0 ),
        chk( ~0 )
    {}
    VQ( int i ) :
        id( i ),
        chk( ~i )
    {}
    VQ( VQ const& o )
    {
        rt::pay_copy_fault();
        id = o.id;
        rt::pay_point( this );
        chk = o.chk;
        rt::pay_ctor( this, id );
    }
    VQ& operator=( VQ const& ) = default;
    int value() const
    {
        return chk == ~id ? id : -77;
    }
};

// OUT: target of converting pops; reads the element in two steps
struct OUT
{
    int id, chk;
    int v;
    OUT() :
        id( -1 ),
        chk( 0 ),
        v( -1 )
    {}
    template < class T >
    void take( T const& o )
    {
        rt::pay_point( &o );
        id = o.id;
        rt::pay_point( &o );
        chk = o.chk;
        v   = chk == ~id ? id : -77;
        rt::pay_read( &o, v );
    }
    OUT( VS const& o )
    {
        take( o );
    }
    OUT( VQ const& o )
    {
        take( o );
    }
    OUT( OUT const& )            = default;
    OUT& operator=( OUT const& ) = default;
    OUT& operator=( VS const& o )
    {
        take( o );
        return *this;
    }
    OUT& operator=( VQ const& o )
    {
        take( o );
        return *this;
    }
    int value() const
    {
        return v;
    }
};

template < class T >
struct TrackAlloc
{
    typedef T value_type;
    int       owner;
    TrackAlloc( int o = 0 ) :
        owner( o )
    {}
    template < class U >
    TrackAlloc( TrackAlloc< U > const& o ) :
        owner( o.owner )
    {}
    template < class U >
    struct rebind
    {
        typedef TrackAlloc< U > other;
    };
    typedef T*             pointer;
    typedef const T*       const_pointer;
    typedef T&             reference;
    typedef const T&       const_reference;
    typedef std::size_t    size_type;
    typedef std::ptrdiff_t difference_type;
    T* allocate( std::size_t n )
    {
        return static_cast< T* >( rt::arena_alloc( n * sizeof( T ), alignof( T ), owner ) );
    }
    void deallocate( T* p, std::size_t n )
    {
        rt::arena_free( p, n * sizeof( T ), owner );
    }
    template < class U >
    bool operator==( TrackAlloc< U > const& o ) const
    {
        return owner == o.owner;
    }
    template < class U >
    bool operator!=( TrackAlloc< U > const& o ) const
    {
        return owner != o.owner;
    }
};

#endif
