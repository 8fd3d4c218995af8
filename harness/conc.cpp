// Explores the schedules of small concurrent programs on the real containers and writes every distinct
// history as one JSON line.   conc PROGRAMS OUT [--replay SCHEDULE]
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "boxes.hpp"

#include <algorithm>
#include <chrono>
#include <fstream>
#include <sstream>
#include <unordered_set>

using namespace rt;

struct Program
{
    int                              id = 0;
    std::string                      cfg;
    int                              cap   = 0;
    int                              cfault = 0; // construction: which allocation fails
    int                              rot   = 0; // push/pop pairs before the initial content (ring offset, node order)
    bool                             two = false; // a second container, for calls named 2.name
    bool                             drain = true; // epilogue: take the content out
    bool                             fill = true; // epilogue: how many pushes are accepted
    std::vector< int >               init;
    std::vector< std::vector< Op > > th;
    Config                           c;
    double                           sec = 1e9;
    std::string                      text;
};

static std::vector< std::string > opnames;
static int opid( std::string const& s )
{
    for ( size_t i = 0; i < opnames.size(); ++i )
        if ( opnames[ i ] == s )
            return (int)i;
    opnames.push_back( s );
    return (int)opnames.size() - 1;
}

static std::string spec_name( std::string const& name )
{
    std::string o = name.compare( 0, 2, "2." ) ? name : name.substr( 2 );
    static const char* map[][ 2 ] = { { "popu", "pop" },     { "c1c", "c1" },     { "callc", "call" },   { "catac", "cata" },
                                      { "catrc", "catr" },   { "pushr", "pushn" }, { "pushp", "pushn" },  { "pusha", "pushn" },
                                      { "popp", "popn" },    { "popa", "popn" },  { "upush", "push" },   { "upop", "pop" },
                                      { "upopu", "pop" },     { "urpush", "rpush" }, { "resu", "res" } };
    for ( auto& m : map )
        if ( o == m[ 0 ] )
            return m[ 1 ];
    return o;
}

static std::vector< int > ints( std::string const& s )
{
    std::vector< int > v;
    std::stringstream  ss( s );
    std::string        x;
    while ( std::getline( ss, x, ',' ) )
        if ( !x.empty() )
            v.push_back( std::atoi( x.c_str() ) );
    return v;
}

static Program parse( std::string const& line )
{
    Program           p;
    p.text = line;
    std::stringstream ss( line );
    std::string       part;
    std::getline( ss, part, '|' );
    std::stringstream hs( part );
    std::string       kv;
    while ( hs >> kv ) {
        size_t      e = kv.find( '=' );
        std::string k = kv.substr( 0, e ), v = kv.substr( e + 1 );
        if ( k == "id" )
            p.id = std::atoi( v.c_str() );
        else if ( k == "cfg" )
            p.cfg = v;
        else if ( k == "cap" )
            p.cap = std::atoi( v.c_str() );
        else if ( k == "rot" )
            p.rot = std::atoi( v.c_str() );
        else if ( k == "cfault" )
            p.cfault = std::atoi( v.c_str() );
        else if ( k == "two" )
            p.two = std::atoi( v.c_str() ) != 0;
        else if ( k == "drain" )
            p.drain = std::atoi( v.c_str() ) != 0;
        else if ( k == "fill" )
            p.fill = std::atoi( v.c_str() ) != 0;
        else if ( k == "init" )
            p.init = ints( v );
        else if ( k == "pb" )
            p.c.pb = std::atoi( v.c_str() );
        else if ( k == "sp" )
            p.c.spurious = std::atoi( v.c_str() );
        else if ( k == "sr" )
            p.c.stale = std::atoi( v.c_str() );
        else if ( k == "max" )
            p.c.max_exec = std::atol( v.c_str() );
        else if ( k == "rand" )
            p.c.random = std::atol( v.c_str() );
        else if ( k == "per" )
            p.c.rand_period = std::atoi( v.c_str() );
        else if ( k == "rr" )
            p.c.rr = v;
        else if ( k == "step" )
            p.c.step_limit = std::atol( v.c_str() );
        else if ( k == "np" )
            p.c.nopreempt = std::atoi( v.c_str() );
        else if ( k == "solo" )
            p.c.solo_limit = std::atoi( v.c_str() ), p.c.step_limit = std::max< long >( p.c.step_limit, p.c.solo_limit );
        else if ( k == "seed" )
            p.c.seed = std::strtoull( v.c_str(), 0, 10 );
        else if ( k == "sec" )
            p.sec = std::atof( v.c_str() );
        else if ( k == "mode" ) {
            p.c.mode = 0;
            for ( char ch : v )
                p.c.mode |= ch == 'H' ? M_HIST : ch == 'M' ? M_MEM : ch == 'A' ? M_ATOM : ch == 'P' ? M_PAY : ch == 'S' ? M_STEPS : ch == 'L' ? M_PLAIN : ch == 'X' ? M_EXT : 0;
        } else {
            std::fprintf( stderr, "bad key %s\n", k.c_str() );
            std::_Exit( 3 );
        }
    }
    while ( std::getline( ss, part, '|' ) ) {
        std::vector< Op > ops;
        std::stringstream os( part );
        std::string       o;
        while ( std::getline( os, o, ';' ) ) {
            o.erase( std::remove( o.begin(), o.end(), ' ' ), o.end() );
            if ( o.empty() )
                continue;
            Op     op;
            size_t c = o.find( ':' );
            op.name  = o.substr( 0, c );
            if ( op.name.compare( 0, 2, "2." ) == 0 ) {
                op.box  = 1;
                op.name = op.name.substr( 2 );
                p.two   = true;
            }
            size_t at = op.name.find( '@' ); // name@c2: the second copy throws, name@a1: the first allocation
            if ( at != std::string::npos ) {
                ( op.name[ at + 1 ] == 'a' ? op.fault_alloc : op.fault_copy ) = std::atoi( op.name.c_str() + at + 2 );
                op.name.resize( at );
            }
            if ( c != std::string::npos )
                op.arg = ints( o.substr( c + 1 ) );
            ops.push_back( op );
        }
        p.th.push_back( ops );
    }
    return p;
}

static Box*     box;
static Box*     box2; // only in programs with calls named 2.name
static Program* prog;
static FILE*    out;
static int      npieces; // of plain memory

static void body( void*, int t )
{
    for ( Op const& op : prog->th[ t - 1 ] ) {
        Result r;
        r.tid = t;
        r.got.reserve( 16 );
        op_begin();
        int idx = log_vals( 'c', t, opid( op.box ? "2." + op.name : op.name ), -1, op.arg.data(), (int)op.arg.size() );
        try {
            arm_faults( op.fault_alloc, op.fault_copy );
            ( op.box ? box2 : box )->run( op, r );
        } catch ( AllocFail const& ) {
            r.n = op.fault_alloc ? -2 : -3; // the failure reaches the caller
        } catch ( CopyFail const& ) {
            r.n = op.fault_copy ? -2 : -3;
        } catch ( ... ) {
            r.n = -4;
        }
        arm_faults( 0, 0 );
        op_end();
        Event& ev = evs[ idx ];
        ev.a      = (int)r.n;
        ev.b      = (int)vals.size();
        ev.c      = (int)r.got.size();
        vals.insert( vals.end(), r.got.begin(), r.got.end() );
        log( 'r', t, mode & M_STEPS ? op_solo() : 0, mode & M_STEPS ? (int)op_steps() : 0 );
    }
}

static void canonical()
{
    // calls next to calls and returns next to returns may be exchanged
    size_t i = 0;
    while ( i < evs.size() ) {
        size_t j = i + 1;
        if ( evs[ i ].e == 'c' || evs[ i ].e == 'r' ) {
            while ( j < evs.size() && evs[ j ].e == evs[ i ].e )
                ++j;
            std::stable_sort( evs.begin() + i, evs.begin() + j, []( Event const& x, Event const& y ) { return x.t < y.t; } );
        }
        i = j;
    }
}

// Plain accesses: memory is divided at the bounds of all accesses; only pieces that somebody writes and somebody reads
// or writes matter.  Afterwards vo/vn name the pieces of an access.
static void plain_pieces()
{
    std::vector< int > cuts;
    for ( Event const& e : evs )
        if ( e.e == 'M' ) {
            cuts.push_back( e.a );
            cuts.push_back( e.a + e.b );
        }
    if ( cuts.empty() )
        return;
    std::sort( cuts.begin(), cuts.end() );
    cuts.erase( std::unique( cuts.begin(), cuts.end() ), cuts.end() );
    std::vector< int > plain( cuts.size(), 0 ), wr( cuts.size(), 0 ), who( cuts.size(), 0 ), id( cuts.size(), 0 );
    auto pieces = [ & ]( Event const& e, int& lo, int& hi ) {
        lo = (int)( std::lower_bound( cuts.begin(), cuts.end(), e.a ) - cuts.begin() );
        hi = (int)( std::lower_bound( cuts.begin(), cuts.end(), e.a + e.b ) - cuts.begin() );
    };
    int lo, hi;
    for ( Event const& e : evs )
        if ( e.e == 'M' ) {
            pieces( e, lo, hi );
            for ( int i = lo; i < hi; ++i ) {
                plain[ i ] |= e.k < 2;
                wr[ i ] |= e.k > 0;
                who[ i ] |= 1 << e.t;
            }
        }
    npieces = 0;
    for ( size_t i = 0; i < cuts.size(); ++i )
        if ( plain[ i ] && wr[ i ] && ( who[ i ] & ( who[ i ] - 1 ) ) )
            id[ i ] = ++npieces;
    std::vector< Event > kept;
    for ( Event const& e : evs ) {
        if ( e.e != 'M' ) {
            kept.push_back( e );
            continue;
        }
        Event x = e;
        pieces( e, lo, hi );
        std::vector< int > ids;
        for ( int i = lo; i < hi; ++i )
            if ( id[ i ] )
                ids.push_back( id[ i ] );
        x.vo = (int)vals.size();
        x.vn = (int)ids.size();
        x.a = x.b = 0;
        vals.insert( vals.end(), ids.begin(), ids.end() );
        if ( ids.empty() )
            continue;
        if ( !kept.empty() ) { // the same once more
            Event const& y = kept.back();
            if ( y.e == 'M' && y.k == x.k && y.t == x.t && y.vn == x.vn && std::equal( ids.begin(), ids.end(), vals.begin() + y.vo ) )
                continue;
        }
        kept.push_back( x );
    }
    evs.swap( kept );
}

static void put_list( std::string& s, const int* v, int n )
{
    s += '[';
    for ( int i = 0; i < n; ++i ) {
        if ( i )
            s += ',';
        s += std::to_string( v[ i ] );
    }
    s += ']';
}

static std::string render( std::vector< uint8_t > const& path )
{
    std::string s = "{\"p\":" + std::to_string( prog->id ) + ",\"s\":\"";
    for ( uint8_t c : path )
        s += (char)( '0' + c );
    s += "\",\"cfg\":\"" + prog->cfg + "\",\"cap\":" + std::to_string( prog->cap ) + ",\"nt\":" + std::to_string( prog->th.size() ) + ",\"init\":";
    put_list( s, prog->init.data(), (int)prog->init.size() );
    if ( mode & M_ATOM )
        s += ",\"nl\":" + std::to_string( loc_count() ) + ",\"nc\":" + std::to_string( cell_count() ) + ",\"np\":" + std::to_string( npieces );
    if ( mode & M_EXT )
        s += ",\"es\":" + std::to_string( sizeof( VS ) ) + ",\"ea\":" + std::to_string( alignof( VS ) );
    s += ",\"ev\":[";
    bool first = true;
    int  on[ 16 ] = { 0 }; // the container of a thread's call
    for ( Event const& e : evs ) {
        if ( !first )
            s += ',';
        first = false;
        s += "{\"e\":\"";
        s += e.e;
        s += "\",\"t\":" + std::to_string( (int)e.t );
        if ( prog->two ) {
            if ( e.e == 'c' )
                on[ e.t & 15 ] = opnames[ e.k ].compare( 0, 2, "2." ) ? 1 : 2;
            s += ",\"x\":" + std::to_string( e.e == 'X' ? 0 : e.t == 0 ? 1 : e.t == 15 ? 2 : on[ e.t & 15 ] );
        }
        switch ( e.e ) {
        case 'c':
            s += ",\"o\":\"" + spec_name( opnames[ e.k ] ) + "\",\"a\":";
            put_list( s, vals.data() + e.vo, e.vn );
            s += ",\"n\":" + std::to_string( e.a ) + ",\"v\":";
            put_list( s, vals.data() + e.b, e.c );
            break;
        case 'r':
            if ( mode & M_STEPS )
                s += ",\"so\":" + std::to_string( e.k ) + ",\"st\":" + std::to_string( e.a );
            break;
        case 'E':
            s += ",\"v\":";
            put_list( s, vals.data() + e.vo, e.vn );
            break;
        case 'K':
            s += ",\"n\":" + std::to_string( e.a );
            break;
        case 'a':
        case 'f':
            s += ",\"w\":" + std::to_string( e.k ) + ",\"b\":" + std::to_string( e.a ) + ",\"s\":" + std::to_string( e.b );
            break;
        case 'A':
            s += ",\"k\":\"" + std::string( 1, "LSRFUN"[ e.k / 8 ] ) + "\",\"m\":\"" + std::string( 1, "rcalxs"[ e.k % 8 ] ) + "\",\"l\":" + std::to_string( e.a + 1 ) + ",\"i\":" + std::to_string( e.b );
            break;
        case 'M':
            s += ",\"k\":\"" + std::string( 1, "RWA"[ e.k ] ) + "\",\"g\":";
            put_list( s, vals.data() + e.vo, e.vn );
            break;
        case 'P':
            s += ",\"k\":\"" + std::string( 1, "CRDW"[ e.k ] ) + "\",\"l\":" + std::to_string( e.a + 1 ) + ",\"v\":" + std::to_string( e.b );
            break;
        case 'O':
        case 'b':
        case 'u':
        case 'z':
        case 'C':
        case 'D':
            s += ",\"l\":" + std::to_string( e.a ) + ",\"s\":" + std::to_string( e.b );
            break;
        case 'x':
            s += ",\"k\":\"" + std::string( 1, "RWAE"[ e.k ] ) + "\",\"l\":" + std::to_string( e.a ) + ",\"s\":" + std::to_string( e.b );
            break;
        case 'V':
        case 'X':
            s += ",\"w\":" + std::to_string( e.k );
            break;
        case 'Z':
            s += ",\"o\":" + std::to_string( e.a ) + ",\"l\":" + std::to_string( e.b );
            break;
        }
        s += '}';
    }
    s += "]}\n";
    return s;
}

static Explorer* g_ex;
static void      on_crash( const char* what )
{
    // last words: the history up to here and what happened; the process ends
    log( 'X', cur, std::strcmp( what, "hang" ) == 0 ? 8 : 9 );
    std::vector< uint8_t > path;
    extern std::vector< uint8_t > current_path();
    path           = current_path();
    std::string s = render( path );
    std::fputs( s.c_str(), out );
    std::fprintf( out, "{\"crash\":\"%s\",\"p\":%d}\n", what, prog->id );
    std::fflush( out );
}

static uint64_t hash_history()
{
    uint64_t h   = 1469598103934665603ull;
    auto     mix = [ & ]( uint64_t x ) { h = ( h ^ x ) * 1099511628211ull; h ^= h >> 29; };
    for ( Event const& e : evs ) {
        mix( e.e * 256 + e.t );
        if ( e.e == 'c' ) {
            mix( e.k );
            mix( e.a );
            for ( int i = 0; i < e.vn; ++i )
                mix( vals[ e.vo + i ] + 7 );
            mix( 99991 );
            for ( int i = 0; i < e.c; ++i )
                mix( vals[ e.b + i ] + 7 );
        } else if ( e.e == 'E' || e.e == 'M' ) {
            mix( e.k );
            for ( int i = 0; i < e.vn; ++i )
                mix( vals[ e.vo + i ] + 7 );
        } else {
            mix( e.k );
            mix( e.a );
            mix( e.b );
        }
    }
    return h;
}

static void one_execution( Explorer& ex )
{
    arena_reset();
    npieces = 0;
    ex.begin();
    mode      = ex.cfg.mode;
    int  base = (int)live_total;
    bool ok   = true;
    arm_faults( prog->cfault, 0 );
    int refused = 0;
    box = box2  = 0;
    try {
        box = make_box( prog->cfg, prog->cap );
        if ( prog->two )
            box2 = make_box( prog->cfg, prog->cap );
    } catch ( AllocFail const& ) {
        refused = 1;
    } catch ( ... ) {
        refused = 2;
    }
    arm_faults( 0, 0 );
    if ( refused ) { // no container: nothing may be left of it
        log( 'V', 0, refused );
        log( 'Z', 0, 0, (int)outstanding(), (int)live_cells );
        live_total = base;
        ex.path.clear();
        ex.done = true;
        return;
    }
    if ( !box ) {
        std::fprintf( stderr, "bad configuration %s %d\n", prog->cfg.c_str(), prog->cap );
        std::_Exit( 3 );
    }
    if ( mode & M_MEM )
        log( 'B', 0 ); // constructed
    for ( int i = 0; i < prog->rot; ++i ) {
        int v = 0, x = ( mode & M_EXT ? 90 : 900 ) + i;
        ok    = ok && box->quiet_push( x ) && box->quiet_pop( v ) && v == x;
    }
    for ( int v : prog->init ) {
        ok = ok && box->quiet_push( v );
        if ( box2 )
            ok = ok && box2->quiet_push( v + 50 );
    }
    if ( !ok )
        log( 'X', 0, 7 ); // the sequential prologue already misbehaves
    fork_views();
    if ( mode & ( M_ATOM | M_PAY ) )
        log( 'G', 0 ); // fork
    ex.run( (int)prog->th.size(), body, 0 );
    join_views();
    if ( mode & ( M_ATOM | M_PAY ) )
        log( 'J', 0 ); // join
    if ( !aborted ) {
        std::vector< int > rest;
        int                v;
        while ( prog->drain && rest.size() < 60 && box->quiet_pop( v ) )
            rest.push_back( v );
        if ( prog->drain )
            log_vals( 'E', 0, 0, 0, rest.data(), (int)rest.size() );
        if ( prog->fill ) {
            log( 'K', 0, 0, box->quiet_fill( 500, 60 ) );
        }
        if ( box2 ) { // the first one is destroyed before anybody looks at the second
            box->destroy();
            rest.clear();
            while ( rest.size() < 60 && box2->quiet_pop( v ) )
                rest.push_back( v );
            log_vals( 'E', 15, 0, 0, rest.data(), (int)rest.size() );
            if ( prog->fill )
                log( 'K', 15, 0, box2->quiet_fill( 500, 60 ) );
            box2->destroy();
            delete box;
            box = 0;
        } else {
        if ( mode & M_MEM )
            log( 'Y', 0 ); // destruction begins
        box->destroy();
        if ( mode & ( M_MEM | M_PAY ) )
            log( 'Z', 0, 0, (int)outstanding(), (int)live_cells );
        }
    }
    delete box;
    delete box2;
    live_total = base;
    if ( mode & M_EXT ) { // only what concerns storage
        ext_flush();
        evs.erase( std::remove_if( evs.begin(), evs.end(), []( Event const& e ) { return !std::strchr( "ObuzCDxX", e.e ); } ), evs.end() );
    }
    if ( mode & M_PLAIN )
        plain_pieces();
    if ( !( mode & ( M_MEM | M_ATOM | M_PAY | M_EXT ) ) )
        canonical();
}

std::vector< uint8_t > current_path()
{
    extern std::vector< uint8_t > rt_path();
    return rt_path();
}

int main( int argc, char** argv )
{
    std::ifstream in( argv[ 1 ] );
    out = std::fopen( argv[ 2 ], "w" );
    set_cell_size( sizeof( VS ) );
    install_crash_handlers( on_crash );
    watchdog_arm( 10 );
    std::string line;
    while ( std::getline( in, line ) ) {
        if ( line.empty() || line[ 0 ] == '#' )
            continue;
        Program p = parse( line );
        prog      = &p;
        Explorer ex( p.c );
        g_ex = &ex;
        if ( argc > 4 && !std::strcmp( argv[ 3 ], "--replay" ) ) {
            std::vector< uint8_t > path;
            for ( const char* q = argv[ 4 ]; *q; ++q )
                path.push_back( (uint8_t)( *q - '0' ) );
            ex.force( path );
        }
        std::unordered_set< uint64_t > seen;
        auto                           t0 = std::chrono::steady_clock::now();
        do {
            one_execution( ex );
            if ( seen.insert( hash_history() ).second )
                std::fputs( render( ex.path ).c_str(), out );
            if ( aborted || ( !evs.empty() && evs[ 0 ].e == 'X' ) )
                break;
            if ( ( ex.executions & 1023 ) == 0
                 && std::chrono::duration< double >( std::chrono::steady_clock::now() - t0 ).count() > p.sec )
                break;
        } while ( ex.next() );
        std::fprintf( out, "{\"stat\":%d,\"ex\":%ld,\"pts\":%ld,\"hist\":%zu,\"done\":%d}\n", p.id, ex.executions, ex.points, seen.size(), (int)ex.done );
        std::fflush( out );
    }
    std::fclose( out );
    std::_Exit( 0 );
}
