"""Native search for failing bit-field accesses in the C++ library: the real headers compiled with address and undefined
behaviour sanitizers, against a bit-by-bit oracle."""
import sys, json, os, subprocess, tempfile, shutil, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
BASES = {"bool": ("bool", 8, False)}
for n in (8, 16, 32, 64):
    for s in (False, True): BASES[f"{'i' if s else 'u'}{n}"] = (f"{'' if s else 'u'}int{n}_t", n, s)
for k in list(BASES):
    if k != "bool": BASES["E" + k] = ("E" + k, BASES[k][1], BASES[k][2])

HEAD = r'''
#include <flatdata/internal/Reader.h>
#include <flatdata/internal/Writer.h>
#include <flatdata/internal/functional/Tagged.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
using u64 = unsigned long long;
static u64 rs = SEEDVAL;
static u64 rnd( ) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static unsigned long cases = 0;
static std::string cur;
struct Buf { unsigned char* p; size_t n; Buf( size_t n ) : p( static_cast< unsigned char* >( malloc( n ) ) ), n( n ) {} ~Buf( ) { free( p ); } };
static u64 get( const unsigned char* p, int o, int w ) { u64 v = 0; for ( int i = 0; i < w; i++ ) v |= u64( ( p[ ( o + i ) / 8 ] >> ( ( o + i ) % 8 ) ) & 1 ) << i; return v; }
static u64 ext( u64 v, int w, bool s ) { if ( s && w > 1 && w < 64 && ( ( v >> ( w - 1 ) ) & 1 ) ) v |= ~u64( 0 ) << w; return v; }
static void fail( const char* what, const unsigned char* p, size_t n, u64 want, u64 got, u64 value )
{
    printf( "FOUND {\"call\": \"%s\", \"what\": \"%s\", \"data\": \"", cur.c_str( ), what );
    for ( size_t i = 0; i < n; i++ ) printf( "%02x", p[ i ] );
    printf( "\", \"expected\": %llu, \"got\": %llu, \"value\": %llu}\n", want, got, value );
    fflush( stdout ); _Exit( 3 );
}
static void fill( Buf& b, int r ) { for ( size_t i = 0; i < b.n; i++ ) b.p[ i ] = r == 0 ? 0xff : r == 1 ? 0 : static_cast< unsigned char >( rnd( ) >> 11 ); }
template < typename T, int o, int w, bool s > void rd( int rounds, const std::vector< std::vector< int > >& hints )
{
    cur = "Reader< " + std::string( __PRETTY_FUNCTION__ ) + " >"; printf( "CASE %s\n", cur.c_str( ) );
    for ( int r = 0; r < rounds; r++ )
    {
        Buf b( ( o + w + 7 ) / 8 + 8 ); fill( b, r );
        if ( r < static_cast< int >( hints.size( ) ) ) for ( size_t i = 0; i < b.n && i < hints[ r ].size( ); i++ ) b.p[ i ] = static_cast< unsigned char >( hints[ r ][ i ] );
        std::vector< unsigned char > pre( b.p, b.p + b.n );
        T t = flatdata::Reader< T, o, w, 0 >{ b.p };
        u64 want = ext( get( pre.data( ), o, w ), w, s );
        u64 got = static_cast< u64 >( static_cast< long long >( static_cast< typename flatdata::UnderlyingType< T >::type >( t ) ) );
        if ( sizeof( T ) < 8 && !s ) got &= ( u64( 1 ) << ( 8 * sizeof( T ) ) ) - 1;
        cases++;
        if ( got != want ) fail( "read", pre.data( ), b.n, want, got, 0 );
    }
}
template < typename T > T mk( u64 v ) { return static_cast< T >( static_cast< typename flatdata::UnderlyingType< T >::type >( v ) ); }
template < typename T, int o, int w, bool s > void wr( int rounds, const std::vector< std::vector< int > >& hints, const std::vector< u64 >& vals )
{
    cur = "Writer< " + std::string( __PRETTY_FUNCTION__ ) + " >"; printf( "CASE %s\n", cur.c_str( ) );
    for ( int r = 0; r < rounds; r++ )
    {
        Buf b( ( o + w + 7 ) / 8 + 8 ); fill( b, r / 2 );
        if ( r < static_cast< int >( hints.size( ) ) ) for ( size_t i = 0; i < b.n && i < hints[ r ].size( ); i++ ) b.p[ i ] = static_cast< unsigned char >( hints[ r ][ i ] );
        u64 m = w == 64 ? ~u64( 0 ) : ( u64( 1 ) << w ) - 1;
        u64 bits = ( r < static_cast< int >( vals.size( ) ) ? vals[ r ] : r % 4 == 0 ? m : r % 4 == 1 ? 0 : r % 4 == 2 ? ( u64( 1 ) << ( w - 1 ) ) : rnd( ) ) & m;
        u64 v = ext( bits, w, s );
        std::vector< unsigned char > want( b.p, b.p + b.n );
        for ( int i = 0; i < w; i++ ) { want[ ( o + i ) / 8 ] &= static_cast< unsigned char >( ~( 1 << ( ( o + i ) % 8 ) ) ); want[ ( o + i ) / 8 ] |= static_cast< unsigned char >( ( ( bits >> i ) & 1 ) << ( ( o + i ) % 8 ) ); }
        std::vector< unsigned char > pre( b.p, b.p + b.n );
        flatdata::Writer< T, o, w, 0 > x{ b.p };
        if ( &( x = mk< T >( v ) ) != &x ) fail( "assignment returns the writer", pre.data( ), b.n, 1, 0, v );
        cases++;
        for ( size_t i = 0; i < b.n; i++ ) if ( b.p[ i ] != want[ i ] ) fail( "write", pre.data( ), b.n, want[ i ], b.p[ i ], v );
        T t = x;
        if ( t != mk< T >( v ) ) fail( "read through writer", pre.data( ), b.n, v, static_cast< u64 >( static_cast< typename flatdata::UnderlyingType< T >::type >( t ) ), v );
    }
}
template < typename T, T inv, int o, int w, bool s > void tg( int rounds, bool write )
{
    cur = "Tagged< " + std::string( __PRETTY_FUNCTION__ ) + " >"; printf( "CASE %s\n", cur.c_str( ) );
    using G = flatdata::Tagged< T, inv >;
    for ( int r = 0; r < rounds; r++ )
    {
        Buf b( ( o + w + 7 ) / 8 + 8 ); fill( b, r / 4 );
        u64 m = w == 64 ? ~u64( 0 ) : ( u64( 1 ) << w ) - 1;
        u64 bits = ( r % 3 == 0 ? static_cast< u64 >( inv ) : rnd( ) ) & m;
        for ( int i = 0; i < w; i++ ) { b.p[ ( o + i ) / 8 ] &= static_cast< unsigned char >( ~( 1 << ( ( o + i ) % 8 ) ) ); b.p[ ( o + i ) / 8 ] |= static_cast< unsigned char >( ( ( bits >> i ) & 1 ) << ( ( o + i ) % 8 ) ); }
        std::vector< unsigned char > pre( b.p, b.p + b.n );
        T v = mk< T >( ext( bits, w, s ) );
        cases++;
        if ( !write )
        {
            flatdata::Reader< G, o, w, 0 > x{ b.p };
            if ( static_cast< bool >( x ) != ( v != inv ) ) fail( "has value", pre.data( ), b.n, v != inv, v == inv, 0 );
            if ( *x != v ) fail( "value", pre.data( ), b.n, static_cast< u64 >( v ), static_cast< u64 >( *x ), 0 );
            boost::optional< T > y = x;
            if ( static_cast< bool >( y ) != ( v != inv ) || ( y && *y != v ) ) fail( "optional", pre.data( ), b.n, static_cast< u64 >( v ), y ? static_cast< u64 >( *y ) : 0, 0 );
        }
        else
        {
            fill( b, r / 4 );
            std::vector< unsigned char > want( b.p, b.p + b.n );
            pre = want;
            bool has = r % 5 != 0;
            u64 tb = has ? bits : ( static_cast< u64 >( inv ) & m );
            for ( int i = 0; i < w; i++ ) { want[ ( o + i ) / 8 ] &= static_cast< unsigned char >( ~( 1 << ( ( o + i ) % 8 ) ) ); want[ ( o + i ) / 8 ] |= static_cast< unsigned char >( ( ( tb >> i ) & 1 ) << ( ( o + i ) % 8 ) ); }
            flatdata::Writer< G, o, w, 0 > x{ b.p };
            if ( r % 2 ) { boost::optional< T > y; if ( has ) y = v; if ( &( x = y ) != &x ) fail( "assignment returns the writer", pre.data( ), b.n, 1, 0, static_cast< u64 >( v ) ); }
            else { if ( !has ) v = inv; x = v; }
            for ( size_t i = 0; i < b.n; i++ ) if ( b.p[ i ] != want[ i ] ) fail( "write", pre.data( ), b.n, want[ i ], b.p[ i ], static_cast< u64 >( v ) );
            T e = has ? v : inv;
            if ( static_cast< bool >( x ) != ( e != inv ) || *x != e ) fail( "read through writer", pre.data( ), b.n, static_cast< u64 >( e ), static_cast< u64 >( *x ), 0 );
        }
    }
}
template < typename T, int o, int w, int sz, bool s > void rg( int rounds )
{
    cur = "Range< " + std::string( __PRETTY_FUNCTION__ ) + " >"; printf( "CASE %s\n", cur.c_str( ) );
    for ( int r = 0; r < rounds; r++ )
    {
        Buf b( ( 8 * sz + o + w + 7 ) / 8 + 8 ); fill( b, r );
        std::pair< T, T > x = flatdata::Reader< std::pair< T, T >, o, w, sz >{ b.p };
        u64 a = ext( get( b.p, o, w ), w, s ), e = ext( get( b.p, 8 * sz + o, w ), w, s );
        cases++;
        if ( x.first != mk< T >( a ) ) fail( "range start", b.p, b.n, a, static_cast< u64 >( x.first ), 0 );
        if ( x.second != mk< T >( e ) ) fail( "range end", b.p, b.n, e, static_cast< u64 >( x.second ), 0 );
    }
}
'''
def lit(c, v, n):
    return f"static_cast< {c} >( {v & ((1 << 64) - 1)}ull )" if n == 64 else f"static_cast< {c} >( {v} )"

def main():
    req = json.load(sys.stdin)
    rounds = req.get("rounds", 60)
    src = [HEAD.replace("SEEDVAL", str(88172645463325252 + SEED))]
    for t in {c["tag"] for c in req["cases"]}:
        if t[0] == "E": src.append(f"enum class {t} : {BASES[t[1:]][0]} {{}};")
    calls = []
    for c in req["cases"]:
        ct, n, s = BASES[c["tag"]]
        o, w = c["o"], c["w"]
        S = "true" if s else "false"
        hb = "{" + ", ".join("{" + ", ".join(map(str, h)) + "}" for h in c.get("bytes", [])) + "}"
        hv = "{" + ", ".join(str(v & ((1 << 64) - 1)) + "ull" for v in c.get("values", [])) + "}"
        k = c["kind"]
        if k == "rd": calls.append(f"rd< {ct}, {o}, {w}, {S} >( {rounds}, {hb} );")
        elif k == "wr": calls.append(f"wr< {ct}, {o}, {w}, {S} >( {rounds}, {hb}, {hv} );")
        elif k in ("tr", "tw"): calls.append(f"tg< {ct}, {lit(ct, c['inv'], n)}, {o}, {w}, {S} >( {rounds}, {'true' if k == 'tw' else 'false'} );")
        elif k == "rp": calls.append(f"rg< {ct}, {o}, {w}, {c['sz']}, {S} >( {rounds} );")
    src.append("int main( ) {\n" + "\n".join(calls) + '\nprintf( "DONE %lu\\n", cases ); }\n')
    d = tempfile.mkdtemp(prefix="fdvc_", dir="/tmp")
    try:
        with open(os.path.join(d, "s.cpp"), "w") as f: f.write("\n".join(src))
        cpp = os.path.join(REPO, "flatdata-cpp")
        p = subprocess.run(["clang++", "-std=c++17", req.get("opt", "-O1"), "-w", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all",
                            "-I" + os.path.join(cpp, "include"), "-I" + os.path.join(cpp, "vendor"), os.path.join(d, "s.cpp"), "-o", os.path.join(d, "s")],
                           capture_output=True, text=True)
        if p.returncode:
            err = [l for l in p.stderr.split("\n") if "error" in l][:2]
            # a documented use of the public headers that no longer compiles is itself the failing input
            print(json.dumps(dict(found=bool(err), call="compile", cases=0, got=err)))
            return
        q = subprocess.run([os.path.join(d, "s")], capture_output=True, text=True, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        lines = q.stdout.strip().split("\n")
        n = next((int(l[5:]) for l in lines if l.startswith("DONE ")), 0)
        hit = next((l[6:] for l in lines if l.startswith("FOUND ")), None)
        if hit:
            print(json.dumps(dict(json.loads(hit), found=True, cases=n)))
        elif q.returncode:
            last = [l for l in lines if l.startswith("CASE ")][-1:]
            print(json.dumps(dict(found=True, cases=n, call=last, got=q.stderr[:800])))
        else:
            print(json.dumps(dict(found=False, cases=n)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
main()
