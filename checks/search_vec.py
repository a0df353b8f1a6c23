"""Native search for failing uses of ArrayView, its iterator, Vector and MultiArrayView: the real headers compiled with address and
undefined behaviour sanitizers, against index arithmetic on plain byte vectors."""
import sys, json, os, subprocess, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
from checks.vec_src import ELEM
BODY = r'''
#include <cstdio>
#include <sys/mman.h>
using u64 = unsigned long long;
static u64 rs = SEEDVAL;
static u64 rnd( ) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static size_t below( size_t n ) { return n ? static_cast< size_t >( ( rnd( ) >> 9 ) % n ) : 0; }
static unsigned long cases = 0;
static std::string cur;
static void fail( const std::string& what, long long want, long long got )
{
    printf( "FOUND {\"call\": \"%s\", \"what\": \"%s\", \"expected\": %lld, \"got\": %lld}\n", cur.c_str( ), what.c_str( ), want, got );
    fflush( stdout ); _Exit( 3 );
}
static void eq( const char* what, long long got, long long want ) { cases++; if ( got != want ) fail( what, want, got ); }
struct Buf { uc* p; size_t n; Buf( size_t n ) : p( static_cast< uc* >( malloc( n ? n : 1 ) ) ), n( n ) { for ( size_t i = 0; i < n; i++ ) p[ i ] = static_cast< uc >( rnd( ) >> 11 ); } ~Buf( ) { free( p ); } };
#define S( x ) std::to_string( x )
template < int N, bool OV > void views( int rounds )
{
    using T = El< N, OV >; using V = flatdata::ArrayView< T >; using It = typename V::const_iterator;
    for ( int q = 0; q < rounds; q++ )
    {
        size_t bytes = q < 5 * N ? static_cast< size_t >( q ) : below( 40 * N );
        Buf b( bytes + 8 );
        V v( b.p, b.p + bytes );
        size_t cnt = bytes / N, n = OV && cnt ? cnt - 1 : cnt;
        cur = "ArrayView< element of " + S( N ) + ( OV ? " bytes, overlapping" : " bytes" ) + " > over " + S( bytes ) + " bytes";
        eq( "size", v.size( ), n ); eq( "size in bytes", v.size_in_bytes( ), bytes / N * N ); eq( "data", v.data( ) - b.p, 0 ); eq( "empty", v.empty( ), n == 0 ); eq( "bool", static_cast< bool >( v ), 1 );
        eq( "end - begin", v.end( ) - v.begin( ), n );
        size_t k = 0;
        for ( It i = v.begin( ); i != v.end( ); ++i, ++k ) { eq( "element while iterating", ( *i ).data( ) - b.p, k * N ); eq( "index", v[ k ].data( ) - b.p, k * N ); eq( "arrow", i->data( ) - b.p, k * N ); }
        eq( "iterated elements", k, n );
        if ( n ) { eq( "front", v.front( ).data( ) - b.p, 0 ); eq( "back", v.back( ).data( ) - b.p, ( n - 1 ) * N ); }
        for ( int r = 0; r < 6; r++ )
        {
            size_t p = below( n + 1 ), e = p + below( n - p + 1 );
            auto chk = [&]( const char* what, const V& s, size_t from, size_t to ) {
                cur = "ArrayView< element of " + S( N ) + ( OV ? " bytes, overlapping" : " bytes" ) + " > over " + S( bytes ) + " bytes, elements " + S( from ) + " to " + S( to );
                eq( ( std::string( what ) + ": size" ).c_str( ), s.size( ), to - from );
                if ( to > from ) { eq( ( std::string( what ) + ": data" ).c_str( ), s.data( ) - b.p, from * N ); eq( ( std::string( what ) + ": last" ).c_str( ), s[ to - from - 1 ].data( ) - b.p, ( to - 1 ) * N ); eq( ( std::string( what ) + ": back" ).c_str( ), s.back( ).data( ) - b.p, ( to - 1 ) * N ); }
                size_t c = 0; for ( auto x : s ) { eq( what, x.data( ) - b.p, ( from + c ) * N ); c++; } eq( what, c, to - from );
            };
            if ( !OV || bytes >= N )
            {
                chk( "slice", v.slice( p, e - p ), p, e ); chk( "slice pair", v.slice( std::make_pair( p, e ) ), p, e );
                chk( "slice_before", v.slice_before( p ), 0, p ); chk( "slice_after", v.slice_after( p ), p, n );
                chk( "skip", v.skip( p ), p, n ); chk( "skip_last", v.skip_last( p ), 0, n - p );
            }
            It f = v.begin( ); It g = f; g += static_cast< ptrdiff_t >( p );
            ptrdiff_t d = static_cast< ptrdiff_t >( e - p ), D = -d;
            It h = v.begin( ) + static_cast< ptrdiff_t >( e );
            eq( "h - g", h - g, d ); eq( "g - h", g - h, D ); eq( "g + d == h", g + d == h, 1 ); eq( "h + -d == g", h + D == g, 1 ); eq( "h - d == g", h - d == g, 1 ); eq( "g - -d == h", g - D == h, 1 );
            It x = g; x += d; eq( "+=", x == h, 1 ); x += D; eq( "+= negative", x == g, 1 ); x -= D; eq( "-= negative", x == h, 1 ); x -= d; eq( "-=", x == g, 1 );
            eq( "<", g < h, d > 0 ); eq( "<=", g <= h, 1 ); eq( ">", g > h, 0 ); eq( ">=", g >= h, d == 0 ); eq( "==", g == h, d == 0 ); eq( "!=", g != h, d != 0 );
            eq( "h < g", h < g, 0 ); eq( "h <= g", h <= g, d == 0 ); eq( "h > g", h > g, d > 0 ); eq( "h >= g", h >= g, 1 );
            if ( d ) { eq( "[]", g[ d - 1 ].data( ) - b.p, ( e - 1 ) * N ); eq( "[] negative", h[ D ].data( ) - b.p, p * N );
                It y = g; eq( "it++", ( *( y++ ) ).data( ) - b.p, p * N ); eq( "after ++", y - g, 1 ); eq( "it--", y-- - g, 1 ); eq( "after --", y - g, 0 ); eq( "++it", ++y - g, 1 ); eq( "--it", --y - g, 0 ); }
        }
    }
}
template < int N, bool OV > void far( int rounds )
{
    using T = El< N, OV >; using V = flatdata::ArrayView< T >; using It = typename V::const_iterator;
    const uc* b = reinterpret_cast< const uc* >( static_cast< uintptr_t >( 1 ) << 41 );
    for ( int q = 0; q < rounds; q++ )
    {
        size_t cnt = ( static_cast< size_t >( 1 ) << ( 1 + below( 33 ) ) ) + below( 5 ), n = OV ? cnt - 1 : cnt, p = below( n + 1 ), e = p + below( n - p + 1 );
        V v( b, b + cnt * N );
        cur = "ArrayView< element of " + S( N ) + ( OV ? " bytes, overlapping" : " bytes" ) + " > of " + S( cnt ) + " elements (addresses only), elements " + S( p ) + " to " + S( e );
        eq( "size", v.size( ), n ); eq( "size in bytes", v.size_in_bytes( ), cnt * N );
        eq( "[]", v[ p ].data( ) - b, p * N ); eq( "back", v.back( ).data( ) - b, ( n - 1 ) * N ); eq( "end", v.end( ) - v.begin( ), n );
        for ( const V& s : { v.slice( p, e - p ), v.slice( std::make_pair( p, e ) ), v.slice_after( p ).slice_before( e - p ), v.skip( p ).skip_last( n - e ) } )
            { eq( "slice size", s.size( ), e - p ); eq( "slice data", s.data( ) - b, p * N ); }
        It f = v.begin( ); ptrdiff_t P = static_cast< ptrdiff_t >( p ), D = static_cast< ptrdiff_t >( e - p ), B = -D;
        It g = f + P, h = g + D;
        eq( "+", ( *g ).data( ) - b, p * N ); eq( "[]", g[ D ].data( ) - b, e * N ); eq( "[] negative", h[ B ].data( ) - b, p * N );
        eq( "h - g", h - g, D ); eq( "g - h", g - h, B ); eq( "h - d", h - D == g, 1 ); g += D; eq( "+=", g == h, 1 ); g -= D; eq( "-=", g - f, P );
    }
}
template < int N, bool OV > void vectors( int rounds )
{
    using V = flatdata::Vector< El< N, OV > >;
    for ( int q = 0; q < rounds; q++ )
    {
        std::vector< uc > m;
        std::string hist = "Vector of " + S( N ) + ( OV ? "-byte overlapping" : "-byte" ) + " elements:";
        size_t n0 = below( 5 );
        V v( n0 ); m.resize( n0 * N ); hist += " Vector(" + S( n0 ) + ")";
        for ( int step = 0; step < 8; step++ )
        {
            cur = hist;
            const V& c = v;
            size_t n = m.size( ) / N;
            eq( "size", v.size( ), n ); eq( "size in bytes", v.size_in_bytes( ), m.size( ) );
            flatdata::ArrayView< El< N, OV > > a = c;
            eq( "view data", a.data( ) - c.data( ), 0 ); eq( "view bytes", a.size_in_bytes( ), m.size( ) ); eq( "view size", a.size( ), OV ? ( n ? n - 1 : 0 ) : n );
            for ( size_t i = 0; i < m.size( ); i++ ) eq( "byte of an element", c.data( )[ i ], m[ i ] );
            for ( size_t i = 0; i < 8; i++ ) eq( "padding byte", c.data( )[ m.size( ) + i ], 0 );
            if ( n ) { eq( "front", v.front( ).data( ) - v.data( ), 0 ); eq( "const front", c.front( ).data( ) - c.data( ), 0 ); eq( "back", v.back( ).data( ) - v.data( ), ( n - 1 ) * N ); eq( "const back", c.back( ).data( ) - c.data( ), ( n - 1 ) * N ); }
            for ( size_t i = 0; i < n; i++ ) { eq( "element", v[ i ].data( ) - v.data( ), i * N ); eq( "const element", c[ i ].data( ) - c.data( ), i * N ); }
            switch ( below( 8 ) )
            {
            case 0: case 1: { hist += " grow"; cur = hist; auto g = v.grow( ); m.resize( m.size( ) + N ); eq( "grow returns the last", g.data( ) - v.data( ), m.size( ) - N ); break; }
            case 2: if ( n ) { hist += " pop_back"; cur = hist; v.pop_back( ); m.resize( m.size( ) - N ); } break;
            case 3: { size_t k = below( 7 ); hist += " resize(" + S( k ) + ")"; cur = hist; v.resize( k ); m.resize( k * N ); break; }
            case 4: { size_t k = below( 20 ); hist += " reserve(" + S( k ) + ")"; cur = hist; v.reserve( k ); break; }
            case 5: { hist += " copy"; cur = hist; V w( v ); for ( size_t i = 0; i < w.size_in_bytes( ); i++ ) w.data( )[ i ] = 0xaa; v = V( v ); break; }
            case 6: { hist += " move"; cur = hist; V w( std::move( v ) ); v = w; break; }
            default: { hist += " fill"; for ( size_t i = 0; i < m.size( ); i++ ) v.data( )[ i ] = m[ i ] = static_cast< uc >( rnd( ) >> 13 ); }
            }
        }
    }
}
template < template < typename, int, int, int > class Member, int W > union IdxT
{
    using StreamType = typename Member< uint32_t, 0, 0, 0 >::StreamType; using MutatorType = IdxT< flatdata::Writer, W >; using AccessorType = IdxT< flatdata::Reader, W >;
    IdxT( ) : _data( Member< uint32_t, 0, 0, 0 >{ nullptr } ) {}
    explicit IdxT( StreamType data ) : _data( Member< uint32_t, 0, 0, 0 >{ data } ) {}
    StreamType data( ) const { return _data.data; }
    static constexpr size_t size_in_bytes( ) { return W / 8; }
    static constexpr bool IS_OVERLAPPING_WITH_NEXT = true;
    Member< uint32_t, 0, 0, 0 > _data;
    Member< uint64_t, 0, W, W / 8 > value;
    Member< std::pair< uint64_t, uint64_t >, 0, W, W / 8 > range;
};
using A = El< 5, false >; using B = El< 1, false >; using C = El< 12, false >;
template < typename M, typename T > void iter( const M& m, size_t i, const uc* d, const std::vector< std::pair< int, size_t > >& want, int type )
{
    auto it = m.template iterator< T >( i );
    for ( auto& w : want )
    {
        if ( w.first != type ) continue;
        eq( "iterator valid", it.valid( ), 1 ); eq( "iterator element", ( *it ).data( ) - d, w.second );
        if ( below( 2 ) ) it++; else ++it;
    }
    eq( "iterator invalid at the end", it.valid( ), 0 );
}
template < int W > void far_items( )
{
    using Idx = IdxT< flatdata::Reader, W >; using M = flatdata::MultiArrayView< Idx, A, B, C >;
    if ( W < 40 ) return;
    const size_t big = ( size_t( 1 ) << 33 ) + 4096;
    uc* d = static_cast< uc* >( mmap( nullptr, big, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
    if ( d == MAP_FAILED ) return;
    for ( int sh = 8; sh < 34; sh++ ) for ( size_t back : { size_t( 0 ), size_t( 6 ) } )
    {
        const size_t from = ( size_t( 1 ) << sh ) - back;   // three elements: A, B, A
        d[ from ] = 0; d[ from + 6 ] = 1; d[ from + 8 ] = 0;
        uc ix[ 2 * W / 8 + 8 ];
        for ( int j = 0; j < W / 8; j++ ) { ix[ j ] = static_cast< uc >( from >> ( 8 * j ) ); ix[ W / 8 + j ] = static_cast< uc >( ( from + 14 ) >> ( 8 * j ) ); }
        M m( flatdata::ArrayView< Idx >( ix, ix + 2 * W / 8 ), d );
        cur = "MultiArrayView with a " + S( W ) + " bit index and an item of elements A B A at byte " + S( from );
        size_t a = 0, b = 0, last = 0;
        m.for_each( 0, flatdata::make_overload( [&]( A x ) { a++; last = static_cast< size_t >( x.data( ) - d ); }, [&]( B x ) { b++; eq( "position", x.data( ) - d, from + 7 ); } ) );
        eq( "elements A", a, 2 ); eq( "elements B", b, 1 ); eq( "position of the last A", last, from + 9 );
        auto it = m.template iterator< A >( 0 );
        eq( "iterator valid", it.valid( ), 1 ); eq( "iterator", ( *it ).data( ) - d, from + 1 ); ++it; eq( "iterator valid", it.valid( ), 1 ); eq( "iterator", ( *it ).data( ) - d, from + 9 ); ++it; eq( "iterator valid", it.valid( ), 0 );
    }
    munmap( d, big );
}
template < int W > void multi( int rounds )
{
    far_items< W >( );
    using Idx = IdxT< flatdata::Reader, W >; using M = flatdata::MultiArrayView< Idx, A, B, C >;
    static const size_t sz[ 3 ] = { 5, 1, 12 };
    for ( int q = 0; q < rounds; q++ )
    {
        size_t n = 1 + below( 4 );
        std::vector< uc > data; std::vector< size_t > starts; std::vector< std::vector< std::pair< int, size_t > > > want( n );
        std::string desc;
        for ( size_t i = 0; i < n; i++ )
        {
            starts.push_back( data.size( ) ); desc += " [";
            for ( size_t k = below( q % 3 ? 5 : 3 ); k--; )
            {
                int t = static_cast< int >( below( 3 ) );
                if ( data.size( ) + sz[ t ] + 1 > 255 && W == 8 ) break;
                data.push_back( static_cast< uc >( t ) ); want[ i ].emplace_back( t, data.size( ) ); desc += " ABC"[ t + 1 ];
                for ( size_t j = 0; j < sz[ t ]; j++ ) data.push_back( static_cast< uc >( rnd( ) >> 5 ) );
            }
            desc += "]";
        }
        starts.push_back( data.size( ) );
        Buf ib( ( n + 1 ) * W / 8 + 8 ), db( data.size( ) + 8 );
        if ( !data.empty( ) ) memcpy( db.p, data.data( ), data.size( ) );
        for ( size_t i = 0; i <= n; i++ ) for ( int j = 0; j < W / 8; j++ ) ib.p[ i * W / 8 + j ] = static_cast< uc >( static_cast< u64 >( starts[ i ] ) >> ( 8 * j ) );
        M m( flatdata::ArrayView< Idx >( ib.p, ib.p + ( n + 1 ) * W / 8 ), db.p );
        cur = "MultiArrayView with a " + S( W ) + " bit index and items" + desc;
        eq( "size", m.size( ), n ); eq( "bool", static_cast< bool >( m ), 1 );
        for ( size_t i = 0; i < n; i++ )
        {
            cur = "MultiArrayView with a " + S( W ) + " bit index and items" + desc + ", item " + S( i );
            std::vector< std::pair< int, size_t > > got, one, two, w1, w2;
            struct All { std::vector< std::pair< int, size_t > >* g; const uc* d; void operator( )( A x ) const { g->emplace_back( 0, x.data( ) - d ); } void operator( )( B x ) const { g->emplace_back( 1, x.data( ) - d ); } void operator( )( C x ) const { g->emplace_back( 2, x.data( ) - d ); } };
            const uc* d = db.p;
            m.for_each( i, All{ &got, d } );
            m.template for_each< C >( i, [&]( C x ) { one.emplace_back( 2, x.data( ) - d ); } );
            m.for_each( i, flatdata::make_overload( [&]( A x ) { two.emplace_back( 0, x.data( ) - d ); }, [&]( C x ) { two.emplace_back( 2, x.data( ) - d ); } ) );
            for ( auto& w : want[ i ] ) { if ( w.first == 2 ) w1.push_back( w ); if ( w.first != 1 ) w2.push_back( w ); }
            eq( "for_each visits the elements of the item in order", got == want[ i ], 1 );
            eq( "for_each of one type", one == w1, 1 ); eq( "for_each of two types", two == w2, 1 );
            iter< M, A >( m, i, d, want[ i ], 0 ); iter< M, B >( m, i, d, want[ i ], 1 ); iter< M, C >( m, i, d, want[ i ], 2 );
        }
    }
}
'''
def main():
    req = json.load(sys.stdin)
    r = req.get("rounds", 300)
    calls = []
    for n, ov in req["sizes"]:
        t = f"{n}, {'true' if ov else 'false'}"
        calls += [f"views< {t} >( {r} );", f"vectors< {t} >( {r} );", f"far< {t} >( {r} );"]
    for w in req["index"]: calls.append(f"multi< {w} >( {r} );")
    src = ELEM % dict(pre="") + BODY.replace("SEEDVAL", str(88172645463325252 + SEED)) + "int main( ) {\n" + "\n".join(f'cur = "{c[:-1]}"; printf( "CASE %s\\n", cur.c_str( ) ); fflush( stdout ); {c}' for c in calls) + '\nprintf( "DONE %lu\\n", cases ); }\n'
    d = tempfile.mkdtemp(prefix="fdvc_", dir="/tmp")
    try:
        with open(os.path.join(d, "s.cpp"), "w") as f: f.write(src)
        cpp = os.path.join(REPO, "flatdata-cpp")
        p = subprocess.run(["clang++", "-std=c++17", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all",
                            "-I" + os.path.join(cpp, "include"), "-I" + os.path.join(cpp, "vendor"), os.path.join(d, "s.cpp"), "-o", os.path.join(d, "s")], capture_output=True, text=True)
        if p.returncode:
            err = [l for l in p.stderr.split("\n") if "error" in l][:2]
            print(json.dumps(dict(found=bool(err), call="compile", cases=0, got=err)))
            return
        q = subprocess.run([os.path.join(d, "s")], capture_output=True, text=True, errors="replace", env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        lines = q.stdout.strip().split("\n")
        n = next((int(l[5:]) for l in lines if l.startswith("DONE ")), 0)
        hit = next((l[6:] for l in lines if l.startswith("FOUND ")), None)
        if hit: print(json.dumps(dict(json.loads(hit), found=True, cases=n)))
        elif q.returncode: print(json.dumps(dict(found=True, cases=n, call=[l for l in lines if l.startswith("CASE ")][-1:], got=q.stderr[:800])))
        else: print(json.dumps(dict(found=False, cases=n)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
main()
