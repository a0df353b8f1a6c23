"""Native search for failing writes of C++ resources: the real ResourceStorage, ExternalVector and MultiVector on outputs that accept
everything, fail at some byte or when flushed, or do not exist, in memory and in files, against an oracle (address sanitizer)."""
import sys, json, os, subprocess, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
from checks.vec_src import ELEM
BODY = r'''
#include <flatdata/flatdata.h>
#include <cstdio>
using u64 = unsigned long long;
static u64 rs = SEEDVAL;
static u64 rnd( ) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static size_t below( size_t n ) { return n ? static_cast< size_t >( ( rnd( ) >> 9 ) % n ) : 0; }
static unsigned long cases = 0;
static std::string cur;
static void fail( const std::string& what, long long want, long long got )
{
    printf( "FOUND {\"call\": \"%s\", \"what\": \"%s\", \"expected\": %lld, \"got\": %lld}\n", cur.c_str( ), what.c_str( ), want, got );
    fflush( stdout ); _Exit( 3 );
}
static void eq( const char* what, long long got, long long want ) { cases++; if ( got != want ) fail( what, want, got ); }
#define S( x ) std::to_string( x )
#include <fstream>
#include <flatdata/internal/ResourceHandle.h>
#include <sys/mman.h>
template < template < typename, int, int, int > class Member > union IxT
{
    using StreamType = typename Member< uint32_t, 0, 0, 0 >::StreamType;
    using MutatorType = IxT< flatdata::Writer >; using AccessorType = IxT< flatdata::Reader >;
    IxT( ) : _data( Member< uint32_t, 0, 0, 0 >{ nullptr } ) {}
    explicit IxT( StreamType data ) : _data( Member< uint32_t, 0, 0, 0 >{ data } ) {}
    StreamType data( ) const { return _data.data; }
    static constexpr size_t size_in_bytes( ) { return 4; }
    static constexpr bool IS_OVERLAPPING_WITH_NEXT = true;
    Member< uint32_t, 0, 0, 0 > _data;
    Member< uint64_t, 0, 32, 4 > value;
    Member< std::pair< uint64_t, uint64_t >, 0, 32, 4 > range;
};
using Ix = IxT< flatdata::Reader >;

static std::map< std::string, std::string > files;
static std::map< std::string, size_t > limit;       // bytes accepted
static std::map< std::string, bool > nosync, none;
struct Buf : std::streambuf
{
    std::string k, v; size_t pos = 0;
    Buf( const char* key ) : k( key ) {}
    bool full( size_t n ) { auto l = limit.find( k ); return l != limit.end( ) && pos + n > l->second; }
    std::streamsize xsputn( const char* p, std::streamsize n ) override { if ( full( n ) ) return 0; if ( v.size( ) < pos + n ) v.resize( pos + n ); memcpy( &v[ pos ], p, n ); pos += n; return n; }
    int overflow( int c ) override { char x = static_cast< char >( c ); return xsputn( &x, 1 ) == 1 ? 0 : EOF; }
    int sync( ) override { if ( nosync.count( k ) ) return -1; files[ k ] = v; return 0; }
    pos_type seekpos( pos_type p, std::ios_base::openmode ) override { pos = p; return p; }
    pos_type seekoff( off_type o, std::ios_base::seekdir d, std::ios_base::openmode ) override { pos = d == std::ios_base::beg ? o : d == std::ios_base::cur ? pos + o : v.size( ) + o; return pos; }
};
struct Out : std::ostream { Buf b; Out( const char* k ) : std::ostream( nullptr ), b( k ) { rdbuf( &b ); } };
struct Store : flatdata::ResourceStorage
{
    std::unique_ptr< ResourceStorage > create_directory( const char* ) override { return nullptr; }
    std::unique_ptr< ResourceStorage > directory( const char* ) override { return nullptr; }
    bool exists( const char* key ) override { return files.count( key ) != 0; }
    std::shared_ptr< std::ostream > create_output_stream( const char* k ) override { if ( none.count( k ) ) return nullptr; return std::make_shared< Out >( k ); }
    flatdata::MemoryDescriptor read_resource( const char* key ) override { auto f = files.find( key ); return f == files.end( ) ? flatdata::MemoryDescriptor( ) : flatdata::MemoryDescriptor( f->second.data( ), f->second.size( ) ); }
};
static std::string want( const std::string& p ) { std::string s; for ( int i = 0; i < 8; i++ ) s += static_cast< char >( u64( p.size( ) ) >> ( 8 * i ) ); return s + p + std::string( 8, '\0' ); }
static std::string bytes( const uc* p, size_t n ) { return std::string( reinterpret_cast< const char* >( p ), n ); }
static void same( const char* what, const std::string& got, const std::string& w )
{
    cases++;
    if ( got == w ) return;
    if ( got.size( ) != w.size( ) ) fail( std::string( what ) + ": size", w.size( ), got.size( ) );
    for ( size_t i = 0; i < w.size( ); i++ ) if ( got[ i ] != w[ i ] ) fail( std::string( what ) + ": byte " + S( i ), static_cast< uc >( w[ i ] ), static_cast< uc >( got[ i ] ) );
}
static std::string name( ) { return below( 3 ) ? "res" : std::string( 1 + below( 40 ), 'n' ); }
static std::string schema( ) { std::string s; for ( size_t k = below( 50 ); k--; ) s += static_cast< char >( 1 + below( 255 ) ); return s; }
static std::string last_schema;
static bool maybe; // the schema is not written, but the one stored before is the same
// faults of one output: returns whether all outputs accept everything
static bool faults( const std::vector< std::string >& keys, const std::vector< size_t >& sizes )
{
    limit.clear( ); nosync.clear( ); none.clear( ); files.clear( );
    maybe = false;
    bool old = below( 3 ) == 0;
    if ( old )
    {
        cur += ", over older contents";
        for ( const std::string& k : keys ) files[ k ] = k.find( ".schema" ) != std::string::npos ? last_schema : want( std::string( below( 4 ) * 5, 'o' ) );
        if ( keys.size( ) == 4 ) files[ keys[ 3 ] ] = "index(" + last_schema + ")";
    }
    if ( below( 2 ) ) return true;
    size_t i = below( keys.size( ) ); const std::string& k = keys[ i ];
    maybe = old && k.find( ".schema" ) != std::string::npos;
    switch ( below( 3 ) )
    {
    case 0: none[ k ] = true; cur += ", no output for " + k; break;
    case 1: nosync[ k ] = true; cur += ", flushing " + k + " fails"; break;
    default: if ( sizes[ i ] == 0 ) return true; limit[ k ] = below( sizes[ i ] ); cur += ", " + k + " is full after " + S( limit[ k ] ) + " bytes";
    }
    return false;
}
template < size_t N, bool OV > void view( flatdata::ResourceStorage& st, const std::string& n, const std::string& x, bool file, const std::string& dir )
{
    flatdata::Vector< El< N, OV > > v( below( 12 ) );
    size_t cnt = v.size( );
    for ( size_t i = 0; i < v.size_in_bytes( ); i++ ) v.data( )[ i ] = static_cast< uc >( rnd( ) );
    std::string p = bytes( v.data( ), cnt * N );
    cur = std::string( file ? "file: " : "" ) + "vector of " + S( cnt ) + ( OV ? " overlapping" : "" ) + " elements of " + S( N ) + " bytes";
    bool good = faults( { n, n + ".schema" }, { p.size( ) + 16, x.size( ) } ) || file;
    flatdata::ArrayView< El< N, OV > > a = v;
    bool r = st.write< flatdata::ArrayView< El< N, OV > > >( n.c_str( ), x.c_str( ), a );
    eq( "success", r, good );
    if ( !r ) return;
    if ( !file ) { same( "resource", files[ n ], want( p ) ); same( "schema", files[ n + ".schema" ], x ); return; }
    auto get = [&]( const std::string& k ) { std::ifstream f( dir + "/" + k, std::ios::binary ); return std::string( std::istreambuf_iterator< char >( f ), std::istreambuf_iterator< char >( ) ); };
    same( "resource", get( n ), want( p ) ); same( "schema", get( n + ".schema" ), x );
}
template < class T > void grow_ext( Store& st, const std::string& n, const std::string& x, size_t cnt )
{
    const size_t N = T::size_in_bytes( );
    cur = "external vector of " + S( cnt ) + " elements of " + S( N ) + " bytes";
    bool good = faults( { n, n + ".schema" }, { cnt * N + 16, x.size( ) } );
    auto v = st.create_external_vector< T >( n.c_str( ), x.c_str( ) );
    std::string p;
    for ( size_t i = 0; i < cnt; i++ )
    {
        auto e = v.grow( );
        for ( size_t k = 0; k < N; k++ ) if ( e.data( )[ k ] ) fail( "new element is zero", 0, e.data( )[ k ] );
        for ( size_t k = 0; k < N; k += N > 1000 ? 997 : 1 ) e.data( )[ k ] = static_cast< uc >( rnd( ) );
        e.data( )[ N - 1 ] = static_cast< uc >( rnd( ) );
        p += bytes( e.data( ), N );
        eq( "size while growing", v.size( ), i + 1 );
    }
    auto a = v.close( );
    if ( !maybe ) eq( "view", static_cast< bool >( a ), good );
    if ( !a ) return;
    same( "resource", files[ n ], want( p ) ); same( "schema", files[ n + ".schema" ], x );
    eq( "size of the view", a.size( ), cnt );
    same( "view", bytes( a.data( ), cnt * N ), p );
}
template < class A, class B > void grow_multi( Store& st, const std::string& n, const std::string& x, size_t items )
{
    cur = "multivector of " + S( items ) + " items, elements of " + S( A::size_in_bytes( ) ) + " and " + S( B::size_in_bytes( ) ) + " bytes";
    const std::string in = n + "_index";
    limit.clear( ); nosync.clear( ); none.clear( ); files.clear( );
    bool good = faults( { n, n + ".schema", in, in + ".schema" }, { 16, x.size( ), ( items + 1 ) * 4 + 16, x.size( ) + 7 } );
    auto v = st.create_multi_vector< Ix, A, B >( n.c_str( ), x.c_str( ) );
    std::string p, ix;
    auto entry = [&] { for ( int i = 0; i < 4; i++ ) ix += static_cast< char >( p.size( ) >> ( 8 * i ) ); };
    for ( size_t i = 0; i < items; i++ )
    {
        auto l = v.grow( );
        entry( );
        for ( size_t k = below( 4 ); k--; )
        {
            auto fill = [&]( uc* d, size_t N, int t ) {
                for ( size_t j = 0; j < N; j++ ) if ( d[ j ] ) fail( "new element is zero", 0, d[ j ] );
                for ( size_t j = 0; j < N; j += N > 1000 ? 997 : 1 ) d[ j ] = static_cast< uc >( rnd( ) );
                p += static_cast< char >( t ); p += bytes( d, N );
            };
            if ( below( 2 ) ) fill( l.template add< A >( ).data( ), A::size_in_bytes( ), 0 ); else fill( l.template add< B >( ).data( ), B::size_in_bytes( ), 1 );
        }
    }
    entry( );
    auto a = v.close( );
    if ( !maybe ) eq( "view", static_cast< bool >( a ), good );
    if ( !a ) return;
    same( "data", files[ n ], want( p ) ); same( "schema", files[ n + ".schema" ], x );
    same( "index", files[ in ], want( ix ) ); same( "index schema", files[ in + ".schema" ], "index(" + x + ")" );
    eq( "size of the view", a.size( ), items );
}
struct Count : std::streambuf
{
    u64 pos = 0; uc head[ 8 ];
    std::streamsize xsputn( const char* p, std::streamsize n ) override { for ( std::streamsize i = 0; i < n && pos + i < 8; i++ ) head[ pos + i ] = static_cast< uc >( p[ i ] ); pos += n; return n; }
    int overflow( int c ) override { char x = static_cast< char >( c ); xsputn( &x, 1 ); return 0; }
    pos_type seekpos( pos_type p, std::ios_base::openmode ) override { pos = p; return p; }
    pos_type seekoff( off_type o, std::ios_base::seekdir d, std::ios_base::openmode ) override { if ( d == std::ios_base::beg ) pos = o; return pos; }
    u64 header( ) const { u64 r = 0; for ( int i = 0; i < 8; i++ ) r |= u64( head[ i ] ) << ( 8 * i ); return r; }
};
struct Big : Store { Count c; std::shared_ptr< std::ostream > create_output_stream( const char* k ) override { if ( std::string( k ) != "big" ) return Store::create_output_stream( k ); return std::make_shared< std::ostream >( &c ); } };
static void big( )
{
    limit.clear( ); nosync.clear( ); none.clear( ); files.clear( );
    const size_t M = 64 << 20;
    uc* d = static_cast< uc* >( mmap( nullptr, 80 * M, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
    cur = "raw data of 5 GiB and 5 bytes"; Big b;
    eq( "success", b.write< flatdata::MemoryDescriptor >( "big", "schema", flatdata::MemoryDescriptor( d, 80 * M - 11 ) ), 1 );
    eq( "stored size", b.c.header( ), 80 * M - 11 ); eq( "stored bytes", b.c.pos, 80 * M + 5 );
    Count c; cur = "resource handle of 5 GiB, written in parts";
    auto h = flatdata::ResourceHandle::create( std::make_shared< std::ostream >( &c ), [] { return flatdata::MemoryDescriptor( ); } );
    for ( int i = 0; i < 80; i++ ) h->write( d + i * M, M );
    h->close( );
    eq( "stored size", c.header( ), 80 * M );
    munmap( d, 80 * M );
    Big s; cur = "multivector of 4.5 GiB";
    auto v = s.create_multi_vector< Ix, El< 64 << 20, false >, El< 1, false > >( "big", "x" );
    for ( int i = 0; i < HUGE_ITEMS; i++ ) { v.grow( ).template add< El< 64 << 20, false > >( ); }
    v.close( );
    eq( "stored size", s.c.header( ), ( M + 1 ) * HUGE_ITEMS );
}
int main( int, char** argv )
{
    big( );
    const std::string dir = argv[ 1 ];
    for ( int q = 0; q < ROUNDS; q++ )
    {
        Store st; std::string n = name( ), x = last_schema = schema( );
        std::string p; for ( size_t k = below( 40 ); k--; ) p += static_cast< char >( rnd( ) );
        uc* d = static_cast< uc* >( malloc( p.size( ) ) ); if ( !p.empty( ) ) memcpy( d, p.data( ), p.size( ) );
        cur = "raw data of " + S( p.size( ) ) + " bytes";
        bool good = faults( { n, n + ".schema" }, { p.size( ) + 16, x.size( ) } );
        bool r = st.write< flatdata::MemoryDescriptor >( n.c_str( ), x.c_str( ), flatdata::MemoryDescriptor( d, p.size( ) ) );
        eq( "success", r, good );
        if ( r ) { same( "resource", files[ n ], want( p ) ); same( "schema", files[ n + ".schema" ], x ); auto b = st.read< flatdata::MemoryDescriptor >( n.c_str( ), x.c_str( ) ); eq( "read back", static_cast< bool >( b ), 1 ); }
        free( d );
        uc s5[ 5 ]; for ( auto& c : s5 ) c = static_cast< uc >( rnd( ) );
        cur = "structure of 5 bytes";
        good = faults( { n, n + ".schema" }, { 21, x.size( ) } );
        r = st.write< El< 5, false > >( n.c_str( ), x.c_str( ), El< 5, false >( s5 ) );
        eq( "success", r, good );
        if ( r ) { same( "resource", files[ n ], want( bytes( s5, 5 ) ) ); same( "schema", files[ n + ".schema" ], x ); }
        view< 3, false >( st, n, x, false, dir ); view< 12, true >( st, n, x, false, dir ); view< 5, true >( st, n, x, false, dir );
        if ( q % 20 == 0 )
        {
            std::string f = dir + "/" + S( q );
            auto fs = flatdata::FileResourceStorage::create( f.c_str( ) );
            view< 12, true >( *fs, n, x, true, f ); view< 4, false >( *fs, n + "2", x, true, f );
            std::string big( 3000 + below( 20000 ), 'x' );
            eq( "file: success", fs->write< flatdata::MemoryDescriptor >( "big", x.c_str( ), flatdata::MemoryDescriptor( big.data( ), big.size( ) ) ), 1 );
            std::ifstream in( f + "/big", std::ios::binary );
            same( "file: resource", std::string( std::istreambuf_iterator< char >( in ), std::istreambuf_iterator< char >( ) ), want( big ) );
        }
        grow_ext< El< 5, false > >( st, n, x, below( 8 ) ); grow_ext< El< 1, false > >( st, n, x, below( 30 ) );
        grow_multi< El< 3, false >, El< 8, false > >( st, n, x, below( 6 ) );
        if ( q % 400 == 7 )
        {
            const size_t M = 1024 * 1024 * 16; // two elements fill the buffer exactly up to the threshold
            grow_ext< El< M, false > >( st, n, x, 2 + below( 4 ) );
            grow_ext< El< M + 9, false > >( st, n, x, 2 + below( 4 ) );
            grow_multi< El< M + 3, false >, El< 5, false > >( st, n, x, 3 + below( 5 ) );
            files.clear( );
        }
    }
    printf( "DONE %lu\n", cases );
}
'''
def main():
    req = json.load(sys.stdin)
    src = ELEM % dict(pre="") + BODY.replace("SEEDVAL", str(88172645463325252 + SEED)).replace("ROUNDS", str(req.get("rounds", 1000))).replace("HUGE_ITEMS", "70" if req.get("rounds", 1000) > 5000 else "2")
    d = tempfile.mkdtemp(prefix="fdvc_", dir="/tmp")
    try:
        with open(os.path.join(d, "s.cpp"), "w") as f: f.write(src)
        cpp = os.path.join(REPO, "flatdata-cpp")
        srcs = [os.path.join(cpp, "src", x) for x in sorted(os.listdir(os.path.join(cpp, "src"))) if x.endswith(".cpp")]
        p = subprocess.run(["clang++", "-std=c++17", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS",
                            "-I" + os.path.join(cpp, "include"), "-I" + os.path.join(cpp, "vendor"), os.path.join(d, "s.cpp"), *srcs, "-o", os.path.join(d, "s"), "-lboost_filesystem"], capture_output=True, text=True)
        if p.returncode:
            err = [l for l in p.stderr.split("\n") if "error" in l][:2]
            print(json.dumps(dict(found=bool(err), call="compile", cases=0, got=err)))
            return
        os.mkdir(os.path.join(d, "files"))
        q = subprocess.run([os.path.join(d, "s"), os.path.join(d, "files")], capture_output=True, text=True, errors="replace", env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        lines = q.stdout.strip().split("\n")
        n = next((int(l[5:]) for l in lines if l.startswith("DONE ")), 0)
        hit = next((l[6:] for l in lines if l.startswith("FOUND ")), None)
        if hit: print(json.dumps(dict(json.loads(hit), found=True, cases=n)))
        elif q.returncode: print(json.dumps(dict(found=True, cases=n, call="address or undefined behaviour sanitizer", got=q.stderr[:1200])))
        else: print(json.dumps(dict(found=False, cases=n)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
main()
