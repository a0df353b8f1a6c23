"""Native search for failing reads of C++ resources: the real ResourceStorage with stored bytes in exactly sized buffers (address
sanitizer), in memory and in files, against an oracle; archives that refuse to open are described as well."""
import sys, json, os, subprocess, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
from checks.vec_src import ELEM
BODY = r'''
#include <flatdata/flatdata.h>
#include <cstdio>
using u64 = unsigned long long;
static u64 rs = SEEDVAL;
static u64 rnd( ) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static size_t below( size_t n ) { return n ? static_cast< size_t >( ( rnd( ) >> 9 ) % n ) : 0; }
static unsigned long cases = 0;
static std::string cur;
static void fail( const std::string& what, long long want, long long got )
{
    printf( "FOUND {\"call\": \"%s\", \"what\": \"%s\", \"expected\": %lld, \"got\": %lld}\n", cur.c_str( ), what.c_str( ), want, got );
    fflush( stdout ); _Exit( 3 );
}
static void eq( const char* what, long long got, long long want ) { cases++; if ( got != want ) fail( what, want, got ); }
#define S( x ) std::to_string( x )
static std::map< std::string, std::pair< uc*, size_t > > files;
static void clear( ) { for ( auto& f : files ) free( f.second.first ); files.clear( ); }
static void put( const std::string& k, const std::string& v ) { uc* p = static_cast< uc* >( malloc( v.size( ) ) ); if ( !v.empty( ) ) memcpy( p, v.data( ), v.size( ) ); files[ k ] = { p, v.size( ) }; }
struct Store : flatdata::ResourceStorage
{
    std::unique_ptr< ResourceStorage > create_directory( const char* ) override { return nullptr; }
    std::unique_ptr< ResourceStorage > directory( const char* ) override { return nullptr; }
    bool exists( const char* key ) override { return files.count( key ) != 0; }
    std::shared_ptr< std::ostream > create_output_stream( const char* ) override { return nullptr; }
    flatdata::MemoryDescriptor read_resource( const char* key ) override { auto f = files.find( key ); return f == files.end( ) ? flatdata::MemoryDescriptor( ) : flatdata::MemoryDescriptor( f->second.first, f->second.second ); }
};
template < template < typename, int, int, int > class Member > union IxT
{
    using StreamType = typename Member< uint32_t, 0, 0, 0 >::StreamType;
    using MutatorType = IxT< flatdata::Writer >; using AccessorType = IxT< flatdata::Reader >;
    IxT( ) : _data( Member< uint32_t, 0, 0, 0 >{ nullptr } ) {}
    explicit IxT( StreamType data ) : _data( Member< uint32_t, 0, 0, 0 >{ data } ) {}
    StreamType data( ) const { return _data.data; }
    static constexpr size_t size_in_bytes( ) { return 4; }
    static constexpr bool IS_OVERLAPPING_WITH_NEXT = true;
    Member< uint32_t, 0, 0, 0 > _data;
    Member< std::pair< uint64_t, uint64_t >, 0, 32, 4 > range;
};
using Ix = IxT< flatdata::Reader >;
struct Arch : flatdata::Archive
{
    std::string text;
    Arch( std::shared_ptr< flatdata::ResourceStorage > st, std::string t ) : Archive( st ), text( t ) { initialize( ); }
    const char* name( ) const override { return "Arch"; }
    const char* schema( ) const override { return text.c_str( ); }
    bool load_contents( ) override { return true; }
    void describe_resources( std::ostream&, size_t ) const override {}
};
static std::string schema( ) { std::string s; for ( size_t k = below( 12 ) ? below( 6 ) : 60 + below( 10 ); k--; ) { s += "line" + S( below( 3 ) ); if ( k || below( 2 ) ) s += "\n"; } return s; }
static std::string stored( const std::string& x, bool& ok, std::string& how )
{
    ok = false; std::string s = x;
    switch ( below( 11 ) )
    {
    case 0: how = "shorter schema"; if ( s.empty( ) ) { ok = true; how = "schema"; return s; } s.pop_back( ); return s;
    case 1: how = "longer schema"; return s + "x";
    case 2: how = "schema followed by a zero byte"; return s + std::string( 1, '\0' );
    case 3: how = "empty schema"; ok = x.empty( ); return "";
    case 4: how = "changed schema"; if ( s.empty( ) ) { ok = true; return s; } s[ below( s.size( ) ) ] ^= static_cast< char >( 1 + below( 255 ) ); return s;
    case 5: how = "schema with an inner zero byte"; s.insert( s.size( ) / 2, 1, '\0' ); return s;
    case 6: how = "schema followed by white space"; return s + "\n";
    case 7: how = "other schema"; s = schema( ); ok = s == x; return s;
    default: how = "schema"; ok = true; return s;
    }
}
static std::string data( bool& ok, size_t& payload, std::string& how )
{
    payload = below( 30 ); ok = false; u64 h = payload; size_t total = payload + 16;
    switch ( below( 9 ) )
    {
    case 0: how = "truncated"; total = below( payload + 16 ); break;
    case 1: how = "extended"; total += 1 + below( 20 ); break;
    case 2: how = "header off by one"; h += below( 2 ) ? 1 : -1; break;
    case 3: how = "random header"; h = rnd( ); break;
    case 4: how = "wrapping header"; total = below( 16 ); h = static_cast< u64 >( total ) - 16; break;
    case 5: how = "header with high bits"; h |= u64( 1 ) << ( 8 + below( 56 ) ); break;
    default: how = "well-formed"; ok = true;
    }
    std::string s( total, '\0' );
    for ( size_t i = 0; i < total; i++ ) s[ i ] = static_cast< char >( i < 8 ? h >> ( 8 * i ) : i < 8 + payload ? rnd( ) : 0 );
    return s;
}
static void check( flatdata::ResourceStorage& st, const std::string& n, const std::string& x, bool good, size_t payload, const uc* base )
{
    auto r = st.read< flatdata::MemoryDescriptor >( n.c_str( ), x.c_str( ) );
    eq( "raw data accepted", static_cast< bool >( r ), good );
    auto s = st.read< El< 5, false > >( n.c_str( ), x.c_str( ) );
    eq( "structure accepted", static_cast< bool >( s ), good );
    auto v = st.read< flatdata::ArrayView< El< 3, false > > >( n.c_str( ), x.c_str( ) );
    eq( "vector accepted", static_cast< bool >( v ), good );
    if ( !good ) return;
    eq( "raw data size", r->size_in_bytes( ), payload ); eq( "vector size", v->size( ), payload / 3 );
    if ( base ) { eq( "raw data position", r->data( ) - base, 8 ); eq( "structure position", s->data( ) - base, 8 ); eq( "vector position", v->data( ) - base, 8 ); }
    eq( "vector data", v->data( ) - r->data( ), base ? 0 : v->data( ) - r->data( ) );
}
int main( int, char** argv )
{
    const std::string dir = argv[ 1 ];
    for ( int q = 0; q < ROUNDS; q++ )
    {
        clear( );
        std::string n = below( 4 ) ? "res" : "a/b_index", x = schema( ), hs, hd, hs2, hd2;
        bool sok, dok, sok2, dok2; size_t pay, pay2;
        std::string s = stored( x, sok, hs ), d = data( dok, pay, hd );
        bool hasS = below( 8 ) != 0, hasD = below( 8 ) != 0;
        if ( hasS ) put( n + ".schema", s ); if ( hasD ) put( n, d );
        cur = "resource of " + S( d.size( ) ) + " bytes (" + ( hasD ? hd : "absent" ) + "), " + ( hasS ? hs : "no schema" );
        bool good = sok && dok && hasS && hasD;
        Store st;
        check( st, n, x, good, pay, hasD ? files[ n ].first : nullptr );
        if ( hasS ) { eq( "stored schema", st.read_schema( n.c_str( ) ).size_in_bytes( ), s.size( ) ); }
        std::string s2 = stored( "index(" + x + ")", sok2, hs2 ), d2 = data( dok2, pay2, hd2 );
        bool hasI = below( 8 ) != 0, hasIS = below( 8 ) != 0;
        if ( hasIS ) put( n + "_index.schema", s2 ); if ( hasI ) put( n + "_index", d2 );
        cur += "; index of " + S( d2.size( ) ) + " bytes (" + ( hasI ? hd2 : "absent" ) + "), " + ( hasIS ? hs2 : "no schema" );
        auto m = st.read< flatdata::MultiArrayView< Ix, El< 1, false > > >( n.c_str( ), x.c_str( ) );
        bool both = good && sok2 && dok2 && hasI && hasIS;
        eq( "multivector accepted", static_cast< bool >( m ), both );
        if ( both ) eq( "multivector size", m->size( ), pay2 / 4 ? pay2 / 4 - 1 : 0 );
        // the same bytes in memory and in files
        auto mem = flatdata::MemoryResourceStorage::create( );
        if ( hasS ) mem->assign_value( ( n + ".schema" ).c_str( ), flatdata::MemoryDescriptor( s.data( ), s.size( ) ) );
        if ( hasD ) mem->assign_value( n.c_str( ), flatdata::MemoryDescriptor( d.data( ), d.size( ) ) );
        cur = "memory storage, " + cur;
        check( *mem, n, x, good, pay, nullptr );
        if ( q % 20 == 0 && n == "res" )
        {
            std::string f = dir + "/" + S( q );
            auto fs = flatdata::FileResourceStorage::create( f.c_str( ) );
            auto w = [&]( const std::string& k, const std::string& v ) { FILE* o = fopen( ( f + "/" + k ).c_str( ), "wb" ); fwrite( v.data( ), 1, v.size( ), o ); fclose( o ); };
            if ( hasS ) w( n + ".schema", s ); if ( hasD ) w( n, d );
            cur = "file storage, " + cur;
            check( *fs, n, x, good && !s.empty( ), pay, nullptr );
        }
        // an archive whose signature does or does not match
        clear( );
        put( "Arch.archive", d ); if ( hasS ) put( "Arch.archive.schema", s );
        cur = "signature of " + S( d.size( ) ) + " bytes (" + hd + "), " + ( hasS ? hs : "no schema" );
        auto shared = std::make_shared< Store >( );
        Arch a( shared, x );
        eq( "archive opens", a.is_open( ), dok && sok && hasS );
        eq( "description", a.describe( ).empty( ), 0 );
    }
    printf( "DONE %lu\n", cases );
}
'''
def main():
    req = json.load(sys.stdin)
    src = ELEM % dict(pre="") + BODY.replace("SEEDVAL", str(88172645463325252 + SEED)).replace("ROUNDS", str(req.get("rounds", 1000)))
    d = tempfile.mkdtemp(prefix="fdvc_", dir="/tmp")
    try:
        with open(os.path.join(d, "s.cpp"), "w") as f: f.write(src)
        cpp = os.path.join(REPO, "flatdata-cpp")
        srcs = [os.path.join(cpp, "src", x) for x in sorted(os.listdir(os.path.join(cpp, "src"))) if x.endswith(".cpp")]
        p = subprocess.run(["clang++", "-std=c++17", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS",
                            "-I" + os.path.join(cpp, "include"), "-I" + os.path.join(cpp, "vendor"), os.path.join(d, "s.cpp"), *srcs, "-o", os.path.join(d, "s"), "-lboost_filesystem"], capture_output=True, text=True)
        if p.returncode:
            err = [l for l in p.stderr.split("\n") if "error" in l][:2]
            print(json.dumps(dict(found=bool(err), call="compile", cases=0, got=err)))
            return
        os.mkdir(os.path.join(d, "files"))
        q = subprocess.run([os.path.join(d, "s"), os.path.join(d, "files")], capture_output=True, text=True, errors="replace", env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        lines = q.stdout.strip().split("\n")
        n = next((int(l[5:]) for l in lines if l.startswith("DONE ")), 0)
        hit = next((l[6:] for l in lines if l.startswith("FOUND ")), None)
        if hit: print(json.dumps(dict(json.loads(hit), found=True, cases=n)))
        elif q.returncode: print(json.dumps(dict(found=True, cases=n, call="address or undefined behaviour sanitizer", got=q.stderr[:1200])))
        else: print(json.dumps(dict(found=False, cases=n)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
main()
