"""Native search for TAR files that the real C++ index parser reads wrongly: random and mutated archives in exactly sized buffers (address
sanitizer) against an oracle, also through the memory mapped TAR storage."""
import sys, json, os, subprocess, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
BODY = r'''
#include <algorithm>
#include <flatdata/internal/TarReader.h>
#include <flatdata/MemoryMappedTarFileStorage.h>
#include <flatdata/TarArchiveResourceStorage.h>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <set>
#include <string>
#include <unistd.h>
using u64 = unsigned long long; using uc = unsigned char;
static u64 rs = SEEDVAL;
static u64 rnd( ) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static size_t below( size_t n ) { return n ? static_cast< size_t >( ( rnd( ) >> 9 ) % n ) : 0; }
static unsigned long cases = 0;
static std::string tar;
struct Entry { std::string name; u64 offset, size; };
static std::string hex( const std::string& s ) { std::string r; char b[ 3 ]; for ( uc c : s.substr( 0, 6144 ) ) { snprintf( b, 3, "%02x", c ); r += b; } return r; }
static std::string safe( const std::string& s ) { std::string r; for ( uc c : s ) r += c >= 32 && c < 127 && c != '"' && c != '\\' ? static_cast< char >( c ) : '?'; return r; }
static void fail( const std::string& what, const std::string& want, const std::string& got )
{
    printf( "FOUND {\"call\": \"read_tar_file_entries\", \"what\": \"%s\", \"expected\": \"%s\", \"got\": \"%s\", \"file\": \"%s\"}\n", what.c_str( ), safe( want ).c_str( ), safe( got ).c_str( ), hex( tar ).c_str( ) );
    fflush( stdout ); _Exit( 3 );
}
static void stuck( int ) { fail( "time", "an end", "none within 20 seconds" ); }
// --- oracle
static bool number( const uc* p, size_t n, u64& v )
{
    unsigned __int128 x = 0;
    if ( p[ 0 ] >= 128 )
    {
        x = p[ 0 ] - 128;
        for ( size_t i = 1; i < n; i++ ) { x = x * 256 + p[ i ]; if ( x >> 64 ) return false; }
        v = static_cast< u64 >( x );
        return true;
    }
    std::string digits( reinterpret_cast< const char* >( p ), n );
    digits = digits.substr( 0, digits.find( '\0' ) );
    v = 0;
    for ( char c : digits ) { if ( c < '0' || c > '7' ) return false; v = v * 8 + ( c - '0' ); }
    return true;
}
static std::string text( const uc* p, size_t n ) { std::string s( reinterpret_cast< const char* >( p ), n ); return s.substr( 0, s.find( '\0' ) ); }
static bool oracle( const std::string& file, std::vector< Entry >& out )
{
    const uc* p = reinterpret_cast< const uc* >( file.data( ) );
    size_t total = file.size( );
    if ( total % 512 ) return false;
    std::string pending;
    for ( size_t at = 0; at < total; )
    {
        const uc* h = p + at;
        if ( std::all_of( h, h + 512, []( uc c ) { return c == 0; } ) ) return true;
        u64 sum = 8 * 32, stated, n;
        for ( size_t i = 0; i < 512; i++ ) if ( i < 148 || i >= 156 ) sum += h[ i ];
        if ( !number( h + 148, 8, stated ) || stated != sum ) return false;
        at += 512;
        u64 rest = total - at;
        if ( h[ 156 ] == '5' ) { pending.clear( ); continue; }
        if ( h[ 156 ] != '0' && h[ 156 ] != 0 && h[ 156 ] != 'L' ) return false;
        if ( !number( h + 124, 12, n ) ) return false;
        if ( h[ 156 ] == 'L' )
        {
            if ( n > rest ) return false;
            pending = text( p + at, n );
        }
        else
        {
            std::string name = text( h, 100 ), prefix = text( h + 345, 155 );
            if ( memcmp( h + 257, "ustar\0", 6 ) == 0 && !prefix.empty( ) ) name = prefix + "/" + name;
            if ( !pending.empty( ) ) name = pending;
            pending.clear( );
            out.push_back( { name, at, n } );
            if ( n > rest ) return true;
        }
        at += ( n + 511 ) / 512 * 512;
    }
    return true;
}
// --- generator
static std::string word( size_t max ) { std::string s; size_t n = below( 3 ) ? below( std::min< size_t >( max, 12 ) + 1 ) : below( max + 1 ); if ( below( 12 ) == 0 ) n = max; for ( size_t i = 0; i < n; i++ ) s += "abcdefgh/._-0123456789\xc3\xa9"[ below( 24 ) ]; return s; }
static void put( std::string& h, size_t at, const std::string& s ) { h.replace( at, s.size( ), s ); }
static void field( std::string& h, size_t at, size_t n, u64 v, int how )
{
    bool small = v < ( u64( 1 ) << std::min< size_t >( 63, 3 * ( n - 1 ) ) ) ;
    if ( how == 0 && small ) { char b[ 32 ]; snprintf( b, 32, "%0*llo", static_cast< int >( n - 1 ), v ); put( h, at, std::string( b, n - 1 ) + '\0' ); }
    else if ( how == 1 && small ) { char b[ 32 ]; snprintf( b, 32, "%0*llo", static_cast< int >( n ), v ); put( h, at, std::string( b, n ) ); }
    else if ( how == 2 && small ) { char b[ 32 ]; snprintf( b, 32, "%llo", v ); std::string s( b ); s += '\0'; if ( s.size( ) <= n ) { put( h, at, s ); for ( size_t i = at + s.size( ); i < at + n; i++ ) h[ i ] = "\0 0"[ below( 3 ) ]; } else put( h, at, s.substr( 0, n ) ); }
    else { std::string s( n, '\0' ); s[ 0 ] = static_cast< char >( 128 ); for ( size_t i = 0; i < 8 && i < n; i++ ) { if ( i == n - 1 ) break; s[ n - 1 - i ] = static_cast< char >( v >> ( 8 * i ) ); } put( h, at, s ); }
}
static std::string header( char type, u64 size )
{
    std::string h( 512, '\0' );
    put( h, 0, word( 100 ) );
    put( h, 100, "0000644" ); put( h, 108, "0001750" ); put( h, 116, "0001750" ); put( h, 136, "14371573321" );
    field( h, 124, 12, size, static_cast< int >( below( 4 ) ) );
    h[ 156 ] = type;
    int m = static_cast< int >( below( 5 ) );
    put( h, 257, m == 0 ? std::string( 8, '\0' ) : m == 1 ? std::string( "ustar  \0", 8 ) : m == 2 ? std::string( "ustar\0" "00", 8 ) : m == 3 ? std::string( "ustar\0" "00", 8 ) : word( 8 ) );
    if ( below( 2 ) ) put( h, 345, word( 155 ) );
    if ( below( 4 ) == 0 ) for ( int i = 0; i < 6; i++ ) h[ 157 + below( 343 ) ] = static_cast< char >( rnd( ) );
    if ( below( 6 ) == 0 ) h[ 124 + below( 12 ) ] = "89 \0" "a/7"[ below( 7 ) ];
    if ( below( 30 ) == 0 ) for ( int i = 124; i < 136; i++ ) h[ i ] = static_cast< char >( 255 );
    return h;
}
static void checksum( std::string& h )
{
    u64 sum = 8 * 32;
    for ( size_t i = 0; i < 512; i++ ) if ( i < 148 || i >= 156 ) sum += static_cast< uc >( h[ i ] );
    size_t k = below( 40 );
    if ( k == 0 ) sum += 1; else if ( k == 1 ) sum -= 1; else if ( k == 2 ) sum += 256; else if ( k == 3 ) sum += u64( 1 ) << 32;
    int how = static_cast< int >( below( 8 ) );
    field( h, 148, 8, sum, how < 4 ? how : 0 );
    if ( how == 4 ) h[ 155 ] = ' ';
    if ( how == 5 && below( 8 ) == 0 ) { h[ 154 ] = ' '; h[ 155 ] = '\0'; }
}
static void generate( )
{
    tar.clear( );
    size_t n = below( 5 );
    for ( size_t i = 0; i < n; i++ )
    {
        char type = "0\0" "5L00L0x7g\0"[ below( 12 ) ];
        if ( ( type == 'x' || type == '7' || type == 'g' ) && below( 3 ) ) type = '0';
        static const u64 sizes[] = { 0, 1, 27, 511, 512, 513, 1023, 1024, 1536 };
        u64 size = below( 3 ) ? sizes[ below( 9 ) ] : below( 700 );
        u64 stated = size;
        if ( below( 14 ) == 0 ) stated = u64( 0 ) - ( below( 2 ) ? below( 6 ) * 512 + below( 3 ) : below( 3000 ) );
        else if ( below( 14 ) == 0 ) stated = size + below( 5000 );
        else if ( below( 14 ) == 0 ) stated = ( u64( 1 ) << ( 9 + below( 55 ) ) ) + below( 2000 ) - 512;
        std::string h = header( type, stated );
        if ( below( 10 ) ) checksum( h );
        tar += h;
        if ( type != '5' || below( 12 ) == 0 )
        {
            std::string body = type == 'L' ? word( size ) : std::string( );
            while ( type != 'L' && body.size( ) < size ) body += static_cast< char >( rnd( ) );
            if ( type == 'L' && body.size( ) < size && below( 2 ) ) { body += '\0'; while ( body.size( ) < size ) body += static_cast< char >( rnd( ) ); }
            body.resize( ( size + 511 ) / 512 * 512, '\0' );
            tar += body;
        }
    }
    if ( below( 3 ) ) tar += std::string( 1024, '\0' );
    if ( below( 6 ) == 0 && !tar.empty( ) ) tar.resize( tar.size( ) - below( std::min< size_t >( tar.size( ), 1600 ) ) / ( below( 2 ) ? 1 : 512 ) * 1 );
    if ( below( 6 ) == 0 ) tar.resize( tar.size( ) / 512 * 512 );
    if ( below( 8 ) == 0 && !tar.empty( ) ) tar[ below( tar.size( ) ) ] ^= static_cast< char >( 1 << below( 8 ) );
    if ( below( 20 ) == 0 && tar.size( ) > 512 ) { tar.erase( 512 * below( tar.size( ) / 512 ), 512 ); }
}
int main( int argc, char** argv )
{
    signal( SIGALRM, stuck );
    std::string path = std::string( argv[ 1 ] ) + "/t.tar";
    for ( unsigned long round = 0; round < ROUNDS; round++ )
    {
        generate( );
        uc* p = static_cast< uc* >( malloc( tar.size( ) ) );
        if ( !tar.empty( ) ) memcpy( p, tar.data( ), tar.size( ) );
        std::vector< Entry > want;
        bool ok = oracle( tar, want ), got = true;
        std::vector< flatdata::internal::TarFileEntry > es;
        alarm( 20 );
        try { es = flatdata::internal::read_tar_file_entries( flatdata::MemoryDescriptor( p, tar.size( ) ) ); }
        catch ( const std::runtime_error& ) { got = false; }
        alarm( 0 );
        free( p );
        cases++;
        if ( ok != got ) fail( "acceptance", ok ? "accepted" : "refused", got ? "accepted" : "refused" );
        if ( !ok ) continue;
        if ( es.size( ) != want.size( ) ) fail( "entries", std::to_string( want.size( ) ), std::to_string( es.size( ) ) );
        for ( size_t i = 0; i < es.size( ); i++ )
        {
            cases++;
            if ( es[ i ].name != want[ i ].name ) fail( "name", want[ i ].name, es[ i ].name );
            if ( es[ i ].offset != want[ i ].offset ) fail( "offset", std::to_string( want[ i ].offset ), std::to_string( es[ i ].offset ) );
            if ( es[ i ].size != want[ i ].size ) fail( "size", std::to_string( want[ i ].size ), std::to_string( es[ i ].size ) );
        }
        if ( round % 8 ) continue;
        { std::ofstream f( path, std::ios::binary | std::ios::trunc ); f.write( tar.data( ), tar.size( ) ); }
        try
        {
            flatdata::MemoryMappedTarFileStorage storage( path.c_str( ) );
            std::set< std::string > seen;
            for ( auto& w : want )
            {
                std::string key = w.name.compare( 0, 2, "./" ) == 0 ? w.name.substr( 2 ) : w.name;
                if ( !seen.insert( key ).second || key.find( '\0' ) != std::string::npos ) continue;
                auto d = storage.read( key.c_str( ) );
                u64 n = std::min< u64 >( w.size, tar.size( ) - w.offset );
                cases++;
                if ( !d.data( ) ) fail( "stored file", key, "not found" );
                if ( d.size( ) != n ) fail( "size of a stored file", std::to_string( n ), std::to_string( d.size( ) ) );
                if ( memcmp( d.data( ), tar.data( ) + w.offset, n ) ) fail( "bytes of a stored file", key, "differ" );
            }
            if ( !seen.count( "nothing" ) && storage.read( "nothing" ).data( ) ) fail( "a file not in the archive", "not found", "found" );
        }
        catch ( const std::runtime_error& e ) { fail( "storage", "opened", e.what( ) ); }
    }
    printf( "DONE %lu\n", cases );
}
'''
def main():
    req = json.load(sys.stdin)
    src = BODY.replace("SEEDVAL", str(88172645463325252 + SEED)).replace("ROUNDS", str(req.get("rounds", 1000)))
    d = tempfile.mkdtemp(prefix="fdvc_", dir="/tmp")
    try:
        with open(os.path.join(d, "s.cpp"), "w") as f: f.write(src)
        cpp = os.path.join(REPO, "flatdata-cpp")
        p = subprocess.run(["clang++", "-std=c++17", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS",
                            "-I" + os.path.join(cpp, "include"), "-I" + os.path.join(cpp, "vendor"), os.path.join(d, "s.cpp"), os.path.join(cpp, "src", "TarReader.cpp"), "-o", os.path.join(d, "s"), "-lboost_filesystem"], capture_output=True, text=True)
        if p.returncode:
            err = [l for l in p.stderr.split("\n") if "error" in l][:2]
            print(json.dumps(dict(found=bool(err), call="compile", cases=0, got=err)))
            return
        os.mkdir(os.path.join(d, "files"))
        q = subprocess.run([os.path.join(d, "s"), os.path.join(d, "files")], capture_output=True, text=True, errors="replace", env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        lines = q.stdout.strip().split("\n")
        n = next((int(l[5:]) for l in lines if l.startswith("DONE ")), 0)
        hit = next((l[6:] for l in lines if l.startswith("FOUND ")), None)
        if hit: print(json.dumps(dict(json.loads(hit), found=True, cases=n)))
        elif q.returncode: print(json.dumps(dict(found=True, cases=n, call="address or undefined behaviour sanitizer", got=q.stderr[:1200])))
        else: print(json.dumps(dict(found=False, cases=n)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
main()
