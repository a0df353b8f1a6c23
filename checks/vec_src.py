"""C++ preamble with a minimal generated-struct shape, shared by the drivers and the native search."""
ELEM = r'''
#include <array>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cstddef>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <boost/endian/conversion.hpp>
#include <boost/noncopyable.hpp>
#include <boost/optional.hpp>
#include <boost/optional/optional_io.hpp>
%(pre)s
#include <flatdata/ArrayView.h>
#include <flatdata/Vector.h>
#include <flatdata/MultiArrayView.h>
template < template < typename, int, int, int > class Member, int N, bool OV > union ElT
{
    using StreamType = typename Member< uint32_t, 0, 0, 0 >::StreamType;
    using MutatorType = ElT< flatdata::Writer, N, OV >;
    using AccessorType = ElT< flatdata::Reader, N, OV >;
    ElT( ) : _data( Member< uint32_t, 0, 0, 0 >{ nullptr } ) {}
    explicit ElT( StreamType data ) : _data( Member< uint32_t, 0, 0, 0 >{ data } ) {}
    StreamType data( ) const { return _data.data; }
    static constexpr size_t size_in_bytes( ) { return N; }
    explicit operator bool( ) const { return _data.data != nullptr; }
    operator ElT< flatdata::Reader, N, OV >( ) const { return ElT< flatdata::Reader, N, OV >( _data.data ); }
    static constexpr bool IS_OVERLAPPING_WITH_NEXT = OV;
    Member< uint32_t, 0, 0, 0 > _data;
};
template < int N, bool OV > using El = ElT< flatdata::Reader, N, OV >;
using uc = unsigned char;
'''
STDSTR = r"""
extern "C" void fdvc_str_make( void* s, const char* p, size_t n );
extern "C" void fdvc_str_fill( void* s, size_t n, char c );
extern "C" void fdvc_str_cat( void* s, const char* p, size_t n, const char* q, size_t k );
extern "C" void fdvc_str_free( void* p );
extern "C" size_t fdvc_strlen( const char* p );
extern "C" bool fdvc_eq( const char* p, const char* q, size_t n );
namespace std {
class fdvc_string
{
    char* p; size_t n;
public:
    using value_type = char; using size_type = size_t; using iterator = char*; using const_iterator = const char*;
    static const size_t npos = size_t( -1 );
    fdvc_string( ) { fdvc_str_fill( this, 0, 0 ); }
    fdvc_string( const char* q ) { fdvc_str_make( this, q, fdvc_strlen( q ) ); }
    fdvc_string( const char* q, size_t k ) { fdvc_str_make( this, q, k ); }
    fdvc_string( const char* b, const char* e ) { fdvc_str_make( this, b, e - b ); }
    fdvc_string( size_t k, char c ) { fdvc_str_fill( this, k, c ); }
    fdvc_string( const fdvc_string& o ) { fdvc_str_make( this, o.p, o.n ); }
    fdvc_string( const fdvc_string& o, size_t at, size_t k = npos ) { *this = o.substr( at, k ); }
    fdvc_string( fdvc_string&& o ) : p( o.p ), n( o.n ) { fdvc_str_fill( &o, 0, 0 ); }
    fdvc_string( const basic_string< char >& o ) { fdvc_str_make( this, o.data( ), o.size( ) ); }
    fdvc_string& operator=( const fdvc_string& o ) { if ( this != &o ) { char* q = p; fdvc_str_make( this, o.p, o.n ); fdvc_str_free( q ); } return *this; }
    fdvc_string& operator=( fdvc_string&& o ) { if ( this != &o ) { fdvc_str_free( p ); p = o.p; n = o.n; fdvc_str_fill( &o, 0, 0 ); } return *this; }
    fdvc_string& operator=( const char* q ) { char* old = p; fdvc_str_make( this, q, fdvc_strlen( q ) ); fdvc_str_free( old ); return *this; }
    ~fdvc_string( ) { fdvc_str_free( p ); }
    const char* c_str( ) const { return p; } const char* data( ) const { return p; } char* data( ) { return p; }
    size_t size( ) const { return n; } size_t length( ) const { return n; } bool empty( ) const { return n == 0; }
    char& operator[]( size_t i ) { return p[ i ]; } const char& operator[]( size_t i ) const { return p[ i ]; }
    char front( ) const { return p[ 0 ]; } char back( ) const { return p[ n - 1 ]; }
    char* begin( ) { return p; } char* end( ) { return p + n; } const char* begin( ) const { return p; } const char* end( ) const { return p + n; }
    void clear( ) { fdvc_str_free( p ); fdvc_str_fill( this, 0, 0 ); }
    void reserve( size_t ) {}
    fdvc_string& append( const char* q, size_t k ) { char* old = p; fdvc_str_cat( this, old, n, q, k ); fdvc_str_free( old ); return *this; }
    fdvc_string& append( const char* q ) { return append( q, fdvc_strlen( q ) ); }
    fdvc_string& append( const fdvc_string& o ) { return append( o.p, o.n ); }
    fdvc_string& operator+=( const fdvc_string& o ) { return append( o.p, o.n ); }
    fdvc_string& operator+=( const char* q ) { return append( q ); }
    fdvc_string& operator+=( char c ) { return append( &c, 1 ); }
    void push_back( char c ) { append( &c, 1 ); }
    fdvc_string& assign( const char* q, size_t k ) { char* old = p; fdvc_str_make( this, q, k ); fdvc_str_free( old ); return *this; }
    fdvc_string& assign( const char* q ) { return assign( q, fdvc_strlen( q ) ); }
    fdvc_string& assign( const char* b, const char* e ) { return assign( b, static_cast< size_t >( e - b ) ); }
    fdvc_string substr( size_t at = 0, size_t k = npos ) const { if ( at > n ) throw out_of_range( "substr" ); return fdvc_string( p + at, k < n - at ? k : n - at ); }
    int compare( const fdvc_string& o ) const { return n == o.n && fdvc_eq( p, o.p, n ) ? 0 : 1; }
    int compare( const char* q ) const { size_t k = fdvc_strlen( q ); return n == k && fdvc_eq( p, q, n ) ? 0 : 1; }
    int compare( size_t at, size_t m, const fdvc_string& o ) const { return substr( at, m ).compare( o ); }
    int compare( size_t at, size_t m, const char* q ) const { return substr( at, m ).compare( q ); }
    int compare( size_t at, size_t m, const char* q, size_t k ) const { return substr( at, m ).compare( fdvc_string( q, k ) ); }
    int compare( size_t at, size_t m, const fdvc_string& o, size_t from, size_t k = npos ) const { return substr( at, m ).compare( o.substr( from, k ) ); }
    char& at( size_t i ) { if ( i >= n ) throw out_of_range( "at" ); return p[ i ]; } const char& at( size_t i ) const { if ( i >= n ) throw out_of_range( "at" ); return p[ i ]; }
    const char* cbegin( ) const { return p; } const char* cend( ) const { return p + n; }
    void swap( fdvc_string& o ) { char* q = p; p = o.p; o.p = q; size_t k = n; n = o.n; o.n = k; }
};
inline bool operator==( const fdvc_string& a, const fdvc_string& b ) { return a.compare( b ) == 0; }
inline bool operator!=( const fdvc_string& a, const fdvc_string& b ) { return a.compare( b ) != 0; }
inline bool operator==( const fdvc_string& a, const char* b ) { return a.compare( b ) == 0; }
inline bool operator!=( const fdvc_string& a, const char* b ) { return a.compare( b ) != 0; }
inline bool operator==( const char* b, const fdvc_string& a ) { return a.compare( b ) == 0; }
inline bool operator!=( const char* b, const fdvc_string& a ) { return a.compare( b ) != 0; }
inline fdvc_string operator+( const fdvc_string& a, const fdvc_string& b ) { fdvc_string r( a ); r += b; return r; }
inline fdvc_string operator+( const fdvc_string& a, const char* b ) { fdvc_string r( a ); r += b; return r; }
inline fdvc_string operator+( const char* b, const fdvc_string& a ) { fdvc_string r( b ); r += a; return r; }
inline fdvc_string operator+( const fdvc_string& a, char c ) { fdvc_string r( a ); r += c; return r; }
inline fdvc_string operator+( char c, const fdvc_string& a ) { fdvc_string r( 1, c ); r += a; return r; }
inline ostream& operator<<( ostream& o, const fdvc_string& ) { return o; }
}
#define string fdvc_string
"""
