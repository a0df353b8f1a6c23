"""C25: contracts on the real C++ writers (ResourceStorage::write, ResourceHandle, ExternalVector, MultiVector) over LLVM IR;
payloads, names, schemas and the number of elements are unbounded."""
import z3
from pyvc import engine as E
from pyvc.engine import Unsupported, PathEnd
from llvc import sem
from llvc.sem import bv, Val, Ptr
from checks.vec_src import ELEM, STDSTR
from checks.vec_drv import mod, eng, STDVEC, STDVEC_CONTRACTS
from checks.store_drv import STR_CONTRACTS, cstr, cstr_len, LEN

# std::ostream, std::shared_ptr and std::function are dependencies: their contracts replace their bodies.
STDOS = r"""
extern "C" { void fdvc_os_write( size_t id, const char* p, size_t n ); void fdvc_os_flush( size_t id ); void fdvc_os_seek( size_t id, size_t p ); size_t fdvc_os_tell( size_t id ); bool fdvc_os_ok( size_t id ); void fdvc_os_close( size_t id ); }
namespace std
{
class fdvc_ostream
{
    size_t id;
public:
    explicit fdvc_ostream( size_t i ) : id( i ) {}
    fdvc_ostream( const fdvc_ostream& ) = delete;
    ~fdvc_ostream( ) { fdvc_os_close( id ); }
    fdvc_ostream& write( const char* p, ptrdiff_t n ) { fdvc_os_write( id, p, n ); return *this; }
    fdvc_ostream& put( char c ) { fdvc_os_write( id, &c, 1 ); return *this; }
    fdvc_ostream& flush( ) { fdvc_os_flush( id ); return *this; }
    fdvc_ostream& seekp( ptrdiff_t p ) { fdvc_os_seek( id, p ); return *this; }
    size_t tellp( ) { return fdvc_os_tell( id ); }
    fdvc_ostream& operator<<( const char* p ) { fdvc_os_write( id, p, fdvc_strlen( p ) ); return *this; }
    fdvc_ostream& operator<<( const fdvc_string& s ) { fdvc_os_write( id, s.data( ), s.size( ) ); return *this; }
    fdvc_ostream& operator<<( char c ) { return put( c ); }
    explicit operator bool( ) const { return fdvc_os_ok( id ); }
    bool operator!( ) const { return !fdvc_os_ok( id ); }
    bool good( ) const { return fdvc_os_ok( id ); }
    bool fail( ) const { return !fdvc_os_ok( id ); }
    bool bad( ) const { return !fdvc_os_ok( id ); }
};
template < class T > class fdvc_shared
{
    T* p = nullptr; size_t* c = nullptr;
public:
    fdvc_shared( ) {}
    fdvc_shared( nullptr_t ) {}
    explicit fdvc_shared( T* q ) : p( q ), c( new size_t( 1 ) ) {}
    fdvc_shared( const fdvc_shared& o ) : p( o.p ), c( o.c ) { if ( c ) ++*c; }
    fdvc_shared( fdvc_shared&& o ) : p( o.p ), c( o.c ) { o.p = nullptr; o.c = nullptr; }
    fdvc_shared& operator=( fdvc_shared o ) { swap( o ); return *this; }
    ~fdvc_shared( ) { if ( c && --*c == 0 ) { delete p; delete c; } }
    void swap( fdvc_shared& o ) { T* q = p; p = o.p; o.p = q; size_t* d = c; c = o.c; o.c = d; }
    void reset( ) { fdvc_shared( ).swap( *this ); }
    T* get( ) const { return p; } T& operator*( ) const { return *p; } T* operator->( ) const { return p; }
    explicit operator bool( ) const { return p != nullptr; }
    friend bool operator==( const fdvc_shared& a, nullptr_t ) { return a.p == nullptr; }
    friend bool operator!=( const fdvc_shared& a, nullptr_t ) { return a.p != nullptr; }
    friend bool operator==( nullptr_t, const fdvc_shared& a ) { return a.p == nullptr; }
    friend bool operator!=( nullptr_t, const fdvc_shared& a ) { return a.p != nullptr; }
};
template < class S > class fdvc_function;
template < class R > class fdvc_function< R( ) >
{
    struct Base { virtual R call( ) = 0; virtual Base* copy( ) = 0; virtual ~Base( ) {} };
    template < class F > struct Of final : Base { F f; Of( const F& g ) : f( g ) {} R call( ) override { return f( ); } Base* copy( ) override { return new Of( f ); } };
    Base* b = nullptr;
public:
    fdvc_function( ) {}
    template < class F, class = typename enable_if< !is_same< typename decay< F >::type, fdvc_function >::value >::type > fdvc_function( F f ) : b( new Of< F >( f ) ) {}
    fdvc_function( const fdvc_function& o ) : b( o.b ? o.b->copy( ) : nullptr ) {}
    fdvc_function( fdvc_function&& o ) : b( o.b ) { o.b = nullptr; }
    fdvc_function& operator=( fdvc_function o ) { Base* q = b; b = o.b; o.b = q; return *this; }
    ~fdvc_function( ) { delete b; }
    R operator( )( ) const { return b->call( ); }
    explicit operator bool( ) const { return b != nullptr; }
};
}
#define ostream fdvc_ostream
#define shared_ptr fdvc_shared
#define function fdvc_function
#define private public
"""
STORE = r"""
#include <flatdata/ResourceStorage.h>
#include <flatdata/ExternalVector.h>
#include <flatdata/MultiVector.h>
#undef private
#include "%(cpp)s"
extern "C" { void fdvc_stream( const char* suffix, size_t n ); void fdvc_state( const char* what, size_t size, const uc* data, size_t bytes, size_t stored ); void fdvc_got( const void* p, size_t n ); void fdvc_read( const char* key, const uc** p, size_t* n ); size_t fdvc_open( const char* key ); }
struct Store : flatdata::ResourceStorage
{
    std::unique_ptr< ResourceStorage > create_directory( const char* ) override { return nullptr; }
    std::unique_ptr< ResourceStorage > directory( const char* ) override { return nullptr; }
    bool exists( const char* key ) override { return true; }
    std::shared_ptr< std::ostream > create_output_stream( const char* key ) override { size_t id = fdvc_open( key ); return id ? std::shared_ptr< std::ostream >( new std::ostream( id ) ) : std::shared_ptr< std::ostream >( ); }
    flatdata::MemoryDescriptor read_resource( const char* key ) override { const uc* p; size_t n; fdvc_read( key, &p, &n ); return flatdata::MemoryDescriptor( p, n ); }
};
#define X extern "C"
X bool w_raw( const char* name, const char* schema, const uc* p, size_t n ) { Store s; return s.write< flatdata::MemoryDescriptor >( name, schema, flatdata::MemoryDescriptor( p, n ) ); }
X bool w_view( const char* name, const char* schema, const uc* p, size_t n ) { Store s; return s.write< flatdata::ArrayView< El< 5, false > > >( name, schema, flatdata::ArrayView< El< 5, false > >( p, p + n ) ); }
X bool w_over( const char* name, const char* schema, const uc* p, size_t n ) { Store s; return s.write< flatdata::ArrayView< El< 12, true > > >( name, schema, flatdata::ArrayView< El< 12, true > >( p, p + n ) ); }
X bool w_struct( const char* name, const char* schema, const uc* p, size_t ) { Store s; return s.write< El< 5, false > >( name, schema, El< 5, false >( p ) ); }
X bool w_schema( const char* name, const char* schema ) { Store s; return s.write_schema( name, schema ); }

template < template < typename, int, int, int > class Member > union IxT
{
    using StreamType = typename Member< uint32_t, 0, 0, 0 >::StreamType;
    using MutatorType = IxT< flatdata::Writer >; using AccessorType = IxT< flatdata::Reader >;
    IxT( ) : _data( Member< uint32_t, 0, 0, 0 >{ nullptr } ) {}
    explicit IxT( StreamType data ) : _data( Member< uint32_t, 0, 0, 0 >{ data } ) {}
    StreamType data( ) const { return _data.data; }
    static constexpr size_t size_in_bytes( ) { return 5; }
    static constexpr bool IS_OVERLAPPING_WITH_NEXT = true;
    Member< uint32_t, 0, 0, 0 > _data;
    Member< uint64_t, 0, 40, 5 > value;
    Member< std::pair< uint64_t, uint64_t >, 0, 40, 5 > range;
};
using Ix = IxT< flatdata::Reader >;
template < class V > void any( V& v, size_t n ) { v.resize( n + flatdata::PADDING_SIZE ); fdvc_havoc( v.data( ), n ); }
template < class EV > void put_ev( EV& v, const char* suffix, size_t k, size_t p, size_t f ) { v.m_size = k; any( v.m_data, p ); v.m_array->m_size_in_bytes = f; fdvc_stream( suffix, f ); }
template < class EV > void see_ev( EV& v, const char* what ) { fdvc_state( what, v.size( ), v.m_data.data( ), v.m_data.size( ), v.m_array->m_size_in_bytes ); }
using EV = flatdata::ExternalVector< El< %(N)d, false > >;
X void e_create( const char* name, const char* schema ) { Store s; EV v = s.create_external_vector< El< %(N)d, false > >( name, schema ); see_ev( v, "created" ); }
X void e_grow( const char* name, const char* schema, size_t k, size_t p, size_t f ) { Store s; EV v = s.create_external_vector< El< %(N)d, false > >( name, schema ); put_ev( v, "", k, p, f ); auto r = v.grow( ); fdvc_got( r.data( ), v.empty( ) ); see_ev( v, "grown" ); }
X void e_close( const char* name, const char* schema, size_t k, size_t p, size_t f ) { Store s; EV v = s.create_external_vector< El< %(N)d, false > >( name, schema ); put_ev( v, "", k, p, f ); auto r = v.close( ); fdvc_got( r.data( ), r.size( ) ); }
X void e_none( const char* name, const char* schema, size_t k, size_t p, size_t f ) { Store s; EV v = s.create_external_vector< El< %(N)d, false > >( name, schema ); v.m_size = k; any( v.m_data, p ); v.grow( ); auto r = v.close( ); fdvc_got( r.data( ), r.size( ) ); }
using MV = flatdata::MultiVector< Ix, El< %(N)d, false >, El< 1, false > >;
static MV make_mv( Store& s, const char* name, const char* schema ) { return s.create_multi_vector< Ix, El< %(N)d, false >, El< 1, false > >( name, schema ); }
static void put_mv( MV& v, size_t k, size_t p, size_t f, size_t q, size_t g ) { put_ev( v.m_index, "_index", k, p, f ); any( v.m_data, q ); v.m_size_flushed = g; v.m_handle->m_size_in_bytes = g; fdvc_stream( "", g ); }
static void see_mv( MV& v, const char* what ) { see_ev( v.m_index, "index" ); fdvc_state( what, v.m_size_flushed, v.m_data.data( ), v.m_data.size( ), v.m_handle->m_size_in_bytes ); }
X void m_create( const char* name, const char* schema ) { Store s; MV v = make_mv( s, name, schema ); see_mv( v, "created" ); }
X void m_grow( const char* name, const char* schema, size_t k, size_t p, size_t f, size_t q, size_t g ) { Store s; MV v = make_mv( s, name, schema ); put_mv( v, k, p, f, q, g ); v.grow( ); see_mv( v, "grown" ); }
X void m_none( const char* name, const char* schema, size_t k, size_t p, size_t f, size_t q, size_t g ) { Store s; MV v = make_mv( s, name, schema ); v.m_index.m_size = k; any( v.m_index.m_data, p ); any( v.m_data, q ); v.grow( ); auto r = v.close( ); fdvc_got( r.m_data_begin, 0 ); }
X void m_add0( const char* name, const char* schema, size_t k, size_t p, size_t f, size_t q, size_t g ) { Store s; MV v = make_mv( s, name, schema ); put_mv( v, k, p, f, q, g ); MV::ListBuilder l( &v.m_data ); auto r = l.add< El< %(N)d, false > >( ); fdvc_got( r.data( ), 0 ); see_mv( v, "added" ); }
X void m_add1( const char* name, const char* schema, size_t k, size_t p, size_t f, size_t q, size_t g ) { Store s; MV v = make_mv( s, name, schema ); put_mv( v, k, p, f, q, g ); MV::ListBuilder l( &v.m_data ); auto r = l.add< El< 1, false > >( ); fdvc_got( r.data( ), 1 ); see_mv( v, "added" ); }
X void m_close( const char* name, const char* schema, size_t k, size_t p, size_t f, size_t q, size_t g ) { Store s; MV v = make_mv( s, name, schema ); put_mv( v, k, p, f, q, g ); auto r = v.close( ); fdvc_got( r.m_index.data( ), r.m_index.size( ) ); fdvc_got( r.m_data_begin, r.size( ) ); }
"""
SUFFIXES = ("", ".schema", "_index", "_index.schema")

class Stream:
    """Ghost state of an output stream: what has been written where, and whether the output has accepted it."""
    def __init__(self, suffix):
        self.suffix = suffix
        self.arr = z3.K(z3.BitVecSort(64), bv(0, 8))
        self.len = self.pos = bv(0)
        self.ok = z3.BoolVal(True)      # what operator bool reports
        self.dirty = False              # written since the last flush
        self.open = True

class World:
    def __init__(self, e, m, provided=lambda s: True):
        self.e, self.streams, self.files = e, [None], {}
        self.provided = provided
        self.j = z3.BitVec("position", 64)
        e.input("position", self.j)
        w = self
        def key(x, p, dn):
            l = cstr_len(x, p, dn)
            for s in SUFFIXES:
                if x.e.branch(l == w.L + len(s)):
                    def at(k): return sem.sel(p.r.arr, p.o + k)
                    x.e.prove("resources are named as asked for", z3.Implies(z3.ULT(w.j, w.L), at(w.j) == sem.sel(w.name.arr, w.j)))
                    for i, c in enumerate(s): x.e.prove("resources are named as asked for", at(w.L + i) == ord(c))
                    return s
            x.e.prove("resources are named as asked for", False)
            raise PathEnd()
        def f_open(x, a, dn):
            s = key(x, a[0], dn)
            if not w.provided(s): return Val(bv(0))
            f = Stream(s)
            w.streams.append(f)
            w.files[s] = f
            return Val(bv(len(w.streams) - 1))
        def stream(x, a):
            i = x.conc(a[0].t)
            x.e.prove("the stream is a stream that is open", i is not None and 0 < i < len(w.streams) and w.streams[i].open)
            return w.streams[i]
        def f_write(x, a, dn):
            f, p, n = stream(x, a), a[1], a[2].t
            x.e.prove("a non-negative number of bytes is written", z3.ULE(n, bv(1 << 62)))
            if x.conc(n) == 0 or x.e.implied(n == 0): return
            x.bounds(p, n, "bytes written are readable")
            src, o = p.r.arr, p.o
            f.arr = sem.Mem(f.arr, f.pos, n, lambda d: sem.sel(src, o + d))
            f.pos = z3.simplify(f.pos + n, som=True)
            f.len = f.pos if x.e.implied(z3.UGE(f.pos, f.len)) else z3.If(z3.UGE(f.pos, f.len), f.pos, f.len)
            f.dirty = True
        def f_flush(x, a, dn):
            f = stream(x, a)
            f.ok = z3.And(f.ok, z3.Bool(E.fresh_name("accepted" + f.suffix)))
            f.dirty = False
        def f_seek(x, a, dn):
            f = stream(x, a)
            x.e.prove("seeking stays inside the resource", z3.ULE(a[1].t, f.len))
            f.pos = a[1].t
        def f_close(x, a, dn): stream(x, a).open = False
        def f_stream(x, a, dn):
            s = key_of(x, a[0])
            f, n = w.files[s], a[1].t
            w.base[s] = b = z3.Array("stored" + s, z3.BitVecSort(64), z3.BitVecSort(8))
            x.e.prove("a created resource has room for its size", z3.And(f.len == 8, f.pos == 8))
            f.arr = sem.Mem(f.arr, bv(8), n, lambda d: z3.Select(b, d))
            f.len = f.pos = n + 8
            f.dirty = True
        def key_of(x, p):
            r = ""
            while True:
                b = x.conc(sem.sel(p.r.arr, p.o + len(r)))
                if b == 0: return r
                r += chr(b)
        def f_havoc(x, a, dn):
            p, n = a[0], a[1].t
            x.bounds(p, n, "elements are addressable", write=True)
            fresh = z3.Array(E.fresh_name("pending"), z3.BitVecSort(64), z3.BitVecSort(8))
            w.pend.append(fresh)
            p.r.arr = sem.Mem(p.r.arr, p.o, n, lambda d: z3.Select(fresh, d))
        def f_state(x, a, dn): w.seen.append((key_of(x, a[0]), a[1].t, a[2], a[3].t, a[4].t, {k: (v.arr, v.len, v.pos) for k, v in w.files.items()}, a[2].r.arr if a[2].r is not None and a[2].r.live else None))
        def f_got(x, a, dn):
            w.first = w.got
            w.got = (a[0], a[1].t)
        def f_read(x, a, dn):
            s = key(x, a[0], dn)
            f = w.files.get(s)
            x.e.prove("what is read back has been written out", f is not None and not f.dirty and not f.open)
            r = x.region("read" + s, f.len)
            r.arr, r.const = f.arr, True
            r.addr()
            w.read[s] = r
            x.store(("ptr",), Ptr(r, bv(0)), a[1])
            x.store(("int", 64), Val(f.len), a[2])
        def new(x, a, dn):
            r = x.region("heap", a[0].t)
            r.addr()
            r.tag["heap"] = True
            return Ptr(r, bv(0))
        def delete(x, a, dn):
            if a[0].r is None: return
            x.e.prove("memory is released once", a[0].r.live and "heap" in a[0].r.tag, dn)
            a[0].r.live = False
        self.base, self.pend, self.seen, self.got, self.read = {}, [], [], None, {}
        cs = [(r"^fdvc_open$", f_open), (r"^fdvc_os_write$", f_write), (r"^fdvc_os_flush$", f_flush), (r"^fdvc_os_seek$", f_seek), (r"^fdvc_os_tell$", lambda x, a, dn: Val(stream(x, a).pos)),
              (r"^fdvc_os_ok$", lambda x, a, dn: Val(z3.If(stream(x, a).ok, bv(1, 1), bv(0, 1)))), (r"^fdvc_os_close$", f_close), (r"^fdvc_stream$", f_stream), (r"^fdvc_havoc$", f_havoc),
              (r"^fdvc_state$", f_state), (r"^fdvc_got$", f_got), (r"^fdvc_read$", f_read), (r"^(operator new|_Znwm)", new), (r"^(operator delete|_ZdlPv)", delete)]
        self.ex = ex = sem.Exec(m, e, cs + [c for c in STDVEC_CONTRACTS if "havoc" not in c[0]] + STR_CONTRACTS)
        ex.tests, ex.eqs, ex.lens, ex.nstr = [self.j], [], [], 0
        ex.div_implied = True
        self.name, self.L = cstr(e, ex, "name", 1 << 20)
        self.schema, self.Ls = cstr(e, ex, "schema", 1 << 30)
        self.args = [Ptr(self.name, bv(0)), Ptr(self.schema, bv(0))]
    def nat(self, name, hi=LEN):
        x = z3.BitVec(name, 64)
        self.e.input(name, x)
        self.e.assume(z3.ULE(x, bv(hi)))
        return x
    def is_schema(self, s, pre="", post=""):
        f = self.files.get(s)
        self.e.prove("the schema is stored", f is not None)
        if f is None: return
        n = self.Ls + len(pre) + len(post)
        def want(k):
            t = sem.sel(self.schema.arr, k - len(pre))
            for i, c in enumerate(pre): t = z3.If(k == i, bv(ord(c), 8), t)
            for i, c in enumerate(post): t = z3.If(k == self.Ls + len(pre) + i, bv(ord(c), 8), t)
            return t
        self.e.prove("the schema has its own length", f.len == n)
        self.e.prove("every byte of the schema is stored", z3.Implies(z3.ULT(self.j, n), sem.sel(f.arr, self.j) == want(self.j)))
    def cut(self, *cuts):
        for c in cuts:
            if self.e.branch(z3.ULT(self.j, c)): break
    def is_resource(self, s, n, byte, cuts=(), tail=()):
        """header, payload, padding"""
        f, e, j = self.files.get(s), self.e, self.j
        self.cut(*cuts)
        e.prove("the resource is stored", f is not None)
        if f is None: return
        e.prove("the resource is header, payload and padding", f.len == n + 16)
        for i in range(8): e.prove("the header is the payload's size", sem.sel(f.arr, bv(i)) == z3.Extract(8 * i + 7, 8 * i, n))
        t = len(tail)
        e.prove("every byte of the payload is stored", z3.Implies(z3.ULT(j, n - t), sem.sel(f.arr, j + 8) == byte(j)))
        for i, b in enumerate(tail): e.prove("every byte of the payload is stored", sem.sel(f.arr, n - t + i + 8) == b)
        for i in range(8): e.prove("the padding is zero", sem.sel(f.arr, n + 8 + i) == 0)

def module(n):
    from checks import common
    return mod(ELEM % dict(pre=STDSTR + STDVEC + STDOS) + STORE % dict(N=n, cpp=common.REPO + "/flatdata-cpp/src/ResourceStorage.cpp"), ("write", n))

def write_case(kind):
    m = module(5)
    def go(e):
        missing = e.choose(3) if kind != "struct" else 0        # 1, 2: the storage offers no output (a TAR file)
        w = World(e, m, lambda s: not (missing == 1 or missing == 2 and s.endswith(".schema")))
        n = w.nat("size") if kind not in ("struct", "schema") else bv(5)
        N = {"view": 5, "over": 12}.get(kind, 1)
        stored = n
        if N != 1:
            c, r = z3.BitVecs("count rest", 64)
            e.assume(z3.And(z3.ULE(c, bv(LEN)), z3.ULT(r, bv(N)), n == c * N + r))
            stored = c * N
            n = c * N + r
            w.ex.div_hints = [(c, r)]
            sem.div_lemma(e, N)
        d = w.ex.region("data", n)
        d.addr(); d.const = True
        e.reach("start")
        r = w.ex.run("@w_" + kind, w.args + ([Ptr(d, bv(0)), Val(n)] if kind != "schema" else []))
        ok = r.t == 1
        fs = [w.files.get(s) for s in (("",) if kind != "schema" else ()) + (".schema",)]
        if any(f is None for f in fs):
            e.prove("no success without an output", z3.Not(ok))
            return
        every = z3.And(*[f.ok for f in fs])
        for f in fs: e.prove("success is reported only if the output has accepted everything", z3.Implies(ok, z3.And(f.ok, z3.BoolVal(not f.dirty))))
        e.prove("success is reported if the output has accepted everything", z3.Implies(every, ok))
        e.assume(ok)
        w.is_schema(".schema")
        if kind != "schema": w.is_resource("", stored, lambda k: sem.sel(d.arr, k))
    return [eng(f"C25.write<{kind}>", go)]

def ext_state(w, N, sfx=""):
    """An arbitrary state of an external vector: P bytes of elements pending, F bytes written."""
    P, F, k = w.nat("pending" + sfx, 1 << 42), w.nat("written" + sfx, 1 << 42), w.nat("elements" + sfx)
    w.e.assume(P + F == k * N)
    w.ex.div_hints = [(k, bv(0)), (k + 1, bv(0))] if N & (N - 1) else []
    if N & (N - 1): sem.div_lemma(w.e, N)
    return k, P, F, [Val(k), Val(P), Val(F)]
def tot(f, stream, arr):
    """byte j of the elements: first what the stream holds, then what is pending"""
    return lambda k: z3.If(z3.ULT(k, f), sem.sel(stream, k + 8), sem.sel(arr, k - f))
def check_state(w, st, size, sfx, was, N, what, count=True):
    """The data structure invariant of ExternalVector/ResourceHandle after an operation."""
    e, j = w.e, w.j
    nm, k, p, nb, f, files, arr = st
    e.prove(f"{what}: pending data is in live storage", p.r is not None and arr is not None)
    e.prove(f"{what}: pending data starts its storage", p.o == 0)
    e.prove(f"{what}: number of bytes", nb - 8 + f == size)
    e.prove(f"{what}: padding is pending", z3.UGE(nb, bv(8)))
    a, l, pos = files[sfx]
    e.prove(f"{what}: the stream holds what was written", z3.And(l == f + 8, pos == l))
    now = tot(f, a, arr)
    for i in range(8): e.prove(f"{what}: the pending padding is zero", sem.sel(arr, nb - 8 + i) == 0)
    return now

def ext_case(kind, N):
    m = module(N)
    def go(e):
        w = World(e, m, (lambda s: False) if kind == "none" else lambda s: True)
        if kind == "create":
            e.reach("start")
            w.ex.run("@e_create", w.args)
            check_state(w, w.seen[0], bv(0), "", None, N, "created")
            e.prove("a created vector is empty", w.seen[0][1] == 0)
            w.is_schema(".schema")
            return
        k, P, F, args = ext_state(w, N)
        size = P + F
        e.reach("start")
        w.ex.run("@e_" + kind, w.args + args)
        if kind == "none":
            e.prove("no view without an output", w.got[0].r is None)
            return
        pend, base = w.pend[0], w.base[""]
        def was(i): return z3.If(z3.ULT(i, F), z3.Select(base, i), z3.Select(pend, i - F))
        if kind == "grow":
            w.cut(F, size)
            st = w.seen[0]
            now = check_state(w, st, size + N, "", None, N, "grown")
            e.prove("the vector has one element more", st[1] == k + 1)
            e.prove("earlier elements keep their bytes", z3.Implies(z3.ULT(w.j, size), now(w.j) == was(w.j)))
            e.prove("the new element is zero", z3.Implies(z3.And(z3.UGE(w.j, size), z3.ULT(w.j, size + N)), now(w.j) == 0))
            p, em = w.got
            e.prove("the new element is returned", p.r is st[2].r and p.o == size - st[4])
            e.prove("a vector with elements is not empty", z3.Extract(0, 0, em) == 0)
        else:
            closed(w, "", size, was, N, k, w.got, (F, size))
    return [eng(f"C25.ExternalVector<{N}>.{kind}", go)]
def closed(w, s, size, was, N, cnt, got, cuts=(), tail=()):
    e = w.e
    f = w.files[s]
    e.prove("closing flushes", not f.dirty)
    e.prove("closing releases the stream", not f.open)
    w.is_resource(s, size, was, cuts, tail)
    if got is None: return
    p, n = got
    if s in w.read:
        e.prove("a view is returned only if the output has accepted everything", f.ok)
        if p.r is not None:
            e.prove("the view holds all elements", z3.And(n == cnt))
            e.prove("the view starts at the payload", p.r is w.read[s] and p.o == 8)
    else:
        e.prove("no view without accepted output", z3.And(z3.Not(f.ok), z3.BoolVal(p.r is None)))

def view_of_multi(w, got, k):
    e, (p, n) = w.e, got
    fs = [w.files["_index"], w.files[""]]
    for f in fs:
        e.prove("closing flushes", not f.dirty)
        e.prove("closing releases the stream", not f.open)
    if p.r is None: e.prove("no view without accepted output", z3.Not(z3.And(*[f.ok for f in fs])))
    else:
        for f in fs: e.prove("a view is returned only if the output has accepted everything", f.ok)
        e.prove("the view holds all items", n == k)
        e.prove("the view has the index's items", z3.And(w.first[1] == k))
        e.prove("the view refers to the index", w.first[0].r is w.read["_index"] and w.first[0].o == 8)
        e.prove("the view refers to the data", p.r is w.read[""] and p.o == 8)

def multi_case(kind, N):
    m = module(N)
    W = 5
    def go(e):
        which = e.choose(3) if kind == "none" else None
        w = World(e, m, (lambda s: False if which == 0 else s.startswith("_index") if which == 1 else not s.startswith("_index")) if kind == "none" else lambda s: True)
        if kind == "create":
            e.reach("start")
            w.ex.run("@m_create", w.args)
            check_state(w, w.seen[0], bv(0), "_index", None, W, "created index")
            check_state(w, w.seen[1], bv(0), "", None, 1, "created data")
            e.prove("a created multivector is empty", z3.And(w.seen[0][1] == 0, w.seen[1][1] == 0))
            w.is_schema(".schema")
            w.is_schema("_index.schema", "index(", ")")
            return
        k, P, F, args = ext_state(w, W)
        q, g = w.nat("pending data", 1 << 38), w.nat("written data", 1 << 38)
        isz, dsz = P + F, q + g
        e.reach("start")
        w.ex.run("@m_" + kind.split("_")[0], w.args + args + [Val(q), Val(g)])
        if kind == "none":
            e.prove("no view without an output", w.got[0].r is None)
            return
        def was_i(i): return z3.If(z3.ULT(i, F), z3.Select(w.base["_index"], i), z3.Select(w.pend[0], i - F))
        def was_d(k): return z3.If(z3.ULT(k, g), z3.Select(w.base[""], k), z3.Select(w.pend[1], k - g))
        def entry(now, at):
            for i in range(W): e.prove("the index entry is the end of the data so far", now(at + i) == z3.Extract(8 * i + 7, 8 * i, dsz))
        j = w.j
        if kind.startswith("close"):
            if kind == "close_index": closed(w, "_index", isz + W, was_i, W, k, None, (F, isz), [z3.Extract(8 * i + 7, 8 * i, dsz) for i in range(W)])
            if kind == "close_data": closed(w, "", dsz, was_d, 1, k, None, (g, dsz))
            if kind == "close_view": view_of_multi(w, w.got, k)
            return
        si, sd = w.seen
        ni = check_state(w, si, isz + (W if kind == "grow" else 0), "_index", None, W, "index")
        nd = check_state(w, sd, dsz + {"grow": 0, "add0": N + 1, "add1": 2}[kind], "", None, 1, "data")
        e.prove("data written is counted", sd[1] == sd[4])
        if kind == "grow": w.cut(F, isz)
        e.prove("earlier index entries are kept", z3.Implies(z3.ULT(j, isz), ni(j) == was_i(j)))
        e.prove("earlier data is kept", z3.Implies(z3.ULT(j, dsz), nd(j) == was_d(j)))
        e.prove("the index counts its items", si[1] == k + (1 if kind == "grow" else 0))
        if kind == "grow": entry(ni, isz)
        else:
            n = N if kind == "add0" else 1
            e.prove("the element's type precedes it", nd(dsz) == int(kind[3]))
            e.prove("the new element is zero", z3.Implies(z3.And(z3.UGT(j, dsz), z3.ULE(j, dsz + n)), nd(j) == 0))
            p, _ = w.got
            e.prove("the new element is returned", p.r is sd[2].r and p.o == dsz + 1 - sd[4])
    return [eng(f"C25.MultiVector<{N}>.{kind}", go)]
