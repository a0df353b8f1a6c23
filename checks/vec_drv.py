"""C18: contracts on the real ArrayView, ArrayViewIterator, Vector and MultiArrayView templates (LLVM IR, unbounded sizes)."""
import z3
from pyvc import engine as E
from pyvc.engine import Unsupported, PathEnd
from llvc import sem
from llvc.sem import bv, Val, Ptr
from checks import common, cpp_drv

from checks.vec_src import ELEM
VIEW = r'''
using T = El< %(N)d, %(OV)s >;
using V = flatdata::ArrayView< T >;
using It = V::const_iterator;
#define X extern "C"
X size_t v_size( const uc* b, const uc* e ) { return V( b, e ).size( ); }
X size_t v_bytes( const uc* b, const uc* e ) { return V( b, e ).size_in_bytes( ); }
X const uc* v_data( const uc* b, const uc* e ) { return V( b, e ).data( ); }
X bool v_empty( const uc* b, const uc* e ) { return V( b, e ).empty( ); }
X bool v_bool( const uc* b, const uc* e ) { return static_cast< bool >( V( b, e ) ); }
X const uc* v_at( const uc* b, const uc* e, size_t i ) { return V( b, e )[ i ].data( ); }
X const uc* v_front( const uc* b, const uc* e ) { return V( b, e ).front( ).data( ); }
X const uc* v_back( const uc* b, const uc* e ) { return V( b, e ).back( ).data( ); }
static void out( const V& v, const uc** d, size_t* n, size_t* s, const uc** at, size_t i ) { *d = v.data( ); *n = v.size( ); *s = v.size_in_bytes( ); *at = v[ i ].data( ); }
X void v_slice( const uc* b, const uc* e, size_t p, size_t l, const uc** d, size_t* n, size_t* s, const uc** at, size_t i ) { out( V( b, e ).slice( p, l ), d, n, s, at, i ); }
X void v_slicep( const uc* b, const uc* e, size_t p, size_t q, const uc** d, size_t* n, size_t* s, const uc** at, size_t i ) { out( V( b, e ).slice( std::make_pair( p, q ) ), d, n, s, at, i ); }
X void v_before( const uc* b, const uc* e, size_t p, const uc** d, size_t* n, size_t* s, const uc** at, size_t i ) { out( V( b, e ).slice_before( p ), d, n, s, at, i ); }
X void v_after( const uc* b, const uc* e, size_t p, const uc** d, size_t* n, size_t* s, const uc** at, size_t i ) { out( V( b, e ).slice_after( p ), d, n, s, at, i ); }
X void v_skip( const uc* b, const uc* e, size_t p, const uc** d, size_t* n, size_t* s, const uc** at, size_t i ) { out( V( b, e ).skip( p ), d, n, s, at, i ); }
X void v_skiplast( const uc* b, const uc* e, size_t p, const uc** d, size_t* n, size_t* s, const uc** at, size_t i ) { out( V( b, e ).skip_last( p ), d, n, s, at, i ); }
X const uc* i_begin( const uc* b, const uc* e ) { return ( *V( b, e ).begin( ) ).data( ); }
X const uc* i_end( const uc* b, const uc* e ) { return ( *V( b, e ).end( ) ).data( ); }
X const uc* i_at( const uc* p, ptrdiff_t k ) { It it( p ); return it[ k ].data( ); }
X const uc* i_star( const uc* p ) { It it( p ); return ( *it ).data( ); }
X const uc* i_arrow( const uc* p ) { It it( p ); return it->data( ); }
X const uc* i_plus( const uc* p, ptrdiff_t k ) { It it( p ); return ( *( it + k ) ).data( ); }
X const uc* i_minus( const uc* p, ptrdiff_t k ) { It it( p ); return ( *( it - k ) ).data( ); }
X const uc* i_pluseq( const uc* p, ptrdiff_t k, const uc** r ) { It it( p ); *r = ( *( it += k ) ).data( ); return ( *it ).data( ); }
X const uc* i_minuseq( const uc* p, ptrdiff_t k, const uc** r ) { It it( p ); *r = ( *( it -= k ) ).data( ); return ( *it ).data( ); }
X const uc* i_inc( const uc* p, const uc** r ) { It it( p ); *r = ( *( ++it ) ).data( ); return ( *it ).data( ); }
X const uc* i_dec( const uc* p, const uc** r ) { It it( p ); *r = ( *( --it ) ).data( ); return ( *it ).data( ); }
X const uc* i_incp( const uc* p, const uc** r ) { It it( p ); *r = ( *( it++ ) ).data( ); return ( *it ).data( ); }
X const uc* i_decp( const uc* p, const uc** r ) { It it( p ); *r = ( *( it-- ) ).data( ); return ( *it ).data( ); }
X ptrdiff_t i_diff( const uc* p, const uc* q ) { return It( p ) - It( q ); }
X int i_cmp( const uc* p, const uc* q ) { It a( p ), b( q ); return ( a == b ) | ( a != b ) << 1 | ( a < b ) << 2 | ( a <= b ) << 3 | ( a > b ) << 4 | ( a >= b ) << 5; }
'''
LIMIT = 1 << 60

def mod(src, key, **kw):
    # out-of-bounds pointer arithmetic is covered by the `inbounds` obligations of llvc itself
    return cpp_drv.module(src, key, extra=cpp_drv.UB + ["-fno-sanitize=pointer-overflow"], **kw)

def view_module(n, ov):
    return mod(ELEM % dict(pre="") + VIEW % dict(N=n, OV="true" if ov else "false"), ("view", n, ov))

class Ctx:
    """A view over [data, data + bytes): bytes = N * cnt + r."""
    def __init__(self, e, m, n, ov):
        self.e, self.n, self.ov = e, n, ov
        self.ex = sem.Exec(m, e)
        cnt, r = z3.BitVecs("count rest", 64)
        e.assume(z3.And(z3.ULE(cnt, bv(LIMIT // n)), z3.ULT(r, bv(n))))
        self.bytes = cnt * n + r if n > 1 else cnt
        e.input("bytes", self.bytes)
        self.ex.div_hints = [(cnt, r), (cnt, bv(0))] if n & (n - 1) else []
        self.size = cnt - 1 if ov and e.branch(cnt != 0) else cnt
        self.cnt = cnt
        self.r = self.ex.region("data", self.bytes + 8)
        self.r.addr()
        self.r.const = True
        self.b = Ptr(self.r, bv(0))
        self.end = Ptr(self.r, self.bytes)
    def call(self, name, *args):
        a = [Val(x) if isinstance(x, z3.BitVecRef) else x for x in args]
        v = self.ex.run("@" + name, a)
        if v is not None and v.p is not False:
            self.e.prove("result is not poison", z3.Not(sem._pb(v.p)))
        return v
    def at(self, name, ptr, off):
        d = z3.simplify(ptr.o - off, som=True)
        zero = z3.is_bv_value(d) and d.as_long() == 0
        self.e.prove(name, ptr.r is self.r and (zero or ptr.o == off))
    def eq(self, name, a, b):
        d = z3.simplify(a - b, som=True)
        self.e.prove(name, True if z3.is_bv_value(d) and d.as_long() == 0 else a == b)
    def nat(self, name, hi, strict=False):
        x = z3.BitVec(name, 64)
        self.e.input(name, x)
        self.e.assume(z3.ULT(x, hi) if strict else z3.ULE(x, hi))
        return x

def eng(name, driver):
    e = E.Engine(name, timeout_ms=20000)
    e.quick_ms = 400
    e.explore(driver)
    return e

def view_case(n, ov):
    m = view_module(n, ov)
    N = bv(n)
    nm = f"ArrayView<{n}{',overlapping' if ov else ''}>"
    out = []
    def basic(e):
        c = Ctx(e, m, n, ov)
        if n & (n - 1):
            sem.div_lemma(e, n)
        e.reach("start")
        c.eq("size is bytes divided by element size", c.call("v_size", c.b, c.end).t, c.size)
        c.eq("size in bytes covers the elements", c.call("v_bytes", c.b, c.end).t, c.cnt * N)
        c.at("data is the start", c.call("v_data", c.b, c.end), bv(0))
        e.prove("empty iff no element", (c.call("v_empty", c.b, c.end).t == 1) == (c.size == 0))
        e.prove("a view of data is valid", c.call("v_bool", c.b, c.end).t == 1)
        c.at("begin is element 0", c.call("i_begin", c.b, c.end), bv(0))
        c.at("end is one past the last element", c.call("i_end", c.b, c.end), c.size * N)
    out.append(eng(f"C18.{nm}.size/data/begin/end", basic))
    def at(e):
        c = Ctx(e, m, n, ov)
        i = c.nat("i", c.size, True)
        e.reach("start")
        c.at("element i starts at i * element size", c.call("v_at", c.b, c.end, i), i * N)
        c.at("front is element 0", c.call("v_front", c.b, c.end), bv(0))
        c.at("back is the last element", c.call("v_back", c.b, c.end), (c.size - 1) * N)
    out.append(eng(f"C18.{nm}.operator[]/front/back", at))
    def null(e):
        ex = sem.Exec(m, e)
        z = Ptr(None, bv(0))
        e.reach("start")
        e.prove("a null view is empty", ex.run("@v_size", [z, z]).t == 0)
        e.prove("a null view is invalid", ex.run("@v_bool", [z, z]).t == 0)
    out.append(eng(f"C18.{nm}.null", null))
    def slices(kind):
        def driver(e):
            c = Ctx(e, m, n, ov)
            p = c.nat("pos", c.size)
            if kind in ("slice", "slicep"):
                l = c.nat("length", c.size - p)
                start, ln = p, l
                args = [p, l if kind == "slice" else p + l]
            elif kind == "before":
                start, ln, args = bv(0), p, [p]
            elif kind in ("after", "skip"):
                start, ln, args = p, c.size - p, [p]
            else:
                start, ln, args = bv(0), c.size - p, [p]
            i = c.nat("i", ln, True)
            outs = [c.ex.region(f"out{k}", 8) for k in range(4)]
            ps = [Ptr(r, bv(0)) for r in outs]
            e.reach("start")
            c.call("v_" + kind, c.b, c.end, *args, *ps, i)
            d, at = c.ex.load(("ptr",), ps[0]), c.ex.load(("ptr",), ps[3])
            c.at("slice starts at the selected element", d, start * N)
            c.eq("slice has the selected number of elements", c.ex.load(("int", 64), ps[1]).t, ln)
            c.eq("slice size in bytes", c.ex.load(("int", 64), ps[2]).t, (ln + (1 if ov else 0)) * N)
            c.at("element of the slice is the element of the view", at, (start + i) * N)
        return driver
    for k in ("slice", "slicep", "before", "after", "skip", "skiplast"):
        out.append(eng(f"C18.{nm}.{k}", slices(k)))
    return out

def mono(c, i, j):
    """Lemma: multiplication by the element size is monotone while it does not overflow (proved on its own, then used)."""
    x, y = z3.BitVecs("x y", 64)
    lim, N = bv(LIMIT // c.n), bv(c.n)
    c.e.prove("monotone multiplication lemma", z3.Implies(z3.And(z3.ULE(x, lim), z3.ULT(y, x)), z3.ULT(y * N, x * N)))
    for a, b in ((i, j), (j, i)):
        c.e.assume(z3.Implies(z3.And(z3.ULE(a, lim), z3.ULT(b, a)), z3.ULT(b * N, a * N)))

def iter_case(n, ov):
    m = view_module(n, ov)
    N = bv(n)
    nm = f"ArrayViewIterator<{n}>"
    out = []
    def arith(kind):
        def driver(e):
            c = Ctx(e, m, n, ov)
            i = c.nat("i", c.size)
            j = c.nat("j", c.size)
            k = j - i
            p = Ptr(c.r, i * N)
            o = c.ex.region("out", 8)
            op = Ptr(o, bv(0))
            e.reach("start")
            if kind == "at":
                c.at("it[k]", c.call("i_at", p, k), j * N)
                c.at("*it", c.call("i_star", p), i * N)
                c.at("it->", c.call("i_arrow", p), i * N)
            elif kind == "plus":
                c.at("it + k", c.call("i_plus", p, k), j * N)
                c.at("it - k", c.call("i_minus", p, i - j), j * N)
            elif kind == "pluseq":
                r = c.call("i_pluseq", p, k, op)
                c.at("it += k", r, j * N)
                c.at("it += k returns it", c.ex.load(("ptr",), op), j * N)
                r = c.call("i_minuseq", p, i - j, op)
                c.at("it -= k", r, j * N)
                c.at("it -= k returns it", c.ex.load(("ptr",), op), j * N)
            elif kind == "inc":
                e.assume(z3.ULT(i, c.size))
                r = c.call("i_inc", p, op)
                c.at("++it", r, (i + 1) * N)
                c.at("++it returns the new position", c.ex.load(("ptr",), op), (i + 1) * N)
                r = c.call("i_incp", p, op)
                c.at("it++", r, (i + 1) * N)
                c.at("it++ returns the old position", c.ex.load(("ptr",), op), i * N)
            elif kind == "dec":
                e.assume(z3.UGT(i, 0))
                r = c.call("i_dec", p, op)
                c.at("--it", r, (i - 1) * N)
                c.at("--it returns the new position", c.ex.load(("ptr",), op), (i - 1) * N)
                r = c.call("i_decp", p, op)
                c.at("it--", r, (i - 1) * N)
                c.at("it-- returns the old position", c.ex.load(("ptr",), op), i * N)
            elif kind == "diff":
                if n & (n - 1):
                    sem.div_lemma(e, n)
                    c.ex.div_hints.append((i - j, bv(0)))
                q = Ptr(c.r, j * N)
                c.eq("difference of iterators is the difference of the positions", c.call("i_diff", p, q).t, i - j)
            elif kind == "cmp":
                if n & (n - 1):
                    mono(c, i, j)
                q = Ptr(c.r, j * N)
                v = c.call("i_cmp", p, q).t
                for b, (t, s) in enumerate([(i == j, "=="), (i != j, "!="), (z3.ULT(i, j), "<"), (z3.ULE(i, j), "<="), (z3.UGT(i, j), ">"), (z3.UGE(i, j), ">=")]):
                    e.prove(f"iterator {s} compares positions", (z3.Extract(b, b, v) == 1) == t)
        return driver
    for k in ("at", "plus", "pluseq", "inc", "dec", "diff", "cmp"):
        out.append(eng(f"C18.{nm}.{k}", arith(k)))
    return out

# --- Vector -----------------------------------------------------------------
# std::vector is a dependency: its contract replaces its body.  Only resize (new storage holding the old elements, then the fill value) is
# outside the shown text; every other member is expressed through it.
STDVEC = r"""
extern "C" void fdvc_resize( void* v, size_t n, int fill );
extern "C" void fdvc_free( void* p );
extern "C" void fdvc_havoc( void* p, size_t n );
extern "C" void fdvc_same( void* from, void* to );
namespace std
{
template < class T, class A = allocator< T > > struct fdvc_vector
{
    static_assert( sizeof( T ) == 1, "contract given for byte vectors only" );
    T* p = nullptr;
    size_t n = 0;
    using value_type = T; using size_type = size_t; using iterator = T*; using const_iterator = const T*; using reference = T&; using const_reference = const T&;
    fdvc_vector( ) {}
    explicit fdvc_vector( size_t k, T f = T( ) ) { fdvc_resize( this, k, f ); }
    fdvc_vector( const T* b, const T* e ) { fdvc_resize( this, e - b, 0 ); if ( e != b ) memcpy( p, b, e - b ); }
    fdvc_vector( const fdvc_vector& o ) { fdvc_resize( this, o.n, 0 ); if ( n ) memcpy( p, o.p, n ); }
    fdvc_vector( fdvc_vector&& o ) noexcept : p( o.p ), n( o.n ) { o.p = nullptr; o.n = 0; }
    fdvc_vector& operator=( const fdvc_vector& o ) { if ( this != &o ) { fdvc_resize( this, o.n, 0 ); if ( n ) memcpy( p, o.p, n ); } return *this; }
    fdvc_vector& operator=( fdvc_vector&& o ) noexcept { if ( this != &o ) { fdvc_free( p ); p = o.p; n = o.n; o.p = nullptr; o.n = 0; } return *this; }
    ~fdvc_vector( ) { fdvc_free( p ); }
    size_t size( ) const { return n; }
    size_t capacity( ) const { return n; }
    size_t max_size( ) const { return size_t( -1 ) / 2; }
    bool empty( ) const { return n == 0; }
    T* data( ) { return p; }
    const T* data( ) const { return p; }
    void resize( size_t k ) { fdvc_resize( this, k, 0 ); }
    void resize( size_t k, T f ) { fdvc_resize( this, k, f ); }
    void reserve( size_t ) {}
    void shrink_to_fit( ) {}
    void clear( ) { fdvc_resize( this, 0, 0 ); }
    void assign( size_t k, T f ) { fdvc_resize( this, 0, 0 ); fdvc_resize( this, k, f ); }
    void push_back( T x ) { fdvc_resize( this, n + 1, x ); }
    void emplace_back( T x = T( ) ) { fdvc_resize( this, n + 1, x ); }
    void pop_back( ) { fdvc_resize( this, n - 1, 0 ); }
    T& operator[]( size_t i ) { return p[ i ]; }
    const T& operator[]( size_t i ) const { return p[ i ]; }
    T& front( ) { return p[ 0 ]; }
    const T& front( ) const { return p[ 0 ]; }
    T& back( ) { return p[ n - 1 ]; }
    const T& back( ) const { return p[ n - 1 ]; }
    T* begin( ) { return p; }
    T* end( ) { return p + n; }
    const T* begin( ) const { return p; }
    const T* end( ) const { return p + n; }
    const T* cbegin( ) const { return p; }
    const T* cend( ) const { return p + n; }
    T* insert( const T* at, size_t k, T f ) { size_t o = at - p, old = n; fdvc_resize( this, n + k, 0 ); memmove( p + o + k, p + o, old - o ); memset( p + o, f, k ); return p + o; }
    T* insert( const T* at, const T* b, const T* e ) { size_t o = at - p, old = n, k = e - b; fdvc_resize( this, n + k, 0 ); memmove( p + o + k, p + o, old - o ); memcpy( p + o, b, k ); return p + o; }
    T* erase( const T* b, const T* e ) { size_t o = b - p, k = e - b; memmove( p + o, p + o + k, n - o - k ); fdvc_resize( this, n - k, 0 ); return p + o; }
    T* erase( const T* b ) { return erase( b, b + 1 ); }
    void swap( fdvc_vector& o ) { T* q = p; p = o.p; o.p = q; size_t k = n; n = o.n; o.n = k; }
};
}
#define vector fdvc_vector
"""
VECTOR = r"""
using V = flatdata::Vector< El< %(N)d, %(OV)s > >;
using AV = flatdata::ArrayView< El< %(N)d, %(OV)s > >;
#define X extern "C"
struct Out { const uc* d; const uc* cd; size_t n, s; const uc* at; const uc* cat; const uc* front; const uc* cfront; const uc* back; const uc* cback; const uc* vd; size_t vs, vn; const uc* ret; };
static void obs( V& v, Out* o, size_t i, bool some )
{
    const V& c = v;
    o->d = v.data( ); o->cd = c.data( ); o->n = c.size( ); o->s = c.size_in_bytes( );
    if ( some ) { o->at = v[ i ].data( ); o->cat = c[ i ].data( ); o->front = v.front( ).data( ); o->cfront = c.front( ).data( ); o->back = v.back( ).data( ); o->cback = c.back( ).data( ); }
    AV a = c;
    o->vd = a.data( ); o->vs = a.size_in_bytes( ); o->vn = a.size( );
}
static void any( V& v, size_t bytes ) { fdvc_havoc( v.data( ), bytes ); }
X void d_ctor( size_t n, Out* o, size_t i, bool some ) { V v( n ); obs( v, o, i, some ); fdvc_same( nullptr, v.data( ) ); }
X void d_default( Out* o ) { V v; obs( v, o, 0, false ); fdvc_same( nullptr, v.data( ) ); }
X void d_resize( size_t n, size_t b, size_t m, Out* o, size_t i, bool some ) { V v( n ); any( v, b ); v.resize( m ); obs( v, o, i, some ); fdvc_same( nullptr, v.data( ) ); }
X void d_reserve( size_t n, size_t b, size_t m, Out* o, size_t i, bool some ) { V v( n ); any( v, b ); v.reserve( m ); obs( v, o, i, some ); fdvc_same( nullptr, v.data( ) ); }
X void d_grow( size_t n, size_t b, Out* o, size_t i ) { V v( n ); any( v, b ); o->ret = v.grow( ).data( ); obs( v, o, i, true ); fdvc_same( nullptr, v.data( ) ); }
X void d_pop( size_t n, size_t b, Out* o, size_t i, bool some ) { V v( n ); any( v, b ); v.pop_back( ); obs( v, o, i, some ); fdvc_same( nullptr, v.data( ) ); }
X void d_copy( size_t n, size_t b, Out* o, size_t i, bool some ) { V w( n ); any( w, b ); V v( w ); obs( v, o, i, some ); fdvc_same( w.data( ), v.data( ) ); }
X void d_assign( size_t n, size_t b, size_t m, Out* o, size_t i, bool some ) { V w( n ); any( w, b ); V v( m ); v = w; obs( v, o, i, some ); fdvc_same( w.data( ), v.data( ) ); }
X void d_move( size_t n, size_t b, Out* o, size_t i, bool some ) { V w( n ); any( w, b ); V v( std::move( w ) ); obs( v, o, i, some ); fdvc_same( nullptr, v.data( ) ); }
"""
def vec_resize(x, a, dn):
    """std::vector::resize: storage for n elements, the first min(old, n) as before, the rest set to the fill value."""
    v, n, fill = a[0], a[1].t, z3.Extract(7, 0, a[2].t)
    p = x.load(("ptr",), v, "vector")
    old = x.load(("int", 64), v.add(8), "vector").t
    x.e.prove("std::vector stays below its maximum size", z3.ULT(n, bv(1 << 62)), dn)
    x.nvec = getattr(x, "nvec", 0) + 1
    r = x.region(f"vector{x.nvec}", n)
    r.addr()
    r.arr = sem.Mem(r.arr, bv(0), n, lambda d: fill)
    if p.r is not None:
        prev = p.r.arr
        r.arr = sem.Mem(r.arr, bv(0), z3.If(z3.ULT(old, n), old, n), lambda d: sem.sel(prev, d))
        p.r.live = False
    x.store(("ptr",), Ptr(r, bv(0)), v, "vector")
    x.store(("int", 64), Val(n), v.add(8), "vector")
def vec_free(x, a, dn):
    if a[0].r is not None:
        x.e.prove("storage is released once", a[0].r.live, dn)
        a[0].r.live = False
def vec_havoc(x, a, dn):
    p, n = a[0], a[1].t
    x.bounds(p, n, "elements are addressable", write=True)
    x.content = fresh = z3.Array(E.fresh_name("content"), z3.BitVecSort(64), z3.BitVecSort(8))
    p.r.arr = sem.Mem(p.r.arr, p.o, n, lambda d: z3.Select(fresh, d))
    x.before = (p.r, p.o)
def vec_same(x, a, dn):
    x.end = a[1]
    x.snap = a[1].r.arr if a[1].r is not None else None
    x.endlive = a[1].r is not None and a[1].r.live
    x.src = a[0]
    x.srcsnap = a[0].r.arr if a[0].r is not None else None
STDVEC_CONTRACTS = [(r"^fdvc_resize$", vec_resize), (r"^fdvc_free$", vec_free), (r"^fdvc_havoc$", vec_havoc), (r"^fdvc_same$", vec_same)]
FIELDS = ["d", "cd", "n", "s", "at", "cat", "front", "cfront", "back", "cback", "vd", "vs", "vn", "ret"]

def vector_case(n, ov):
    m = mod(ELEM % dict(pre=STDVEC) + VECTOR % dict(N=n, OV="true" if ov else "false"), ("vector", n, ov))
    N = bv(n)
    nm = f"Vector<{n}{',overlapping' if ov else ''}>"
    def nat(e, name, hi=LIMIT // n):
        x = z3.BitVec(name, 64)
        e.input(name, x)
        e.assume(z3.ULE(x, bv(hi)))
        return x
    def driver(kind):
        def go(e):
            ex = sem.Exec(m, e, STDVEC_CONTRACTS)
            if n & (n - 1):
                sem.div_lemma(e, n)
            cnt = nat(e, "size") if kind != "default" else bv(0)
            args = [cnt]
            kept = new = cnt
            if kind in ("resize", "reserve", "assign"):
                mm = nat(e, "new size")
                args.append(mm)
                if kind == "resize":
                    new = mm
                    kept = z3.If(z3.ULT(mm, cnt), mm, cnt)
            elif kind == "grow":
                new = cnt + 1
            elif kind == "pop":
                e.assume(z3.UGT(cnt, 0))
                new = kept = cnt - 1
            elif kind in ("ctor", "default"):
                kept = bv(0)
            if kind not in ("ctor", "default"):
                args.insert(1, cnt * N)
            i = nat(e, "i")
            some = True if kind == "grow" else False if kind == "default" else e.branch(new != 0)
            if some: e.assume(z3.ULT(i, new))
            o = ex.region("out", 8 * len(FIELDS))
            if kind == "default": args = [Ptr(o, bv(0))]
            else: args += [Ptr(o, bv(0)), i]
            if kind not in ("default", "grow"): args.append(Val(bv(1 if some else 0, 1)))
            ex.div_hints = [(new, bv(0)), (new - 1, bv(0)), (cnt, bv(0))] if n & (n - 1) else []
            e.reach("start")
            ex.run("@d_" + kind, [Val(x) if isinstance(x, z3.BitVecRef) else x for x in args])
            def p(f): return ex.load(("ptr",), Ptr(o, bv(8 * FIELDS.index(f))))
            def u(f): return ex.load(("int", 64), Ptr(o, bv(8 * FIELDS.index(f)))).t
            def at(name, q, off):
                d = z3.simplify(q.o - off, som=True)
                e.prove(name, q.r is ex.end.r and (True if ex.conc(d) == 0 else q.o == off))
            def eq(name, a, b):
                d = z3.simplify(a - b, som=True)
                e.prove(name, True if ex.conc(d) == 0 else a == b)
            r = ex.end.r
            e.prove("data is a live allocation", ex.endlive and r is not None)
            e.prove("data starts its allocation", ex.end.o == 0)
            at("data() is the first byte", p("d"), bv(0))
            at("const data() is the first byte", p("cd"), bv(0))
            eq("size()", u("n"), new)
            eq("size_in_bytes()", u("s"), new * N)
            at("a view starts at the first element", p("vd"), bv(0))
            vn = z3.If(new == 0, bv(0), new - 1) if ov else new
            eq("a view has all elements", u("vn"), vn)
            eq("a view's bytes", u("vs"), new * N)
            if some:
                for f in ("at", "cat"): at("element i starts at i * element size", p(f), i * N)
                for f in ("front", "cfront"): at("front is element 0", p(f), bv(0))
                for f in ("back", "cback"): at("back is the last element", p(f), (new - 1) * N)
            if kind == "grow":
                at("grow returns the new element", p("ret"), cnt * N)
            e.prove("eight bytes of padding are allocated behind the last element", z3.ULE(new * N + 8, r.size))
            j = z3.BitVec("byte", 64)
            e.input("byte", j)
            c = sem.sel(ex.snap, j)
            was = z3.Select(ex.content, j) if hasattr(ex, "content") else None
            if was is not None:
                e.prove("preserved elements keep their bytes", z3.Implies(z3.ULT(j, kept * N), c == was))
            e.prove("new elements are zero", z3.Implies(z3.And(z3.UGE(j, kept * N), z3.ULT(j, new * N)), c == 0))
            e.prove("the padding is zero", z3.Implies(z3.And(z3.UGE(j, new * N), z3.ULT(j, new * N + 8)), c == 0))
            if kind in ("copy", "assign"):
                e.prove("a copy has storage of its own", ex.src.r is not r)
                e.prove("copying leaves the source unchanged", z3.Implies(z3.ULT(j, cnt * N), sem.sel(ex.srcsnap, j) == was))
        return eng(f"C18.{nm}.{kind}", go)
    return [driver(k) for k in ("default", "ctor", "resize", "reserve", "grow", "pop", "copy", "assign", "move")]
