"""C19: contracts on the real ResourceStorage::read (header, schema, payload) over LLVM IR; stored contents are arbitrary bytes of any length."""
import z3
from pyvc import engine as E
from pyvc.engine import Unsupported, PathEnd
from llvc import sem
from llvc.sem import bv, Val, Ptr
from checks.vec_src import ELEM, STDSTR
from checks.vec_drv import mod, eng
LEN = 1 << 40

# --- contracts of C strings and std::string ---------------------------------------------------------------------------
def cstr_len(x, p, dn):
    """Length of the C string at p: the first NUL at or after p, which must lie inside the region."""
    x.bounds(p, 1, dn)
    r = p.r
    if "cstr" in r.tag:
        L = r.tag["cstr"]
        x.e.prove("string starts before its terminator", z3.ULE(p.o, L), dn)
        return L - p.o
    c, o = x.conc(r.size), x.conc(p.o)
    if r.const and c is not None and c <= 4096 and o is not None:
        for k in range(o, c):
            b = x.conc(sem.sel(r.arr, bv(k)))
            if b is None: break
            if b == 0: return bv(k - o)
    N = r.tag.get("nul")
    if N is None:
        x.e.prove("a C string is terminated inside its memory", False, f"{dn} {r.name}")
        raise PathEnd()
    x.e.prove("string starts before its terminator", z3.ULE(p.o, N), dn)
    l = z3.BitVec(E.fresh_name("strlen"), 64)
    x.e.assume(z3.And(z3.ULE(l, N - p.o), sem.sel(r.arr, p.o + l) == 0))
    x.lens.append((r.arr, p.o, l))
    for j in x.tests: x.e.assume(z3.Implies(z3.ULT(j, l), sem.sel(r.arr, p.o + j) != 0))
    return l
def same(x, p, q, n, dn):
    """Truth of 'n bytes at p and q are equal'."""
    x.bounds(p, n, dn); x.bounds(q, n, dn)
    a, b = p.r.arr, q.r.arr
    t, w = z3.Bool(E.fresh_name("equal")), z3.BitVec(E.fresh_name("differ"), 64)
    def at(j): return sem.sel(a, p.o + j) == sem.sel(b, q.o + j)
    x.e.assume(z3.Implies(z3.Not(t), z3.And(z3.ULT(w, n), z3.Not(at(w)))))
    x.e.assume(z3.Implies(n == 0, t))
    for j in x.tests: x.e.assume(z3.Implies(z3.And(t, z3.ULT(j, n)), at(j)))
    for a0, o, l in x.lens:             # a NUL found by strlen is compared as well
        x.e.assume(z3.Implies(z3.And(t, z3.ULT(l, n)), at(l)))
    x.eqs.append((t, w, n, at))
    return t
def new_str(x, s, n, f, dn):
    x.e.prove("std::string stays below its maximum size", z3.ULT(n, bv(1 << 62)), dn)
    x.nstr += 1
    r = x.region(f"string{x.nstr}", n + 1)
    r.addr()
    r.arr = sem.Mem(sem.Mem(r.arr, n, bv(1), lambda d: bv(0, 8)), bv(0), n, f)
    r.tag["nul"] = n
    x.store(("ptr",), Ptr(r, bv(0)), s, dn)
    x.store(("int", 64), Val(n), s.add(8), dn)
    return r
def bytes_of(x, p, n, dn):
    x.bounds(p, n, dn)
    a, o = p.r.arr, p.o
    return lambda d: sem.sel(a, o + d)
def whole(p, n):
    """The bytes hold no NUL if they are all of a C string."""
    return p.r is not None and "cstr" in p.r.tag
def s_make(x, a, dn):
    n = a[2].t
    f = (lambda d: bv(0, 8)) if x.conc(n) == 0 else bytes_of(x, a[1], n, dn)
    r = new_str(x, a[0], n, f, dn)
    if a[1].r is not None and a[1].r.tag.get("nonul") is not None and x.e.implied(z3.ULE(a[1].o + n, a[1].r.tag["nonul"])): r.tag["cstr"] = r.tag["nonul"] = n
def s_fill(x, a, dn):
    r = new_str(x, a[0], a[1].t, lambda d: a[2].t, dn)
    if x.conc(a[1].t) == 0: r.tag["cstr"] = r.tag["nonul"] = bv(0)
def s_cat(x, a, dn):
    n, k = a[2].t, a[4].t
    f, g = bytes_of(x, a[1], n, dn), bytes_of(x, a[3], k, dn)
    def nonul(p, m):
        t = p.r.tag.get("nonul")
        if t is not None: return x.e.implied(z3.ULE(p.o + m, t))
        c, o = x.conc(m), x.conc(p.o)
        return c is not None and o is not None and c < 256 and all(x.conc(sem.sel(p.r.arr, bv(o + i))) not in (0, None) for i in range(c))
    clean = nonul(a[1], n) and nonul(a[3], k)
    r = new_str(x, a[0], n + k, lambda d: z3.If(z3.ULT(d, n), f(d), g(d - n)), dn)
    if clean: r.tag["cstr"] = r.tag["nonul"] = n + k
def s_free(x, a, dn):
    if a[0].r is not None:
        x.e.prove("storage is released once", a[0].r.live, dn)
        a[0].r.live = False
def b1(t): return Val(z3.If(t, bv(1, 1), bv(0, 1)))
def order(x, t):
    r = z3.BitVec(E.fresh_name("order"), 32)
    x.e.assume((r == 0) == t)
    return Val(r)
def m_cmp(x, a, dn): return order(x, same(x, a[0], a[1], a[2].t, dn))
def c_cmp(x, a, dn):
    p, q = cstr_len(x, a[0], dn), cstr_len(x, a[1], dn)
    t = x.e.branch(p == q)
    return order(x, same(x, a[0], a[1], p, dn)) if t else order(x, z3.BoolVal(False))
def c_ncmp(x, a, dn):
    p, q, n = cstr_len(x, a[0], dn), cstr_len(x, a[1], dn), a[2].t
    def mn(u): return z3.If(z3.ULT(u, n), u, n)
    if x.e.branch(mn(p) == mn(q)): return order(x, same(x, a[0], a[1], mn(p), dn))
    return order(x, z3.BoolVal(False))
def bounded_len(x, a, dn):
    """strnlen: the first NUL within n bytes, or n."""
    n = a[1].t
    x.bounds(a[0], z3.If(n == 0, bv(0), bv(1)), dn)
    if "cstr" not in a[0].r.tag: x.bounds(a[0], n, dn)
    l = z3.BitVec(E.fresh_name("strnlen"), 64)
    p = a[0]
    x.e.assume(z3.And(z3.ULE(l, n), z3.Implies(z3.ULT(l, n), sem.sel(p.r.arr, p.o + l) == 0)))
    for j in x.tests: x.e.assume(z3.Implies(z3.ULT(j, l), sem.sel(p.r.arr, p.o + j) != 0))
    x.lens.append((p.r.arr, p.o, l))
    return Val(l)
STR_CONTRACTS = [(r"^fdvc_str_make$", s_make), (r"^fdvc_str_fill$", s_fill), (r"^fdvc_str_cat$", s_cat), (r"^fdvc_str_free$", s_free), (r"^(fdvc_)?strlen$", lambda x, a, dn: Val(cstr_len(x, a[0], dn))),
                 (r"^fdvc_eq$", lambda x, a, dn: b1(same(x, a[0], a[1], a[2].t, dn))), (r"^(memcmp|bcmp)$", m_cmp), (r"^strcmp$", c_cmp), (r"^strncmp$", c_ncmp), (r"^strnlen$", bounded_len)]
def str_exec(m, e, extra=()):
    ex = sem.Exec(m, e, list(extra) + STR_CONTRACTS)
    ex.tests, ex.eqs, ex.lens, ex.nstr = [], [], [], 0
    return ex
def cstr(e, ex, name, lim=LEN):
    """A C string of arbitrary length and contents."""
    L = z3.BitVec("length of " + name, 64)
    e.input("length of " + name, L)
    e.assume(z3.ULE(L, bv(lim)))
    r = ex.region(name, L + 1)
    r.const = True
    r.addr()
    base = r.arr
    def at(d):
        return z3.Select(base, d)
    r.arr = sem.Mem(base, L, bv(1), lambda d: bv(0, 8))
    r.tag["cstr"] = r.tag["nonul"] = L
    return r, L

READ = r"""
#include <flatdata/ResourceStorage.h>
extern "C" void fdvc_read( const char* key, const uc** p, size_t* n );
struct Store : flatdata::ResourceStorage
{
    std::unique_ptr< ResourceStorage > create_directory( const char* ) override { return nullptr; }
    std::unique_ptr< ResourceStorage > directory( const char* ) override { return nullptr; }
    bool exists( const char* key ) override { const uc* p; size_t n; fdvc_read( key, &p, &n ); return p != nullptr; }
    std::shared_ptr< std::ostream > create_output_stream( const char* ) override { return nullptr; }
    flatdata::MemoryDescriptor read_resource( const char* key ) override { const uc* p; size_t n; fdvc_read( key, &p, &n ); return flatdata::MemoryDescriptor( p, n ); }
};
template < template < typename, int, int, int > class Member > union IxT
{
    using StreamType = typename Member< uint32_t, 0, 0, 0 >::StreamType;
    using MutatorType = IxT< flatdata::Writer >; using AccessorType = IxT< flatdata::Reader >;
    IxT( ) : _data( Member< uint32_t, 0, 0, 0 >{ nullptr } ) {}
    explicit IxT( StreamType data ) : _data( Member< uint32_t, 0, 0, 0 >{ data } ) {}
    StreamType data( ) const { return _data.data; }
    static constexpr size_t size_in_bytes( ) { return 4; }
    static constexpr bool IS_OVERLAPPING_WITH_NEXT = true;
    Member< uint32_t, 0, 0, 0 > _data;
    Member< uint64_t, 0, 32, 4 > value;
    Member< std::pair< uint64_t, uint64_t >, 0, 32, 4 > range;
};
using Ix = IxT< flatdata::Reader >;
#define X extern "C"
struct Out { const uc* d; size_t n; const uc* d2; size_t n2; };
X bool read_raw( const char* name, const char* schema, Out* o ) { Store s; auto r = s.read< flatdata::MemoryDescriptor >( name, schema ); if ( !r ) return false; o->d = r->data( ); o->n = r->size_in_bytes( ); return true; }
X bool read_struct( const char* name, const char* schema, Out* o ) { Store s; auto r = s.read< El< 5, false > >( name, schema ); if ( !r ) return false; o->d = r->data( ); return true; }
X bool read_vector( const char* name, const char* schema, Out* o ) { Store s; auto r = s.read< flatdata::ArrayView< El< 4, false > > >( name, schema ); if ( !r ) return false; o->d = r->data( ); o->n = r->size( ); return true; }
X bool read_vector3( const char* name, const char* schema, Out* o ) { Store s; auto r = s.read< flatdata::ArrayView< El< 3, false > > >( name, schema ); if ( !r ) return false; o->d = r->data( ); o->n = r->size( ); return true; }
X bool read_multi( const char* name, const char* schema, Out* o ) { Store s; auto r = s.read< flatdata::MultiArrayView< Ix, El< 1, false > > >( name, schema ); if ( !r ) return false; o->n = r->size( ); return true; }
X const uc* read_schema( const char* name, Out* o ) { Store s; auto r = s.read_schema( name ); o->n = r.size_in_bytes( ); return r.data( ); }
"""
class Stored:
    """An arbitrary stored resource: absent, or memory of arbitrary size and contents."""
    def __init__(self, e, ex, name, present):
        self.present = present
        self.p = Ptr(None, bv(0))
        self.n = bv(0)
        if present:
            self.n = z3.BitVec("size of " + name, 64)
            e.input("size of " + name, self.n)
            e.assume(z3.ULE(self.n, bv(LEN)))
            self.r = ex.region(name, self.n)
            self.r.const = True
            self.r.addr()
            self.p = Ptr(self.r, bv(0))
            for j in range(8): e.input(f"{name} byte {j}", z3.Select(self.r.arr, bv(j)))

def read_case(kind):
    m = mod(ELEM % dict(pre=STDSTR) + READ, ("store",))
    def go(e):
        j = z3.BitVec("position", 64)
        e.input("position", j)
        files = {}
        def fdvc_read(x, a, dn):
            l = cstr_len(x, a[0], dn)
            x.e.prove("the key is a name", True)
            for suf, f in files.items():
                if x.e.branch(l == L + len(suf)):
                    what = "the storage is asked for the resource's name" + (f" with '{suf}'" if suf else "")
                    def at(k): return sem.sel(a[0].r.arr, a[0].o + k)
                    x.e.prove(what, z3.Implies(z3.ULT(j, L), at(j) == sem.sel(nr.arr, j)))
                    for i, c in enumerate(suf): x.e.prove(what, at(L + i) == ord(c))
                    break
            else:
                x.e.prove("the storage is asked for the data or the schema of the resource", False)
                raise PathEnd()
            x.store(("ptr",), f.p, a[1])
            x.store(("int", 64), Val(f.n), a[2])
        ex = str_exec(m, e, [(r"^fdvc_read$", fdvc_read)])
        ex.tests.append(j)
        nr, L = cstr(e, ex, "name", 1 << 20)
        xr, Le = cstr(e, ex, "expected", 1 << 30)
        for s in ("", ".schema") + (("_index", "_index.schema") if kind == "multi" else ()):
            files[s] = Stored(e, ex, "stored data" + s if not s.endswith("schema") else "stored " + s, bool(e.branch(z3.Bool("present" + s))))
        o = ex.region("out", 32)
        e.reach("start")
        args = [Ptr(nr, bv(0)), Ptr(xr, bv(0)), Ptr(o, bv(0))]
        if kind == "schema":
            v = ex.run("@read_schema", [args[0], args[2]])
            f = files[".schema"]
            e.prove("the stored schema is returned", v.r is (f.r if f.present else None) and (v.o == 0))
            e.prove("all of the stored schema is returned", ex.load(("int", 64), Ptr(o, bv(8))).t == f.n)
            return
        got = ex.run("@read_" + kind, args).t == 1
        ex.div_hints = []
        def cond(d, s, pre, post):
            """What makes the resource acceptable: (scalar conditions, byte equality at j)"""
            if not (d.present and s.present): return z3.BoolVal(False), None, None
            hdr = z3.Concat(*[sem.sel(d.r.arr, bv(7 - i)) for i in range(8)])
            lx = Le + len(pre) + len(post)
            def want(k):
                t = sem.sel(xr.arr, k - len(pre))
                for i, c in enumerate(pre): t = z3.If(k == i, bv(ord(c), 8), t)
                for i, c in enumerate(post): t = z3.If(k == Le + len(pre) + i, bv(ord(c), 8), t)
                return t
            def eq(k): return z3.Implies(z3.ULT(k, lx), sem.sel(s.r.arr, k) == want(k))
            return z3.And(z3.UGE(d.n, 16), hdr == d.n - 16, s.n == lx), eq, hdr
        parts = [cond(files[""], files[".schema"], "", "")]
        if kind == "multi": parts.append(cond(files["_index"], files["_index.schema"], "index(", ")"))
        ok = e.branch(got)
        if ok:
            for (sc, eq, hdr), nm in zip(parts, ("the resource", "the index")):
                e.prove(f"accepted only if size header and schema length of {nm} match", sc)
                if eq is not None: e.prove(f"accepted only if every byte of the schema of {nm} matches", eq(j))
            if parts[0][2] is None: return
            d = files[""]
            if kind != "multi":
                p = ex.load(("ptr",), Ptr(o, bv(0)))
                e.prove("the payload starts behind the header", p.r is d.r and p.o == 8)
            n = ex.load(("int", 64), Ptr(o, bv(8))).t if kind != "struct" else None
            if kind == "raw": e.prove("the payload has the size stated", z3.And(n == parts[0][2], n == d.n - 16))
            if kind == "vector": e.prove("a vector has all elements of the payload", n == z3.LShR(parts[0][2], 2))
            if kind == "vector3": e.prove("a vector has all elements of the payload", z3.And(z3.ULE(n * 3, parts[0][2]), z3.ULT(parts[0][2] - n * 3, 3), z3.ULE(n, parts[0][2])))
            if kind == "multi": e.prove("a multivector has one item less than index entries", n == z3.If(z3.LShR(parts[1][2], 2) == 0, bv(0), z3.LShR(parts[1][2], 2) - 1))
        else:
            ws = [w for _, w, _, _ in ex.eqs] + [l for _, _, l in ex.lens]
            good = z3.And(*[z3.And(sc, *[eq(w) for w in ws], *[eq(w + 0) for w in ws]) if eq is not None else sc for sc, eq, _ in parts])
            e.prove("refused only if header or schema do not match", z3.Not(good))
    return [eng(f"C19.read<{kind}>", go)]
KINDS = ("raw", "struct", "vector", "vector3", "multi", "schema")
