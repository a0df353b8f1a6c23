"""C20: contracts on the real C++ TAR index parser (src/TarReader.cpp) over LLVM IR: number decoding, header checksum, and the header loop
with an inductive invariant; file contents are arbitrary bytes of any length."""
import re
import z3
from pyvc import engine as E
from pyvc.engine import Unsupported, PathEnd
from llvc import sem
from llvc.sem import bv, Val, Ptr
from checks.vec_src import ELEM, STDSTR
from checks import cpp_drv
from checks.vec_drv import eng
from checks.store_drv import str_exec, s_make, new_str
LEN = 1 << 60
VECT = r"""
extern "C" void fdvc_vnew( void* v );
extern "C" void fdvc_vmove( void* v, void* from );
extern "C" void fdvc_entry( void* v, const char* name, size_t n, size_t offset, size_t size );
extern "C" void fdvc_result( void* v );
namespace std
{
template < class T, class A = allocator< T > > class fdvc_vector
{
    char id[ 24 ];
    void log( const T& t ) { fdvc_entry( this, t.name.data( ), t.name.size( ), t.offset, t.size ); }
public:
    fdvc_vector( ) { fdvc_vnew( this ); }
    fdvc_vector( fdvc_vector&& o ) { fdvc_vmove( this, &o ); }
    void push_back( const T& t ) { log( t ); }
    void push_back( T&& t ) { T u( std::move( t ) ); log( u ); }
    template < class... X > void emplace_back( X&&... x ) { T t( std::forward< X >( x )... ); log( t ); }
    void reserve( size_t ) {}
};
}
#define vector fdvc_vector
"""
SRC = r"""
#include <algorithm>
#include <cassert>
#include <numeric>
#undef NDEBUG
%s
#include "%s/flatdata-cpp/src/TarReader.cpp"
extern "C" void t_read( const unsigned char* d, size_t n ) { auto v = flatdata::internal::read_tar_file_entries( flatdata::MemoryDescriptor( d, n ) ); fdvc_result( &v ); }
"""
PRE = "\n".join(l for l in (ELEM % dict(pre="")).split("\n") if l.startswith("#include <") and "flatdata" not in l) + STDSTR
def module():
    from checks import common
    # helper functions stay functions, so that each is checked against its own contract
    return cpp_drv.module(SRC % (PRE + VECT, common.REPO), ("tar",), extra=cpp_drv.UB + ["-fno-sanitize=pointer-overflow", "-fno-inline"])

# --- specification -----------------------------------------------------------------------------------------------------
def number(bs):
    """(acceptable, value) of a numeric field: base-256 if the top bit is set, else octal digits up to a NUL or the end."""
    n = len(bs)
    big = z3.Extract(7, 7, bs[0]) == 1
    wide = z3.Concat(bs[0] & 0x7F, *bs[1:])
    w = 8 * n
    if w > 64:
        fits, low = z3.Extract(w - 1, 64, wide) == 0, z3.Extract(63, 0, wide)
    else:
        fits, low = z3.BoolVal(True), (z3.ZeroExt(64 - w, wide) if w < 64 else wide)
    ok, val = z3.BoolVal(True), bv(0)           # from position k on: acceptable, and the value given the value so far
    def rec(k, acc):
        if k == n: return z3.BoolVal(True), acc
        o, v = rec(k + 1, acc * 8 + z3.ZeroExt(56, bs[k] - 48))
        digit = z3.And(z3.UGE(bs[k], 48), z3.ULE(bs[k], 55))
        return z3.Or(bs[k] == 0, z3.And(digit, o)), z3.If(bs[k] == 0, acc, v)
    ok, val = rec(0, bv(0))
    return z3.If(big, fits, ok), z3.If(big, low, val)
def strn(bs):
    """strnlen of the bytes."""
    l = bv(len(bs))
    for k in range(len(bs) - 1, -1, -1): l = z3.If(bs[k] == 0, bv(k), l)
    return l
def length(e, names, bs):
    """strnlen of fewer than 256 bytes, as a name with a definition."""
    key = tuple(b.get_id() for b in bs)
    if key not in names:
        l = z3.BitVec(E.fresh_name("strnlen"), 8)
        names[key] = z3.ZeroExt(56, l), bs
        e.assume(names[key][0] == strn(bs), heavy=True)
        e.assume(z3.ULE(l, bv(len(bs), 8)))
    return names[key][0]
NAME, SIZE, CHK, TYPE, MAGIC, PREFIX = (0, 100), (124, 136), (148, 156), 156, (257, 263), (345, 500)

# --- contracts of the C library on blocks of known length ---------------------------------------------------------------
def cells(x, p, n): return [z3.simplify(sem.sel(p.r.arr, p.o + k)) for k in range(n)]
def memcmp(x, a, dn):
    n = x.conc(a[2].t)
    if n is None or n > 1024: raise Unsupported("memcmp of a symbolic length")
    x.bounds(a[0], n, dn); x.bounds(a[1], n, dn)
    t = z3.And(*[p == q for p, q in zip(cells(x, a[0], n), cells(x, a[1], n))])
    r = z3.BitVec(E.fresh_name("order"), 32)
    x.e.assume((r == 0) == t)
    return Val(r)
def strnlen(x, a, dn):
    p, n = a[0], a[1].t
    c = x.conc(n)
    x.bounds(p, n, dn)          # stronger than needed: strnlen may stop early
    if c is not None and c < 256: return Val(length(x.e, x.names, cells(x, p, c)))
    l = z3.BitVec(E.fresh_name("strnlen"), 64)
    x.e.assume(z3.And(z3.ULE(l, n), z3.Implies(z3.ULT(l, n), sem.sel(p.r.arr, p.o + l) == 0)))
    for j in x.tests: x.e.assume(z3.Implies(z3.ULT(j, l), sem.sel(p.r.arr, p.o + j) != 0))
    return Val(l)
def fails(x, a, dn):
    x.e.prove("assertion holds", False, dn)
    raise PathEnd()
LIBC = [(r"^(memcmp|bcmp)$", memcmp), (r"^strnlen$", strnlen), (r"^__assert_fail$", fails)]

DECODE = r"decode_numeric_field\(char const\*, unsigned long\)$"
CHECKSUM = r"verify_checksum\(.*TarFileHeader const&\)$"
def one(m, pattern):
    ex = sem.Exec(m, None)
    ex.demangle("@")
    hits = [f for f in m.funcs if re.search(pattern, m.demangled.get(f, f))]
    return hits[0] if len(hits) == 1 else None
def c_decode(x, a, dn):
    """Contract of decode_numeric_field, proved by decode_case for the lengths it is called with."""
    n = x.conc(a[1].t)
    if n not in (8, 12): raise Unsupported(f"number of {n} bytes")
    x.bounds(a[0], n, dn)
    ok, v = number(cells(x, a[0], n))
    if not x.e.branch(ok): raise sem.CppThrow("number")
    return Val(v)
def checksum(bs):
    s = bv(0, 32)
    for k, b in enumerate(bs): s = s + (bv(32, 32) if CHK[0] <= k < CHK[1] else z3.ZeroExt(24, b))
    ok, v = number(bs[CHK[0]:CHK[1]])
    return ok, z3.ZeroExt(32, s) == v
def c_checksum(x, a, dn):
    """Contract of verify_checksum, proved by checksum_case."""
    x.bounds(a[0], 512, dn)
    ok, t = x.sums(cells(x, a[0], 512))
    if not x.e.branch(ok): raise sem.CppThrow("number")
    return Val(z3.If(t, bv(1, 1), bv(0, 1)))

def block(e, ex, name, n):
    """n bytes of arbitrary contents (an uninterpreted function of the position)."""
    H = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(8))
    r = ex.region(name, n)
    r.const = True
    r.addr()
    r.arr = sem.Mem(r.arr, bv(0), bv(n), lambda d: H(d))
    return r, H

def decode_case(n):
    m = module()
    f = one(m, DECODE)
    def go(e):
        e.reach("start")
        if f is None:
            e.prove("decoding is part of its callers", True)
            return
        ex = str_exec(m, e, LIBC)
        r, H = block(e, ex, "field", n)
        bs = [H(bv(k)) for k in range(n)]
        for k in range(n): e.input(f"byte {k}", bs[k])
        ok, v = number(bs)
        try:
            got = ex.run(f, [Ptr(r, bv(0)), Val(bv(n))])
        except sem.CppThrow:
            e.prove("a number is refused only if it is malformed or too large", z3.Not(ok))
            return
        e.prove("a malformed or too large number is refused", ok)
        e.prove("a number has its exact value", got.t == v)
    return [eng(f"C20.decode_numeric_field[{n}]", go)]

def checksum_case():
    m = module()
    f = one(m, CHECKSUM)
    def go(e):
        e.reach("start")
        if f is None:
            e.prove("checksum verification is part of its caller", True)
            return
        ex = str_exec(m, e, LIBC + ([(DECODE, c_decode)] if one(m, DECODE) else []))
        r, H = block(e, ex, "header", 512)
        bs = [H(bv(k)) for k in range(512)]
        for k in range(512): e.input(f"byte {k}", bs[k])
        ok, t = checksum(bs)
        try:
            got = ex.run(f, [Ptr(r, bv(0))])
        except sem.CppThrow:
            e.prove("only a malformed checksum field raises an error", z3.Not(ok))
            return
        e.prove("the checksum field is well formed", ok)
        e.prove("a header is accepted exactly if its checksum matches", (got.t == 1) == t if got.t.size() == 1 else (got.t != 0) == t)
    return [eng("C20.verify_checksum", go)]

class Loop:
    """The header loop: at every header the offset is a multiple of 512 within the file, the long name is any string, the entries are those before."""
    def __init__(self, kn):
        self.kn, self.at, self.o, self.on = kn, None, None, False
    def __call__(self, ex, f, header, fr, n):
        if not self.on: return None
        if self.at is None: self.at = (f, header)
        return self if self.at == (f, header) else None
    def slots(self, ex, fr, phis):
        out = [(("phi", d), d, fr[d]) for d, _ in phis]
        for r in ex.regions:
            if ("changed", r.name) in self.kn and r.live:
                c = ex.conc(r.size)
                if c == 8 and not r.ptrs: out.append((("mem", r.name), r, ex.load(("int", 64), Ptr(r, bv(0)))))
                else: r.arr, r.vals = z3.Array(E.fresh_name("any"), z3.BitVecSort(64), z3.BitVecSort(8)), {}
        return out
    def cands(self, v):
        if isinstance(v, Ptr):
            return [("data + offset", lambda o, L: Ptr(self.data, o))]
        if isinstance(v, Val) and v.t.size() == 64:
            return [("offset", lambda o, L: Val(o)), ("rest", lambda o, L: Val(self.total - o)), ("length of the long name", lambda o, L: Val(L)), ("offset / 512", lambda o, L: Val(z3.LShR(o, 9))), ("rest / 512", lambda o, L: Val(z3.LShR(self.total - o, 9)))]
        return []
    def same(self, v, w):
        if isinstance(v, Ptr): return isinstance(w, Ptr) and v.r is w.r and (v.o == w.o)
        return isinstance(w, Val) and v.t.size() == w.t.size() and v.t == w.t
    def long_name(self, ex):
        rs = [r for r in ex.regions if r.live and "alloca" in r.tag and "fdvc_string" in str(r.tag["type"]) and 0 in r.ptrs and r.ptrs[0].r is not None and r.ptrs[0].r.live]
        if len(rs) != 1: raise Unsupported(f"{len(rs)} strings carried by the header loop")
        return rs[0]
    def put(self, ex, fr, key, where, v):
        if key[0] == "phi": fr[where] = v
        else: ex.store(("int", 64), v, Ptr(where, bv(0)))
    def at_header(self, ex, f, header, fr, phis, n):
        e, kn = ex.e, self.kn
        if n == 1:
            ln = self.long_name(ex)
            L0 = ex.load(("int", 64), Ptr(ln, bv(8))).t
            e.prove("no long name is pending at the start", L0 == 0)
            e.prove("no entries at the start", sum(len(l) for l in ex.logs.values()) == 0)
            if len(ex.logs) != 1: raise Unsupported("more than one list of entries")
            chosen = []
            for key, where, v in self.slots(ex, fr, phis):
                for nm, c in self.cands(v) + [("unchanged", lambda o, L, v=v: v)]:
                    s = self.same(v, c(bv(0), L0))
                    if (key, nm) not in kn and s is not False and e.implied(s):
                        chosen.append((key, where, nm, c)); break
                else:
                    if not isinstance(v, Val): raise Unsupported(f"no invariant for {key}")
                    chosen.append((key, where, "any", None))
            strict = ("nonstrict", header) not in kn and e.implied(z3.ULT(bv(0), self.total))
            o, L = self.o, self.L
            self.strict, self.chosen = strict, chosen
            e.assume(z3.ULT(o, self.total) if strict else z3.ULE(o, self.total))
            for key, where, nm, c in chosen:
                old = fr[where] if key[0] == "phi" else None
                self.put(ex, fr, key, where, c(o, L) if c is not None else Val(z3.BitVec(E.fresh_name("any"), old.t.size() if old is not None else 64)))
            # the pending long name is any string
            ln.ptrs[0].r.live = False
            r = ex.region("pending long name", L + 1)
            r.addr()
            r.arr = sem.Mem(sem.Mem(r.arr, L, bv(1), lambda d: bv(0, 8)), bv(0), L, lambda d: self.G(d))
            ex.store(("ptr",), Ptr(r, bv(0)), Ptr(ln, bv(0)))
            ex.store(("int", 64), Val(L), Ptr(ln, bv(8)))
            self.ln, self.lnr = ln, r
            self.snap = {id(r): (r, r.arr, dict(r.ptrs), r.written) for r in ex.regions if r.live}
            self.started = True
            e.reach("a header is read")
            return
        retry = False
        for r, arr, ptrs, written in self.snap.values():
            if r is self.ln or r is self.lnr or not written: continue
            if any(k[0] == "mem" and w is r for k, w, _, _ in self.chosen): continue
            if ("changed", r.name) in kn and not r.ptrs: continue
            if r.arr is not arr or r.ptrs != ptrs:
                if r.ptrs or ptrs: raise Unsupported(f"pointer in {r.name} changed by the loop")
                kn.add(("changed", r.name)); retry = True
        if retry: raise PathEnd()
        o2, ln = self.spec_continues(ex)
        L2 = ex.load(("int", 64), Ptr(ln, bv(8))).t
        if self.strict and not e.implied(z3.ULT(o2, self.total)):
            kn.add(("nonstrict", header)); raise PathEnd()
        e.prove("the offset of the next header lies in the file", z3.ULT(o2, self.total) if self.strict else z3.ULE(o2, self.total))
        e.prove("every header moves the offset on", z3.And(z3.UGT(o2, self.o), z3.URem(o2, bv(512)) == 0))
        for key, where, nm, c in self.chosen:
            if c is None: continue
            v = fr[where] if key[0] == "phi" else ex.load(("int", 64), Ptr(where, bv(0)))
            s = self.same(v, c(o2, L2))
            if nm not in ("offset", "data + offset") and (s is False or not e.implied(s)):
                kn.add((key, nm)); retry = True
            elif nm == "offset" and len(self.kn_offsets(key)) and not e.implied(s) and sum(1 for _, _, n2, _ in self.chosen if n2 == "offset") > 1:
                kn.add((key, nm)); retry = True
            else:
                e.prove("parsing goes on at the header that follows", s)
        raise PathEnd()
    def kn_offsets(self, key): return [k for k, _, nm, _ in self.chosen if nm == "offset"]

def read_case():
    m = module()
    kn = set()
    def go(e):
        loop = Loop(kn)
        contracts = LIBC + [(r"^fdvc_(vnew|vmove|entry|result)$", lambda x, a, dn: handlers[dn](x, a))]
        if one(m, DECODE): contracts = [(DECODE, c_decode)] + contracts
        if one(m, CHECKSUM): contracts = [(CHECKSUM, c_checksum)] + contracts
        ex = str_exec(m, e, contracts)
        ex.logs, ex.names = {}, {}
        j = z3.BitVec("position", 64)
        ex.tests.append(j)
        total, o, L = z3.BitVec("file size", 64), z3.BitVec("offset of the header", 64), z3.BitVec("length of the pending long name", 64)
        H = z3.Function("header", z3.BitVecSort(64), z3.BitVecSort(8))
        for nm, t in (("file size", total), ("offset of the header", o), ("length of the pending long name", L), ("position", j)): e.input(nm, t)
        bs = [H(bv(k)) for k in range(512)]
        for k in range(512): e.input(f"header byte {k}", bs[k])
        e.assume(z3.And(z3.ULE(total, bv(LEN)), z3.ULE(L, bv(LEN)), z3.URem(o, bv(512)) == 0))
        named = one(m, CHECKSUM)
        def sums(cs_bytes):
            """The checksum of the current header as one name; of anything else in full."""
            if named is None or not all(a.eq(b) for a, b in zip(cs_bytes, bs)): return checksum(cs_bytes)
            return number(bs[CHK[0]:CHK[1]])[0], z3.Bool("checksum matches")
        ex.sums = sums
        d = ex.region("data", total)
        d.const = True
        d.addr()
        d.arr = sem.Mem(d.arr, o, bv(512), lambda k: H(k))
        loop.data, loop.total, loop.o, loop.L, loop.started = d, total, o, L, False
        loop.G = z3.Function("long name", z3.BitVecSort(64), z3.BitVecSort(8))
        state = {}
        def vkey(p): return (id(p.r), ex.conc(p.o))
        def vnew(x, a): x.logs[vkey(a[0])] = []
        def vmove(x, a): x.logs[vkey(a[0])] = x.logs.pop(vkey(a[1])); x.logs[vkey(a[1])] = None
        def entry(x, a):
            p, n = a[1], a[2].t
            x.bounds(p, n, "entry name")
            arr, po = p.r.arr, p.o
            x.logs[vkey(a[0])].append((lambda k: sem.sel(arr, po + k), n, a[3].t, a[4].t))
        def result(x, a): state["result"] = x.logs.get(vkey(a[0]))
        handlers = dict(fdvc_vnew=vnew, fdvc_vmove=vmove, fdvc_entry=entry, fdvc_result=result)
        def outcome():
            """What the specification does with the header at o: (kind, entry or None, next offset, next long name)."""
            zero = z3.And(*[b == 0 for b in bs])
            if e.branch(zero): return "end", None, None, None
            ok, t = ex.sums(bs)
            if not e.branch(z3.And(ok, t)): return "refuse", None, None, None
            ty, rest = bs[TYPE], total - (o + 512)
            def size():
                ok, v = number(bs[SIZE[0]:SIZE[1]])
                return v if e.branch(ok) else None
            if e.branch(z3.Or(ty == 48, ty == 0)):
                n = size()
                if n is None: return "refuse", None, None, None
                if e.branch(L != 0): name, nl = loop.G, L
                else:
                    l1 = length(e, ex.names, bs[NAME[0]:NAME[1]])
                    posix = z3.And(*[bs[MAGIC[0] + k] == c for k, c in enumerate(b"ustar\0")], bs[PREFIX[0]] != 0)
                    if e.branch(posix):
                        lp = length(e, ex.names, bs[PREFIX[0]:PREFIX[1]])
                        nl = lp + 1 + l1
                        def name(k): return z3.If(z3.ULT(k, lp), H(k + PREFIX[0]), z3.If(k == lp, bv(47, 8), H(k - lp - 1)))
                    else: name, nl = H, l1
                ent = (name, nl, o + 512, n)
                if e.branch(z3.UGT(n, rest)): return "last", ent, None, None
                return "go", ent, o + 512 + ((n + 511) & ~bv(511)), None
            if e.branch(ty == 53): return "go", None, o + 512, None
            if e.branch(ty == 76):
                n = size()
                if n is None or not e.branch(z3.ULE(n, rest)): return "refuse", None, None, None
                return "go", None, o + 512 + ((n + 511) & ~bv(511)), n
            return "refuse", None, None, None
        def check_log(ent):
            log = [x for l in ex.logs.values() if l for x in l]
            if ent is None:
                e.prove("a header that is no regular file adds no entry", len(log) == 0)
                return
            e.prove("a regular file adds one entry", len(log) == 1)
            if len(log) != 1: raise PathEnd()
            (at, n, off, size), (name, nl, o1, s1) = log[0], ent
            e.prove("an entry has the data offset of its file", off == o1)
            e.prove("an entry has the size stated in the header", size == s1)
            e.prove("the name of an entry has the right length", n == nl)
            e.prove("the name of an entry has the right bytes", z3.Implies(z3.ULT(j, nl), at(j) == name(j)))
        def spec_continues(ex):
            kind, ent, o2, ln = outcome()
            e.prove("parsing ends at a zero block, a truncated file or a malformed header", kind == "go", kind)
            if kind != "go": raise PathEnd()
            check_log(ent)
            a = loop.ln
            p, n = ex.load(("ptr",), Ptr(a, bv(0))), ex.load(("int", 64), Ptr(a, bv(8))).t
            if ln is None: e.prove("no long name is pending after a file or directory", n == 0)
            else:
                def at(k): return sem.sel(d.arr, o + 512 + k)
                def nm(k): return sem.sel(p.r.arr, p.o + k)
                e.prove("a long name ends at its terminator or at the size stated", z3.And(z3.ULE(n, ln), z3.Implies(z3.ULT(n, ln), at(n) == 0)))
                e.prove("a long name has the bytes that follow its header", z3.Implies(z3.ULT(j, n), z3.And(nm(j) == at(j), at(j) != 0)))
            return o2, a
        loop.spec_continues = spec_continues
        ex.loop_rule = loop
        loop.on = True
        e.reach("start")
        try:
            ex.run("@t_read", [Ptr(d, bv(0)), Val(total)])
        except sem.CppThrow:
            if not loop.started:
                e.prove("a file whose size is a multiple of 512 is parsed", z3.URem(total, bv(512)) != 0)
                return
            if e.branch(z3.UGE(o, total)):
                e.prove("no error behind the last block", False)
                return
            e.prove("an error is raised only for a malformed header", outcome()[0] == "refuse")
            return
        e.prove("a file of which parts are no blocks is refused", z3.URem(total, bv(512)) == 0)
        e.prove("the entries found are returned", state.get("result") is not None)
        if not loop.started:
            e.prove("only an empty file has no header", total == 0)
            check_log(None)
            return
        if e.branch(z3.UGE(o, total)):
            check_log(None)
            return
        kind, ent, o2, ln = outcome()
        e.prove("a malformed header is refused", kind != "refuse")
        check_log(ent)
        if kind == "go": e.prove("all headers are read", z3.UGE(o2, total))
        e.reach("parsing ends")
    for i in range(8):
        before = set(kn)
        stats = {k: (dict(v) if isinstance(v, dict) else v) for k, v in E.STATS.items()}
        e = E.Engine("C20.read_tar_file_entries", timeout_ms=20000)
        e.quick_ms = 4000
        e.heavy = ("",)
        e.explore(go)
        if kn == before: return [e]
        E.STATS.update(stats)
    e.fail("loop invariant inference", "no fixed point")
    return [e]
