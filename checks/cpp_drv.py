"""C16/C17: contracts on the real C++ Reader / Writer templates (LLVM IR of the current headers, unbounded in the data)."""
import os, sys, tempfile, shutil
import z3
from pyvc import engine as E
from llvc import sem, ir
from checks import common

BASES = [("bool", "bool", 8, False)] + [(f"{'' if s else 'u'}int{n}_t", f"{'i' if s else 'u'}{n}", n, s) for n in (8, 16, 32, 64) for s in (False, True)]
UB = ["-fsanitize=undefined", "-fsanitize-trap=undefined", "-fno-sanitize=vptr,function,alignment"]

def types(enums=True):
    """(C++ type, tag, bits, signed, declaration)"""
    out = [(c, t, n, s, "") for c, t, n, s in BASES]
    if enums:
        out += [(f"E{t}", f"E{t}", n, s, f"enum class E{t} : {c} {{}};") for c, t, n, s in BASES[1:]]
    return out

def tname(tag):
    return next(x for x in types() if x[1] == tag)

def widths(tag):
    _, t, n, s, _ = tname(tag)
    return [1] if tag == "bool" else list(range(1, n + 1))

def workdir():
    d = os.environ.get("FDVC_WORK")
    if not d:
        d = tempfile.mkdtemp(prefix="fdvc_cpp_", dir="/tmp")
    return d

_mods = {}
def module(src, key, opt="-O1", extra=UB):
    """Compile a translation unit against /repo's current headers (fresh on every run of the check)."""
    if key in _mods:
        return _mods[key]
    d = tempfile.mkdtemp(prefix="fdvc_", dir="/tmp")
    try:
        p = os.path.join(d, "t.cpp")
        with open(p, "w") as f:
            f.write(src)
        m = sem.compile_ir(p, common.REPO, os.path.join(d, "t.ll"), opt, extra)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    _mods[key] = m
    return m

PRE = '#include <flatdata/internal/Reader.h>\n#include <flatdata/internal/Writer.h>\n#include <flatdata/internal/functional/Tagged.h>\n#include <cstdint>\n'
def rw_src(tag, ws, offs, what):
    c, t, n, s, decl = tname(tag)
    out = [PRE, decl]
    for w in ws:
        for o in offs:
            if what == "r":
                out.append(f'extern "C" {c} rd_{o}_{w}( const unsigned char* p ) {{ return flatdata::Reader< {c}, {o}, {w}, 0 >{{ p }}; }}')
            else:
                out.append(f'extern "C" void wr_{o}_{w}( unsigned char* p, {c} v ) {{ flatdata::Writer< {c}, {o}, {w}, 0 > x{{ p }}; ( x = v ); }}')
                out.append(f'extern "C" {c} wg_{o}_{w}( unsigned char* p ) {{ flatdata::Writer< {c}, {o}, {w}, 0 > x{{ p }}; return x; }}')
    return "\n".join(out) + "\n"

def field_bits(arr, o, w):
    """The field's bits as a bit vector, from the documented layout (little endian, bit offset o)."""
    first, last = o // 8, (o + w - 1) // 8
    bs = [sem.sel(arr, z3.BitVecVal(i, 64)) for i in range(first, last + 1)]
    x = bs[0] if len(bs) == 1 else z3.Concat(*reversed(bs))
    return z3.Extract(o % 8 + w - 1, o % 8, x)

def value(bits, w, n, signed):
    if w == n:
        return bits
    return z3.SignExt(n - w, bits) if signed and w > 1 else z3.ZeroExt(n - w, bits)

PAD = 8
def buffer(ex, o, w, name="data"):
    size = (o + w + 7) // 8 + PAD
    r = ex.region(name, size)
    r.addr()
    for i in range(min(size, 24)):
        ex.e.input(f"byte{i}", sem.sel(r.arr, z3.BitVecVal(i, 64)))
    return r

def ret_value(rv, n, tag):
    t = rv.t
    if tag == "bool":
        return z3.ZeroExt(8 - t.size(), t) if t.size() < 8 else t
    return t

def read_group(tag, ws, offs):
    c, t, n, s, decl = tname(tag)
    m = module(rw_src(tag, ws, offs, "r"), ("r", tag, tuple(ws), tuple(offs)))
    engs = []
    for w in ws:
        for o in offs:
            def driver(e, w=w, o=o):
                ex = sem.Exec(m, e)
                r = buffer(ex, o, w)
                r.const = True
                pre = r.arr
                v = ex.run(f"@rd_{o}_{w}", [sem.Ptr(r, sem.bv(0))])
                e.reach("returns")
                e.prove("result is not poison", z3.Not(sem._pb(v.p)))
                e.prove("reads the stored value", ret_value(v, n, tag) == value(field_bits(pre, o, w), w, n, s))
                e.prove("storage unchanged", z3.BoolVal(r.arr.eq(pre)))
            e = E.Engine(f"C16.Reader<{c},{o},{w}>")
            e.meta = dict(tag=tag, o=o, w=w)
            e.explore(driver)
            engs.append(e)
    return engs

def in_range(v, w, n, signed):
    if w == n:
        return z3.BoolVal(True) if not (signed and w == 1) else z3.BoolVal(True)
    if signed and w > 1:
        return z3.And(v >= z3.BitVecVal(-(1 << (w - 1)), n), v < z3.BitVecVal(1 << (w - 1), n))
    return z3.ULT(v, z3.BitVecVal(1 << w, n))

def write_group(tag, ws, offs):
    c, t, n, s, decl = tname(tag)
    m = module(rw_src(tag, ws, offs, "w"), ("w", tag, tuple(ws), tuple(offs)))
    engs = []
    for w in ws:
        for o in offs:
            def driver(e, w=w, o=o):
                ex = sem.Exec(m, e)
                r = buffer(ex, o, w)
                pre = r.arr
                x = z3.BitVec("v", n)
                e.input("value", x)
                if tag == "bool":
                    arg = z3.BitVec("v1", 1)
                    e.assume(x == z3.ZeroExt(7, arg))
                    e.input("value", x)
                else:
                    arg = x
                    e.assume(in_range(x, w, n, s))
                ex.run(f"@wr_{o}_{w}", [sem.Ptr(r, sem.bv(0)), sem.Val(arg)])
                e.reach("returns")
                post = r.arr
                e.prove("a later read returns the value", value(field_bits(post, o, w), w, n, s) == x)
                frame_check(e, pre, post, o, w, (o + w + 7) // 8 + PAD)
                g = ex.run(f"@wg_{o}_{w}", [sem.Ptr(r, sem.bv(0))])
                e.prove("reading through the writer returns the value", z3.And(z3.Not(sem._pb(g.p)), ret_value(g, n, tag) == x))
                e.prove("reading through the writer changes nothing", z3.BoolVal(r.arr.eq(post)))
            e = E.Engine(f"C17.Writer<{c},{o},{w}>")
            e.meta = dict(tag=tag, o=o, w=w)
            e.explore(driver)
            engs.append(e)
    return engs

def frame_check(e, pre, post, o, w, size):
    conj = []
    for i in range(size):
        mask = 0
        for b in range(8):
            if o <= 8 * i + b < o + w:
                mask |= 1 << b
        k = z3.BitVecVal(0xff & ~mask, 8)
        a, b2 = sem.sel(pre, z3.BitVecVal(i, 64)), sem.sel(post, z3.BitVecVal(i, 64))
        conj.append((a & k) == (b2 & k))
    e.prove("no bit outside the field changes", z3.And(*conj))

# --- Tagged / optional / range fields --------------------------------------
def tagged_invalids(tag, w, n, s):
    hi = (1 << (w - 1)) - 1 if s and w > 1 else (1 << w) - 1
    lo = -(1 << (w - 1)) if s and w > 1 else 0
    return sorted({0, hi, lo})

def lit(c, v, n, s):
    if n == 64:
        return f"static_cast< {c} >( {v & ((1<<64)-1)}ull )"
    return f"static_cast< {c} >( {v} )"

def tagged_src(tag, cases):
    c, t, n, s, decl = tname(tag)
    out = [PRE, decl]
    for k, (o, w, inv) in enumerate(cases):
        T = f"flatdata::Tagged< {c}, {lit(c, inv, n, s)} >"
        out.append(f'''
extern "C" bool tb_{k}( const unsigned char* p ) {{ return static_cast< bool >( flatdata::Reader< {T}, {o}, {w}, 0 >{{ p }} ); }}
extern "C" {c} tv_{k}( const unsigned char* p ) {{ return *flatdata::Reader< {T}, {o}, {w}, 0 >{{ p }}; }}
extern "C" bool to_{k}( const unsigned char* p, {c}* out ) {{ boost::optional< {c} > x = flatdata::Reader< {T}, {o}, {w}, 0 >{{ p }}; if ( x ) *out = *x; return static_cast< bool >( x ); }}
extern "C" bool wb_{k}( unsigned char* p ) {{ return static_cast< bool >( flatdata::Writer< {T}, {o}, {w}, 0 >{{ p }} ); }}
extern "C" {c} wv_{k}( unsigned char* p ) {{ return *flatdata::Writer< {T}, {o}, {w}, 0 >{{ p }}; }}
extern "C" void ww_{k}( unsigned char* p, {c} v ) {{ flatdata::Writer< {T}, {o}, {w}, 0 > x{{ p }}; ( x = v ); }}
extern "C" bool wo_{k}( unsigned char* p, bool has, {c} v ) {{ flatdata::Writer< {T}, {o}, {w}, 0 > x{{ p }}; boost::optional< {c} > y; if ( has ) y = v; return &( x = y ) == &x; }}
''')
    return "\n".join(out)

def tagged_read_group(tag, cases):
    c, t, n, s, decl = tname(tag)
    m = module(tagged_src(tag, cases), ("t", tag, tuple(cases)))
    engs = []
    for k, (o, w, inv) in enumerate(cases):
        def driver(e, k=k, o=o, w=w, inv=inv):
            ex = sem.Exec(m, e)
            r = buffer(ex, o, w)
            r.const = True
            pre = r.arr
            d = sem.Ptr(r, sem.bv(0))
            want = value(field_bits(pre, o, w), w, n, s)
            invalid = want == z3.BitVecVal(inv, n)
            b = ex.run(f"@tb_{k}", [d])
            e.prove("has a value exactly when the stored bits differ from the invalid value", (b.t == 1) == z3.Not(invalid))
            v = ex.run(f"@tv_{k}", [d])
            e.prove("value is the stored value", v.t == want)
            out = ex.region("out", n // 8)
            h = ex.run(f"@to_{k}", [d, sem.Ptr(out, sem.bv(0))])
            e.reach("returns")
            e.prove("optional is empty exactly for the invalid value", (h.t == 1) == z3.Not(invalid))
            e.prove("optional holds the stored value", z3.Implies(z3.Not(invalid), ex.load(("int", n), sem.Ptr(out, sem.bv(0))).t == want))
        e = E.Engine(f"C16.Reader<Tagged<{c},{inv}>,{o},{w}>")
        e.meta = dict(tag=tag, o=o, w=w, inv=inv)
        e.explore(driver)
        engs.append(e)
    return engs

def tagged_write_group(tag, cases):
    c, t, n, s, decl = tname(tag)
    m = module(tagged_src(tag, cases), ("t", tag, tuple(cases)))
    engs = []
    for k, (o, w, inv) in enumerate(cases):
        def driver(e, k=k, o=o, w=w, inv=inv):
            ex = sem.Exec(m, e)
            r = buffer(ex, o, w)
            pre = r.arr
            d = sem.Ptr(r, sem.bv(0))
            x = z3.BitVec("v", n)
            e.input("value", x)
            e.assume(in_range(x, w, n, s))
            mode = e.choose(2)
            if mode == 0:
                ex.run(f"@ww_{k}", [d, sem.Val(x)])
                want = x
            else:
                has = z3.BitVec("has", 1)
                e.input("has_value", has)
                same = ex.run(f"@wo_{k}", [d, sem.Val(has), sem.Val(x)])
                e.prove("assignment returns the writer itself", same.t == 1)
                want = z3.If(has == 1, x, z3.BitVecVal(inv, n))
            e.reach("returns")
            e.prove("a later read returns the value", value(field_bits(r.arr, o, w), w, n, s) == want)
            frame_check(e, pre, r.arr, o, w, (o + w + 7) // 8 + PAD)
            b = ex.run(f"@wb_{k}", [d])
            v = ex.run(f"@wv_{k}", [d])
            e.prove("writer reports the value it holds", z3.And((b.t == 1) == (want != z3.BitVecVal(inv, n)), v.t == want))
        e = E.Engine(f"C17.Writer<Tagged<{c},{inv}>,{o},{w}>")
        e.meta = dict(tag=tag, o=o, w=w, inv=inv)
        e.explore(driver)
        engs.append(e)
    return engs

def range_group(tag, cases):
    """std::pair fields: start from this element, end from the element after it (struct size away)."""
    c, t, n, s, decl = tname(tag)
    out = [PRE, decl]
    for k, (o, w, sz) in enumerate(cases):
        out.append(f'extern "C" void rp_{k}( const unsigned char* p, {c}* a, {c}* b ) {{ std::pair< {c}, {c} > x = flatdata::Reader< std::pair< {c}, {c} >, {o}, {w}, {sz} >{{ p }}; *a = x.first; *b = x.second; }}')
    m = module("\n".join(out), ("p", tag, tuple(cases)))
    engs = []
    for k, (o, w, sz) in enumerate(cases):
        def driver(e, k=k, o=o, w=w, sz=sz):
            ex = sem.Exec(m, e)
            r = buffer(ex, 8 * sz + o, w)
            r.const = True
            ra, rb = ex.region("a", n // 8), ex.region("b", n // 8)
            z = sem.bv(0)
            ex.run(f"@rp_{k}", [sem.Ptr(r, z), sem.Ptr(ra, z), sem.Ptr(rb, z)])
            e.reach("returns")
            e.prove("range start is this element's field", ex.load(("int", n), sem.Ptr(ra, z)).t == value(field_bits(r.arr, o, w), w, n, s))
            e.prove("range end is the next element's field", ex.load(("int", n), sem.Ptr(rb, z)).t == value(field_bits(r.arr, 8 * sz + o, w), w, n, s))
        e = E.Engine(f"C16.Reader<pair<{c}>,{o},{w},{sz}>")
        e.meta = dict(tag=tag, o=o, w=w, sz=sz)
        e.explore(driver)
        engs.append(e)
    return engs

def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]

def tasks(what, thorough):
    out = []
    fn = "read_group" if what == "r" else "write_group"
    offs = list(range(8)) + ([9, 14, 19, 29, 41, 67, 130] if thorough else [])
    for c, t, n, s, d in types():
        for ws in chunks(widths(t), 16):
            out.append(("checks.cpp_drv", fn, (t, ws, offs)))
        # byte offsets other than 0
        far = [8 + t_ for t_ in (0, 5)] + [64 + 3, 8 * 13 + 7]
        ws = widths(t) if thorough else sorted({1, 2, n // 2, n - 1 if n > 1 else 1, n} & set(widths(t)))
        for wc in chunks(ws, 16):
            out.append(("checks.cpp_drv", fn, (t, wc, far)))
    for c, t, n, s, d in types(False)[1:]:
        cases = []
        for w in (widths(t) if thorough else sorted({1, 2, 3, n // 2, n // 2 + 1, n - 1, n})):
            for o in ((0, 3, 7, 12) if thorough else (0, 3, 7)):
                for inv in tagged_invalids(t, w, n, s):
                    cases.append((o, w, inv))
        for cs in chunks(cases, 40):
            out.append(("checks.cpp_drv", "tagged_read_group" if what == "r" else "tagged_write_group", (t, cs)))
        if what == "r":
            cs = [(o, w, sz) for w in sorted({1, n // 2 + 1, n}) for o in (0, 5) for sz in (9, 16)]
            out.append(("checks.cpp_drv", "range_group", (t, cs)))
    return out
