"""Contracts of the resource readers (C06, C07) and record accessors (C01)."""
import pyvc.load as L
import z3, itertools, types
from pyvc import engine as E, vc
from pyvc.sym import *
from pyvc.loops import *
from pyvc.flat import *
L.install()
import flatdata.lib.resources as R
import flatdata.lib.structure as ST
import flatdata.lib.errors as ERR
from checks.builder_drv import has_tag, ListIs

I, BO = z3.IntSort(), z3.BoolSort()

def memory(e, name, length):
    """A mapped file of the given length; reads go through the contract of read_value (C01)."""
    buf = symbuf(name, length)
    rv = z3.Function(name + ".rv", I, I, BO, I)
    if not hasattr(e, "mems"): e.mems = {}
    m = SymBytes(buf, 0, length, "bytes")
    e.mems[buf.arr.get_id()] = (rv, length)
    m.rv = lambda off, w, s=False: SymInt(it=rv(iterm(off), iterm(w), term(s) if not isinstance(s, bool) else z3.BoolVal(s)))
    return m

def setup(e):
    e.mems = {}
    def read_value(data, offset_bits, num_bits, is_signed):
        if not isinstance(data, SymBytes) or data.buf.arr is None or data.buf.arr.get_id() not in e.mems: raise Unsupported("read_value on something that is not the resource's memory")
        rv, length = e.mems[data.buf.arr.get_id()]
        ob, w = SymInt.of(offset_bits), SymInt.of(num_bits)
        e.prove("read_value precondition: field inside the buffer", all_(ob >= 0, w >= 1, w <= 64, SymInt.of(ob + w) <= SymInt.of(data.length) * 8))
        sg = term(is_signed) if not isinstance(is_signed, bool) else z3.BoolVal(is_signed)
        r = SymInt(it=rv(z3.simplify(iterm(ob) + 8 * iterm(data.off)), iterm(w), sg))
        if isinstance(is_signed, bool) and not is_signed: e.assume(r.it >= 0)
        if isinstance(is_signed, bool) and not is_signed and w.const() is not None: e.assume(r.it < 2 ** w.const())
        return r
    e.contracts = {"flatdata.lib.data_access.read_value": read_value}

def struct_class(st, name="S"):
    """The generated class of a structure: real Structure with a symbolic field table."""
    return type(name, (ST.Structure,), dict(_SCHEMA="s", _NAME=name, _SIZE_IN_BITS=st.size * 8, _SIZE_IN_BYTES=st.size, _FIELDS=st.FIELDS, _FIELD_KEYS=KeySet(st)))

class DF(Sym):
    """pandas.DataFrame(data, columns) as a record of its arguments."""
    def __init__(self, data=None, columns=None): self.data, self.columns = data, columns
class NP(Sym):
    """numpy structured array being filled row by row."""
    __vc_heap__ = False
    def __init__(self, shape, dtype): self.n, self.dtype, self.rows = shape, dtype, ()
    def vc_token(self): return tuple(id(r) for r in self.rows)
    def vc_install(self, g): self.rows = g.rows
    def vc_arbitrary(self): raise Unsupported("array content undetermined")
    def __setitem__(self, i, v):
        if not (SymInt.of(i) >= 0 and SymInt.of(i) < self.n): raise IndexError("index out of bounds")
        self.rows = self.rows + ((i, v),)
    def vc_len(self): return self.n

class RowsDone(Cand):
    name = "rows before k hold the records before k"
    def __init__(self, check): self.check = check
    def entry_ok(self, loop, v0): return v0.rows == ()
    def make(self, loop, v0, k):
        g = NP(v0.n, v0.dtype)
        g.rows = (("prefix", k),)
        return g
    def holds(self, loop, v, k):
        r = v.rows
        if len(r) != 2 or r[0][0] != "prefix" or not loop.e.implied(iterm(r[0][1]) == iterm(loop.k)): return False
        return loop.e.implied(iterm(r[1][0]) == iterm(loop.k)) and self.check(loop.k, r[1][1])

def vector(e, tagname="mem", name="S"):
    st = SymStruct(name, SymInt.var("size", lo=1, hi=2 ** 40))
    n = SymInt.var("n", lo=0, hi=2 ** 40)
    mem = memory(e, tagname, mk(16 + n * st.size))
    e.assume(term(mem.rv(0, 64) == n * st.size))
    # products: monotonicity of multiplication, used for quotient and bounds
    e.product_lemma = (n, st.size)
    e.input("n", n); e.input("size", st.size)
    return st, n, mem, struct_class(st, name)

def bound_lemma(e, i, n, size):
    """0 <= i < n  =>  0 <= i*size and i*size + size <= n*size   (proved once as a lemma, instantiated here)"""
    e.assume(z3.Implies(z3.And(iterm(i) >= 0, iterm(i) < iterm(n)), z3.And(iterm(i) * iterm(size) >= 0, iterm(i) * iterm(size) + iterm(size) <= iterm(n) * iterm(size))))

def is_record(e, x, cls, mem, pos):
    return isinstance(x, cls) and isinstance(getattr(x, "_mem", None), SymBytes) and same_mem(e, x._mem, mem) and \
        e.implied(term(SymInt.of(x._pos) + SymInt.of(x._mem.off) == pos))

def same_mem(e, a, b): return a.buf.arr is not None and a.buf.arr.eq(b.buf.arr)

def open_vector(e, mem, cls):
    """Real constructor.  The quotient is pinned by the lemma q*s + r = n*s, 0 <= r < s  =>  q = n, r = 0."""
    return R.Vector(mem, cls)

def quotient_lemma():
    eng = E.Engine("lemma: exact quotient")
    def driver(e):
        q, n, s, r = z3.Ints("q n s r")
        # z3 is given the two product instances of monotonicity, each proved separately
        d = z3.Int("d")
        e.reach("pre")
        e.prove("d >= 1 and s >= 1 => d*s >= s", z3.Implies(z3.And(d >= 1, s >= 1), d * s >= s))
        e.prove("distributivity", (q - n) * s == q * s - n * s)
        t = z3.Int("t")        # t = (q-n)*s
        e.prove("exact quotient", z3.Implies(z3.And(s >= 1, r >= 0, r < s, t + r == 0, z3.Implies(q - n >= 1, t >= s), z3.Implies(n - q >= 1, -t >= s), z3.Implies(q == n, t == 0)), z3.And(q == n, r == 0)))
    eng.explore(driver)
    return eng

def divmod_exact(e, n, s):
    """Contract of divmod(n*s, s) for symbolic s: (n, 0) by the quotient lemma; anything else stays general."""
    old = vc.VC.call
    def dm(x, y):
        x, y = SymInt.of(x), SymInt.of(y)
        if isinstance(x, SymInt) and e.implied(iterm(x) == iterm(n) * iterm(s)) and e.implied(iterm(y) == iterm(s)): return (n, 0)
        return x._divmod(y)
    e.exact_div = dm

def vec_setup(e):
    setup(e)
    st, n, mem, cls = vector(e)
    divmod_exact(e, n, st.size)
    def seq_iter(seq): return SymSeq(n, lambda k: rec_at(k), ("vector",))
    v = open_vector(e, mem, cls)
    def rec_at(k):
        if not (SymInt.of(k) >= 0 and SymInt.of(k) < n): raise IndexError("out of range")
        return cls(v._mem, 8 + SymInt.of(k) * st.size)
    return st, n, mem, cls, v, rec_at

def vec_index_case():
    eng = E.Engine("Vector: length and element access")
    def driver(e):
        st, n, mem, cls, v, _ = vec_setup(e)
        e.reach("pre")
        e.prove("length is payload size / element size", term(SymInt.of(vc.vc_len(v)) == n))
        i = SymInt.var("i"); e.input("i", i)
        try: x = v[i]
        except IndexError: e.prove("IndexError only outside -n..n-1", z3.Or(i.it >= n.it, i.it < -n.it)); return
        except Exception as ex: e.fail("only IndexError is raised", f"{type(ex).__name__}: {ex}"); return
        e.prove("IndexError outside -n..n-1", z3.And(i.it < n.it, i.it >= -n.it))
        pos = SymInt(it=8 + z3.If(i.it < 0, i.it + n.it, i.it) * st.size.it)
        e.prove("element i is the record stored at position i mod n", is_record(e, x, cls, mem, pos), str(getattr(x, "_pos", "")))
        e.reach("post")
    eng.explore(driver)
    return eng

def short_case(kind):
    eng = E.Engine(f"{kind}: too short resources are rejected")
    def driver(e):
        setup(e)
        st = SymStruct("S", SymInt.var("size", lo=1, hi=2 ** 40))
        n = SymInt.var("len", lo=0, hi=15)
        e.input("len", n)
        mem = memory(e, "mem", n)
        e.reach("pre")
        try: getattr(R, kind)(mem, struct_class(st) if kind != "RawData" else None)
        except ERR.CorruptResourceError: e.prove("CorruptResourceError", True); return
        except Exception as ex: e.fail("CorruptResourceError", f"{type(ex).__name__}: {ex}"); return
        e.fail("a resource shorter than 16 bytes is rejected", "accepted")
    eng.explore(driver)
    return eng

def check_iter(e, it, n, spec_ok, what):
    """The iterable 'it' yields exactly n values, the k-th satisfying spec_ok(k, value)."""
    if isinstance(it, vc.LazyComp): it = vc.comp_list(it).sym
    s = it if isinstance(it, SymSeq) else None
    if s is not None:
        e.prove(f"{what}: number of values", term(SymInt.of(s.n) == n))
        k = SymInt.var("q", lo=0); e.assume(term(k < n), check=True)
        e.prove(f"{what}: value k is as specified", spec_ok(k, s.at(k)))
        return
    st = dict(loop=None, yields=0)
    def on_loop(loop):
        if st["loop"] is None: st["loop"] = loop
    def on_end(loop):
        if loop is st["loop"]: e.prove(f"{what}: every iteration yields one value", st["yields"] == 1, f"{st['yields']} values")
    e.on_loop, e.on_iteration_end = on_loop, on_end
    g = iter(it)
    if isinstance(g, types.GeneratorType):
        while True:
            try: v = next(g)
            except StopIteration: break
            if st["loop"] is None:
                raise Unsupported("value yielded outside a loop")
            if st["loop"].finished: e.fail(f"{what}: nothing is yielded after the last value", type(v).__name__); return
            st["yields"] += 1
            e.prove(f"{what}: one value per step", st["yields"] == 1)
            e.prove(f"{what}: value k is as specified", spec_ok(st["loop"].k, v), type(v).__name__)
        if st["loop"] is None: e.prove(f"{what}: number of values", term(SymInt.of(n) == 0)); return
        e.prove(f"{what}: number of values", term(SymInt.of(st["loop"].n) == n))
        return
    raise Unsupported(f"{what}: unexpected iterator {type(g).__name__}")

def vec_iter_case():
    eng = E.Engine("Vector: iteration")
    def driver(e):
        st, n, mem, cls, v, _ = vec_setup(e)
        e.reach("pre")
        check_iter(e, v, n, lambda k, x: is_record(e, x, cls, mem, 8 + SymInt.of(k) * st.size), "iteration")
        e.reach("post")
    eng.explore(driver)
    return eng

SLICES = [("n", "n", "n"), ("s", "n", "n"), ("n", "s", "n"), ("s", "s", "n"), ("s", "s", 1), ("s", "s", -1), ("n", "n", -1), ("n", "s", -1), ("s", "n", -1),
          ("s", "s", 2), ("s", "s", -2), ("n", "n", 3), ("s", "s", -7), ("n", "n", -2), ("s", "s", 100)]

def mkslice(e, spec):
    out = []
    for nm, x in zip(("start", "stop", "step"), spec):
        if x == "n": out.append(None)
        elif x == "s":
            v = SymInt.var(nm); e.input(nm, v); out.append(v)
        else: out.append(x)
    return slice(*out)

def list_slice_spec(sl, n):
    """Positions a Python list of length n gives for the slice: independent of slice.indices (the language reference's rules)."""
    step = 1 if sl.step is None else sl.step
    def clamp(v, lo, hi):
        v = SymInt.of(v)
        t = z3.If(v.int() < 0, v.int() + iterm(n), v.int())
        t = z3.If(t < lo, lo, t)
        return z3.If(t > hi, hi, t)
    N = iterm(n)
    if step > 0:
        a = z3.IntVal(0) if sl.start is None else clamp(sl.start, z3.IntVal(0), N)
        b = N if sl.stop is None else clamp(sl.stop, z3.IntVal(0), N)
        cnt = z3.If(b > a, (b - a + (step - 1)) / step, 0)
    else:
        a = N - 1 if sl.start is None else clamp(sl.start, z3.IntVal(-1), N - 1)
        b = z3.IntVal(-1) if sl.stop is None else clamp(sl.stop, z3.IntVal(-1), N - 1)
        cnt = z3.If(a > b, (a - b + (-step - 1)) / (-step), 0)
    return SymInt(it=cnt), lambda k: SymInt(it=a + step * iterm(k))

def vec_slice_case(spec, use):
    eng = E.Engine(f"Vector slice [{':'.join(map(str, spec))}] {use}")
    def driver(e):
        st, n, mem, cls, v, rec_at = vec_setup(e)
        sl = mkslice(e, spec)
        cnt, pos = list_slice_spec(sl, n)
        e.reach("pre")
        s = v[sl]
        ok = lambda k, x: is_record(e, x, cls, mem, 8 + pos(k) * st.size)
        if use == "iteration":
            check_iter(e, s, cnt, ok, "slice iteration")
            e.reach("post"); return
        # contract of iterating a slice (proved by the 'iteration' case): the records at the sliced positions
        def it(self):
            c2, p2 = list_slice_spec(self._slice, n)
            return SymSeq(c2, lambda k: rec_at(p2(k)), ("slice",))
        e.contracts["flatdata.lib.resources._VectorSlice.__iter__"] = it
        e.contracts["flatdata.lib.resources.Vector.__iter__"] = lambda self: SymSeq(n, rec_at, ("vector",))
        j = SymInt.var("field", lo=0); e.assume(term(j < st.m)); st.wf(j)
        def field_val(k, q): return mem.rv((8 + pos(k) * st.size) * 8 + SymInt(it=st.off(iterm(q))), st.wid(iterm(q)), SymBool(st.sgn(iterm(q))))
        def row_ok(k, row):
            """row is the tuple of the field values of record k, in declaration order"""
            sq = vc.seq_of(row)
            if sq is None or not e.implied(iterm(sq.n) == iterm(st.m)): return False
            bound_lemma(e, pos(k), n, st.size)
            return e.implied(term(SymInt.of(sq.at(j)) == field_val(k, j)))
        e.candidates = lambda loop, path, kind, v0: [RowsDone(lambda k, row: (isinstance(row, SymSeq) and row.pytype is tuple) and row_ok(k, row))] if isinstance(v0, NP) else []
        e.stubs = {R.np.empty: lambda shape, dtype=None: NP(shape, dtype), R.pd.DataFrame: DF, ST.np.dtype: lambda x: ("dtype", x)}
        if use.startswith("vector "): s = v
        if use.endswith("field"):
            d = getattr_sym(s, FieldKey(st, j))
            e.prove("a data frame of one column", isinstance(d, DF))
            rows = vc.seq_of(d.data)
            e.prove("field column: number of rows", term(SymInt.of(rows.n) == cnt))
            k = SymInt.var("row", lo=0); e.assume(term(k < cnt), check=True)
            bound_lemma(e, pos(k), n, st.size)
            r = rows.at(k)
            e.prove("field column: row k holds the field of record k", len(r) == 1 and e.implied(term(SymInt.of(r[0]) == field_val(k, j))))
            e.reach("post"); return
        limit = None
        if use.endswith("limit"):
            limit = SymInt.var("limit", lo=1); e.input("limit", limit)
            cnt = SymInt(it=z3.If(iterm(limit) < iterm(cnt), iterm(limit), iterm(cnt)))
        try:
            if "data frame" in use: d = s.to_data_frame(limit) if limit is not None else s.to_data_frame(); a = d.data
            else: a = s.to_numpy(limit) if limit is not None else s.to_numpy()
        except Exception as ex: e.fail("export succeeds", f"{type(ex).__name__}: {ex}"); return
        e.prove("export is an array", isinstance(a, NP))
        e.prove("export: number of rows", term(SymInt.of(a.n) == cnt))
        e.prove("export: rows hold the records", len(a.rows) == 1 and a.rows[0][0] == "prefix" and e.implied(iterm(a.rows[0][1]) == iterm(cnt)) or e.implied(iterm(cnt) == 0), str(a.rows))
        e.reach("post")
    eng.explore(driver)
    return eng

def getattr_sym(o, name): return type(o).__getattr__(o, name)

# --- record accessors (C01) ------------------------------------------------------------------------------------------
def record_case(acc):
    eng = E.Engine(f"Structure.{acc}")
    def driver(e):
        setup(e)
        st = SymStruct("S", SymInt.var("size", lo=1, hi=2 ** 40))
        cls = struct_class(st)
        pos = SymInt.var("pos", lo=0); n = SymInt.var("len", lo=0)
        e.assume(pos.it + st.size.it <= n.it)
        mem = memory(e, "mem", n)
        s = cls(mem, pos)
        j = SymInt.var("field", lo=0); e.assume(term(j < st.m)); st.wf(j)
        want = lambda k: mem.rv(pos * 8 + SymInt(it=st.off(iterm(k))), st.wid(iterm(k)), SymBool(st.sgn(iterm(k))))
        e.reach("pre")
        if acc == "field":
            e.prove("field value is the stored value", term(SymInt.of(getattr_sym(s, FieldKey(st, j))) == want(j)))
        elif acc == "__iter__":
            check_iter(e, s, st.m, lambda k, v: e.implied(term(SymInt.of(v) == want(k))), "record iteration")
        elif acc == "as_dict":
            e.comp_hook = lambda kind, lc: ("dictcomp", lc)
            d = s.as_dict()
            e.prove("dict over all fields", isinstance(d, tuple) and d[0] == "dictcomp" and not d[1].conds and e.implied(iterm(d[1].seq.n) == iterm(st.m)))
            k, v = d[1].f(d[1].seq.at(j))
            e.prove("key is the field's name and value its value", isinstance(k, FieldKey) and e.implied(iterm(k.k) == j.it) and e.implied(term(SymInt.of(v) == want(j))))
        else:
            r = getattr(s, acc)()
            sq = vc.seq_of(r)
            e.prove("one value per field", sq is not None and e.implied(iterm(sq.n) == iterm(st.m)))
            e.prove("value j is field j's value", term(SymInt.of(sq.at(j)) == want(j)))
        e.reach("post")
    eng.explore(driver)
    return eng

# --- instance and raw data (C07) ---------------------------------------------------------------------------------------
def instance_case():
    eng = E.Engine("Instance access")
    def driver(e):
        setup(e)
        st = SymStruct("S", SymInt.var("size", lo=1, hi=2 ** 40))
        cls = struct_class(st)
        mem = memory(e, "mem", mk(16 + st.size))
        e.assume(term(mem.rv(0, 64) == st.size))
        x = R.Instance(mem, cls)
        e.reach("pre")
        e.prove("an instance has length 1", term(SymInt.of(vc.vc_len(x)) == 1))
        what = e.choose(3)
        if what == 0:
            i = SymInt.var("i"); e.input("i", i)
            try: r = x[i]
            except IndexError: e.prove("IndexError only for an index other than 0 and -1", z3.And(i.it != 0, i.it != -1)); return
            except Exception as ex: e.fail("only IndexError is raised", f"{type(ex).__name__}: {ex}"); return
            e.prove("index is 0 or -1", z3.Or(i.it == 0, i.it == -1))
            e.prove("the record", is_record(e, r, cls, mem, 8))
        elif what == 1:
            xs = list(iter(x))
            e.prove("iteration yields the record once", len(xs) == 1 and is_record(e, xs[0], cls, mem, 8))
        else:
            j = SymInt.var("field", lo=0); e.assume(term(j < st.m)); st.wf(j)
            e.prove("field access reads the record's field", term(SymInt.of(getattr_sym(x, FieldKey(st, j))) == mem.rv(64 + SymInt(it=st.off(j.it)), st.wid(j.it), SymBool(st.sgn(j.it)))))
        e.reach("post")
    eng.explore(driver)
    return eng

def raw_case():
    eng = E.Engine("RawData access")
    def driver(e):
        setup(e)
        n = SymInt.var("n", lo=0, hi=2 ** 60); e.input("n", n)
        mem = memory(e, "mem", mk(16 + n))
        e.assume(term(mem.rv(0, 64) == n))
        x = R.RawData(mem, None)
        e.reach("pre")
        e.prove("length is the payload size", term(SymInt.of(vc.vc_len(x)) == n))
        a = SymInt.var("a", lo=0); b = SymInt.var("b", lo=0)
        e.input("a", a); e.input("b", b)
        def view(r, off, ln):
            return isinstance(r, SymBytes) and same_mem(e, r, mem) and e.implied(z3.And(iterm(r.off) == iterm(off), iterm(r.length) == iterm(ln))) or isinstance(r, SymBytes) and e.implied(iterm(ln) == 0) and e.implied(iterm(r.length) == 0)
        if e.choose(2):
            e.assume(z3.And(a.it <= b.it, b.it <= n.it), check=True)
            try: r = x[a:b]
            except Exception as ex: e.fail("slicing succeeds", f"{type(ex).__name__}: {ex}"); return
            e.prove("r[a:b] is payload bytes a..b", view(r, a + 8, b - a))
        else:
            e.assume(a.it < n.it, check=True)
            try: r = x[a]
            except Exception as ex: e.fail("indexing succeeds", f"{type(ex).__name__}: {ex}"); return
            e.prove("r[a] is payload byte a", view(r, a + 8, 1))
        e.reach("post")
    eng.explore(driver)
    return eng

# --- multivector (C07) -------------------------------------------------------------------------------------------------
class ElemList(ListIs):
    def holds(self, loop, v, k):
        if not isinstance(v, TrackedList): return False
        e = loop.e
        items = list(list.__iter__(v))
        if v.sym is None: return len(items) == 0 and e.implied(iterm(k) == 0) or len(items) == 1 and e.implied(iterm(loop.k) == 0) and self.same(loop.k, items[0])
        return v.sym.tag == ("offs",) and e.implied(iterm(v.sym.n) == iterm(loop.k)) and len(items) == 1 and self.same(loop.k, items[0])

def mv_case(scrutiny, ntypes, what):
    eng = E.Engine(f"Multivector {what} [{ntypes} types, elements of {scrutiny}]")
    def driver(e):
        setup(e)
        sts = {i: SymStruct(f"S{i}", SymInt.var(f"size{i}", lo=1, hi=2 ** 30)) for i in scrutiny}
        clss = [struct_class(sts[i], f"S{i}") if i in sts else type(f"O{i}", (ST.Structure,), dict(_SIZE_IN_BYTES=1 + i % 7, _FIELDS={}, _NAME=f"O{i}")) for i in range(ntypes)]
        m = SymInt.var("m", lo=0, hi=2 ** 40)
        isz = SymInt.var("index_size", lo=1, hi=8)
        IOFF = z3.Function("ioff", I, I, I); OFF = z3.Function("off", I, I); CNT = z3.Function("count", I, I); TYPE = z3.Function("type", I, I, I)
        imem = memory(e, "index", mk(16 + (m + 1) * isz))
        e.assume(OFF(m.it) >= 0)
        mem = memory(e, "mem", SymInt(it=16 + OFF(m.it)))
        e.assume(z3.And(term(imem.rv(0, 64) == (m + 1) * isz), OFF(m.it) >= 0))
        e.input("items", m)
        divmod_exact(e, m + 1, isz)
        iw = SymInt.var("index_width", lo=1, hi=64); e.assume(z3.And(iw.it <= 8 * isz.it))
        icls = type("Idx", (ST.Structure,), dict(_SIZE_IN_BYTES=isz, _FIELDS={"value": ST.FieldSignature(0, iw, False, "u8")}, _FIELD_KEYS={"value"}, _NAME="Idx"))
        def idx_entry(k):
            """index entry k (0..m) holds OFF(k)"""
            bound_lemma(e, k, m + 1, isz)
            e.assume(z3.Implies(z3.And(iterm(k) >= 0, iterm(k) <= m.it), imem.rv((8 + SymInt.of(k) * isz) * 8, iw).it == OFF(iterm(k))))
        def wf_item(k):
            k = iterm(k)
            e.assume(z3.And(CNT(k) >= 0, IOFF(k, z3.IntVal(0)) == 0, OFF(k) >= 0, OFF(k + 1) == OFF(k) + IOFF(k, CNT(k)), IOFF(k, CNT(k)) >= 0,
                            z3.Implies(k < m.it, OFF(k + 1) <= OFF(m.it))))
        def wf_elem(k, l):
            k, l = iterm(k), iterm(l)
            sz = iterm(sts[scrutiny[-1]].size)
            for i in scrutiny[:-1]: sz = z3.If(TYPE(k, l) == i, iterm(sts[i].size), sz)
            c = z3.And(l >= 0, l < CNT(k))
            e.assume(z3.Implies(c, z3.And(z3.Or(*[TYPE(k, l) == i for i in scrutiny]), IOFF(k, l) >= 0, IOFF(k, l + 1) == IOFF(k, l) + 1 + sz, IOFF(k, l + 1) <= IOFF(k, CNT(k)),
                     mem.rv(SymInt(it=8 * (8 + OFF(k) + IOFF(k, l))), 8).it == TYPE(k, l))))
        def elem(k, l):
            ty = scrutiny[-1]
            for i in scrutiny[:-1]:
                if mkbool(TYPE(iterm(k), iterm(l)) == i): ty = i; break
            return clss[ty](mem, SymInt(it=8 + OFF(iterm(k)) + IOFF(iterm(k), iterm(l)) + 1))
        def same(k, l, x):
            ok = z3.Or(*[z3.And(TYPE(iterm(k), iterm(l)) == i) for i in scrutiny if isinstance(x, clss[i])] or [z3.BoolVal(False)])
            return isinstance(x, ST.Structure) and isinstance(x._mem, SymBytes) and same_mem(e, x._mem, mem) and \
                e.implied(z3.And(ok, iterm(x._pos) + iterm(x._mem.off) == 8 + OFF(iterm(k)) + IOFF(iterm(k), iterm(l)) + 1))
        mv = R.Multivector(imem, mem, icls, *clss)
        e.reach("pre")
        if what == "length":
            e.prove("length is the number of index entries minus one", term(SymInt.of(vc.vc_len(mv)) == m)); return
        def item_spec(k): return SymSeq(SymInt(it=CNT(iterm(k))), lambda l: elem(k, l), ("itemval", k))
        if what in ("iteration", "slice"):
            e.contracts["flatdata.lib.resources.Multivector.__getitem__"] = lambda self, i: ("slice", i) if isinstance(i, slice) else ("item", i)
            inr = lambda i: None
            if what == "iteration": check_iter(e, mv, m, lambda k, v: isinstance(v, tuple) and v[0] == "item" and e.implied(iterm(v[1]) == iterm(k)), "iteration"); return
            sl = mkslice(e, ("s", "s", (1, -1, 2, -3)[e.choose(4)]))
            cnt, pos = list_slice_spec(sl, m)
            check_iter(e, R._MultivectorSlice(sl, mv), cnt, lambda k, v: isinstance(v, tuple) and v[0] == "item" and e.implied(iterm(v[1]) == iterm(pos(k))), "slice iteration"); return
        i = SymInt.var("i"); e.input("i", i)
        pos_i = z3.If(i.it < 0, i.it + m.it, i.it)
        inside = z3.And(i.it >= -m.it, i.it < m.it)
        if mkbool(inside):
            ii = SymInt.var("item", lo=0); e.assume(ii.it == pos_i)
            idx_entry(ii); idx_entry(ii + 1); wf_item(ii)
        else: ii = None
        st = {}
        def on_loop(loop):
            if loop.tag != "mvwhile" or ii is None: return
            e.assume(z3.And(iterm(loop.k) <= CNT(ii.it)))
            k = iterm(loop.k)
            wf_elem(ii, loop.k)
            e.assume(z3.Implies(z3.And(k >= 0, k <= CNT(ii.it)), z3.And(IOFF(ii.it, k) >= 0, IOFF(ii.it, k) <= IOFF(ii.it, CNT(ii.it)))))
        def on_end(loop):
            if loop.tag == "mvwhile": e.prove("elements read so far do not exceed the item", iterm(loop.k) + 1 <= CNT(ii.it))
        e.on_loop, e.on_iteration_end = on_loop, on_end
        e.cut_while = lambda site: "mvwhile" if ".Multivector." in site else None
        def cands(loop, path, kind, v0):
            if loop.tag != "mvwhile" or ii is None: return
            if isinstance(v0, (int, SymInt)) and not isinstance(v0, bool):
                yield IntIs("position of element k", lambda k: SymInt(it=8 + OFF(ii.it) + IOFF(ii.it, iterm(k))))
                yield IntIs("position of element k (relative)", lambda k: SymInt(it=OFF(ii.it) + IOFF(ii.it, iterm(k))))
            if isinstance(v0, TrackedList):
                c = ElemList("elements before k", lambda q: elem(ii, q)); c.same = lambda q, x: same(ii, q, x)
                yield c
        e.candidates = cands
        try: x = mv[i]
        except IndexError as ex:
            e.prove("IndexError only outside -m..m-1", z3.Not(inside), str(ex)); return
        except Exception as ex: e.fail("only IndexError is raised", f"{type(ex).__name__}: {ex}"); return
        e.prove("IndexError outside -m..m-1", inside)
        seq = vc.seq_of(x)
        if seq is None: e.fail("an item is a sequence of records", type(x).__name__); return
        e.prove("item has exactly its elements", term(SymInt.of(seq.n) == SymInt(it=CNT(ii.it))))
        l = SymInt.var("elem", lo=0); e.assume(z3.And(l.it < CNT(ii.it)), check=True)
        wf_elem(ii, l)
        e.prove("element l is the l-th tagged record, decoded with the structure its tag selects", same(ii, l, seq.at(l)))
        e.reach("post")
    eng.explore(driver)
    return eng
