"""Run-time support for instrumented code: calls, built-ins on symbolic values, containers."""
import itertools, operator, builtins, sys, types
import z3
from . import engine as E
from .engine import Unsupported, PathEnd
from .sym import *
from .loops import *

class SymText(str):
    """Text that contains the rendering of a symbolic value (only good for messages)."""
    def __eq__(self, o): raise Unsupported("comparison of text rendered from symbolic values")
    __hash__ = str.__hash__

class LazyComp:
    """Generator expression over a sequence of symbolic length."""
    def __init__(self, seq, f, conds): self.seq, self.f, self.conds = seq, f, conds
    def __iter__(self): raise Unsupported("iteration over a symbolic generator expression")

def is_sym(x): return isinstance(x, Sym) or isinstance(x, TrackedList) and x.sym is not None

def deep_sym(x, d=0):
    if is_sym(x): return True
    if d < 3 and isinstance(x, (list, tuple)): return any(deep_sym(y, d + 1) for y in (list.__iter__(x) if isinstance(x, list) else x))
    return False

def seq_of(x):
    """SymSeq view of a value, or None when native iteration is right."""
    if isinstance(x, TrackedList): return x.as_seq()
    if isinstance(x, SymSeq): return x
    if hasattr(type(x), "vc_seq"): return x.vc_seq()
    e = E.CUR
    if e is not None:
        m = getattr(type(x), "__iter__", None)
        st = contract_of(m) if m is not None else None
        if st is not None: return st(x)
    return None

def contract_of(f):
    e = E.CUR
    cs = getattr(e, "contracts", None)
    if not cs: return None
    g = getattr(f, "__func__", f)
    q = getattr(g, "__qualname__", None)
    m = getattr(g, "__module__", None)
    if q is None or m is None: return None
    return cs.get(f"{m}.{q}")

def vc_len(x):
    if isinstance(x, (Sym, TrackedList)) and hasattr(type(x), "vc_len"): return x.vc_len()
    if isinstance(x, Sym): raise TypeError("object has no len()")
    if isinstance(x, (list, tuple, str, bytes, dict, set, frozenset, bytearray, range)): return len(x)
    m = getattr(type(x), "__len__", None)
    if isinstance(m, types.FunctionType):
        st = contract_of(m)
        r = st(x) if st else m(x)
        if isinstance(r, SymInt):
            if r < 0: raise ValueError("__len__() should return >= 0")
        return r
    return len(x)

def vc_isinstance(x, t):
    if isinstance(x, Sym):
        if isinstance(x, Poison): x._bad()
        ts = getattr(x, "__vc_types__", ())
        tt = t if isinstance(t, tuple) else (t,)
        return any(issubclass(a, b) for a in ts for b in tt)
    return isinstance(x, t)

def vc_int(x=0, *a, **k):
    if isinstance(x, (SymInt,)): return x
    if isinstance(x, SymBool): return mkint(SymInt.of(x))
    if isinstance(x, Sym):
        if hasattr(type(x), "vc_int"): return x.vc_int(*a)
        raise Unsupported("int() of a symbolic value")
    return int(x, *a, **k)

def vc_bool(x=False): return x if isinstance(x, SymBool) else bool(x)

def vc_bytes(x=b"", *a, **k):
    if isinstance(x, (SymBytes, Rope)): return x.copy("bytes")
    if isinstance(x, SymInt): return x_zero(x, "bytes")
    if isinstance(x, Sym) and hasattr(type(x), "vc_encode"): return x.vc_encode(*a)
    if isinstance(x, (list, tuple)) and deep_sym(x):
        out = SymBytes(Buf(cells=[0] * len(x)), 0, len(x), "bytearray")
        for i, v in enumerate(x): out[i] = v
        return out.copy("bytes")
    return bytes(x, *a, **k)

def x_zero(n, kind):
    c = SymInt.of(n).concrete()
    if c is not None:
        if c < 0: raise ValueError("negative count")
        return SymBytes(Buf(cells=[0] * c), 0, c, kind)
    if n < 0: raise ValueError("negative count")
    z = getattr(E.cur(), "zero_buffer", None)
    if z: return z(n, kind)
    return SymBytes(Buf(arr=z3.K(z3.IntSort(), z3.BitVecVal(0, 8)), length=n), 0, n, kind)

def vc_bytearray(x=b"", *a, **k):
    if E.CUR is None: return bytearray(x, *a, **k)
    if isinstance(x, (SymBytes, Rope)): return x.copy("bytearray")
    if isinstance(x, (int, SymInt)) and not isinstance(x, bool): return x_zero(x, "bytearray")
    if isinstance(x, (list, tuple)) and deep_sym(x): return vc_bytes(x).copy("bytearray")
    b = bytearray(x, *a, **k)
    return SymBytes(Buf(cells=list(b)), 0, len(b), "bytearray")

def vc_memoryview(x):
    if isinstance(x, SymBytes): return SymBytes(x.buf, x.off, x.length, "memoryview")
    if isinstance(x, Sym): raise Unsupported("memoryview")
    return memoryview(x)

def vc_range(*a):
    if any(isinstance(x, Sym) for x in a):
        cs = [SymInt.of(x).concrete() for x in a]
        if all(c is not None for c in cs): return range(*cs)
        s = [a[0], 0, 1] if len(a) == 1 else [a[1], a[0], 1] if len(a) == 2 else [a[1], a[0], a[2]]
        return SymRange(s[1], s[0], s[2])
    return range(*a)

def vc_enumerate(x, start=0):
    s = seq_of(x)
    if s is None: return enumerate(x, start)
    return SymSeq(s.n, lambda k: (mk(SymInt.of(k) + start), s.at(k)), ("enumerate", s.tag))

def vc_zip(*xs, **kw):
    ss = [seq_of(x) for x in xs]
    if all(s is None for s in ss): return zip(*xs, **kw)
    raise_len = []
    def lift(x, s):
        if s is not None: return s
        x = list(x)
        return SymSeq(len(x), lambda k: getitem(x, k), "lit")
    ss = [lift(x, s) for x, s in zip(xs, ss)]
    n = ss[0].n
    for s in ss[1:]:
        if SymInt.of(s.n) < n: n = s.n
    return SymSeq(n, lambda k: tuple(s.at(k) for s in ss), ("zip",) + tuple(s.tag for s in ss))

def vc_list(x=()):
    if E.CUR is None: return list(x)
    s = seq_of(x)
    if s is None:
        if isinstance(x, LazyComp): return comp_list(x)
        return TrackedList(x)
    r = TrackedList()
    c = SymInt.of(s.n).concrete()
    if c is not None: list.extend(r, [s.at(i) for i in range(c)])
    else: r.sym = s
    return r

def comp_list(x):
    if x.conds: raise Unsupported("filtered comprehension over a symbolic sequence")
    r = TrackedList()
    r.sym = SymSeq(x.seq.n, lambda k: x.f(x.seq.at(k)), ("map", x.seq.tag))
    return r

def vc_tuple(x=()):
    s = seq_of(x)
    if s is None:
        if isinstance(x, LazyComp): s = comp_list(x).sym
        else: return tuple(x)
    c = SymInt.of(s.n).concrete()
    if c is not None: return tuple(s.at(i) for i in range(c))
    return SymSeq(s.n, s.at, s.tag, tuple)

def vc_minmax(op, a, k):
    if len(a) == 1 and not k:
        a = list(a[0])
    if k or not any(isinstance(x, Sym) for x in a): return (max if op == ">" else min)(*a, **k)
    r = a[0]
    for x in a[1:]:
        if (SymInt.of(x) > r if op == ">" else SymInt.of(x) < r): r = x
    return r

def vc_sum(x, start=0):
    if isinstance(x, LazyComp) or seq_of(x) is not None:
        h = getattr(E.cur(), "sum_hook", None)
        if h: return h(x, start)
        raise Unsupported("sum over a symbolic sequence")
    r = start
    for y in x: r = r + y
    return r

def vc_any(x, neg=False):
    if isinstance(x, LazyComp) or seq_of(x) is not None:
        h = getattr(E.cur(), "any_hook", None)
        if h: return h(x, neg)
        raise Unsupported("any/all over a symbolic sequence")
    for y in x:
        if bool(y) != neg: return not neg
    return neg

def vc_from_bytes(b, byteorder="big", *, signed=False):
    if not isinstance(b, Sym): return int.from_bytes(b, byteorder, signed=signed)
    if not isinstance(b, SymBytes): raise Unsupported("from_bytes")
    n = SymInt.of(b.length).concrete()
    if n is None:
        for n in range(0, 17):
            if SymInt.of(b.length) == n: break
        else: raise Unsupported("from_bytes of symbolic length")
    if n == 0: return 0
    cells = [b.cell(j) for j in range(n)]
    if byteorder == "little": cells.reverse()
    t = z3.simplify(z3.Concat(*cells)) if n > 1 else cells[0]
    if signed: return SymInt.norm(t, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
    return SymInt.ubv(t)

def vc_slice_indices(s, n):
    """slice.indices as CPython computes it."""
    step = 1 if s.step is None else s.step
    st = SymInt.of(step)
    if st is None: raise TypeError("slice indices must be integers or None")
    if st == 0: raise ValueError("slice step cannot be zero")
    neg = bool(st < 0)
    lower, upper = (-1, SymInt.of(n) - 1) if neg else (0, n)
    def adj(v, dflt):
        if v is None: return dflt
        if SymInt.of(v) < 0:
            v = SymInt.of(v) + n
            if SymInt.of(v) < lower: v = lower
        elif SymInt.of(v) > upper: v = upper
        return v
    start = adj(s.start, upper if neg else lower)
    stop = adj(s.stop, lower if neg else upper)
    return (mk(start), mk(stop), mk(step))

def vc_iter(x, *a):
    return iter(x, *a)

def vc_str(*a, **k):
    if a and isinstance(a[0], SymStrBase): return a[0]
    if a and deep_sym(a[0]): return SymText("<sym>")
    return str(*a, **k)

class SymStrBase(Sym):
    __vc_types__ = (str,)

def vc_set(x=()):
    h = getattr(E.CUR, "set_hook", None) if E.CUR is not None else None
    if h: return h(x)
    if isinstance(x, Sym) and set in getattr(x, "__vc_types__", ()): return x
    if hasattr(type(x), "vc_keys"): return x.vc_keys()
    return set(x)

def vc_sorted(x, **k):
    s = seq_of(x)
    if s is not None:
        if k: raise Unsupported("sorted with key over a symbolic sequence")
        h = getattr(E.cur(), "sorted_hook", None)
        if h: return h(s)
        raise Unsupported("sorted over a symbolic sequence")
    return TrackedList(sorted(x, **k)) if E.CUR is not None else sorted(x, **k)

def vc_next(it, *d): return next(it, *d)

def vc_type(*a):
    if len(a) == 1 and isinstance(a[0], Sym): return a[0].__vc_types__[0]
    return type(*a)

def vc_map(f, *xs):
    s = [seq_of(x) for x in xs]
    if len(xs) == 1 and s[0] is not None: return LazyComp(s[0], lambda v: VC.call(f, v), [])
    return map(f, *xs)

def vc_reversed(x):
    s = seq_of(x)
    if s is None: return reversed(x)
    return SymSeq(s.n, lambda k: s.at(mk(SymInt.of(s.n) - 1 - k)), ("reversed", s.tag))

def vc_getattr(o, n, *d):
    if isinstance(n, Sym): return type(o).__getattr__(o, n)
    return getattr(o, n, *d)
def vc_islice(x, *a):
    s = seq_of(x)
    if s is None or len(a) != 1: return itertools.islice(x, *a)
    n = s.n
    if a[0] is not None and SymInt.of(a[0]) < n: n = a[0]
    return SymSeq(n, s.at, ("islice", s.tag))
_TABLE = {
    len: vc_len, isinstance: vc_isinstance, int: vc_int, bool: vc_bool, bytes: vc_bytes, bytearray: vc_bytearray,
    memoryview: vc_memoryview, range: vc_range, enumerate: vc_enumerate, zip: vc_zip, list: vc_list, tuple: vc_tuple,
    max: lambda *a, **k: vc_minmax(">", a, k), min: lambda *a, **k: vc_minmax("<", a, k), sum: vc_sum, any: vc_any,
    all: lambda x: vc_any(x, True), str: vc_str, set: vc_set, sorted: vc_sorted, type: vc_type, map: vc_map, getattr: vc_getattr, itertools.islice: vc_islice, reversed: vc_reversed,
}
_OPS = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Mod": operator.mod, "BitOr": operator.or_}
_IOPS = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Mod": operator.imod, "BitOr": operator.ior,
         "BitAnd": operator.iand, "BitXor": operator.ixor, "LShift": operator.ilshift, "RShift": operator.irshift,
         "FloorDiv": operator.ifloordiv, "Div": operator.itruediv, "Pow": operator.ipow, "MatMult": operator.imatmul}

def getitem(o, k):
    if not isinstance(o, Sym) and type(o).__module__ != "builtins":
        st = contract_of(getattr(type(o), "__getitem__", None))
        if st is not None: return st(o, k)
    if isinstance(k, (SymInt, SymBool)) and not isinstance(o, Sym):
        if isinstance(o, TrackedList) and o.sym is not None: return o[k]
        c = SymInt.of(k).concrete()
        if c is not None: return o[c]
        if type(o) in (list, tuple, TrackedList, bytes, bytearray, str):
            n = len(o)
            if n <= 600:
                if k < 0:
                    k = k + n
                    if k < 0: raise IndexError("list index out of range")
                if not (k < n): raise IndexError("list index out of range")
                if all(type(x) is int for x in o) and n:      # table of integers: keep it a term
                    lo, hi = min(o), max(o)
                    w = width_for(lo, hi)
                    r = z3.BitVecVal(o[n - 1], w)
                    for i in range(n - 2, -1, -1):
                        r = z3.If(term(SymInt.of(k) == i), z3.BitVecVal(o[i], w), r)
                    return SymInt.norm(r, lo, hi)
                for i in range(n):
                    if k == i: return o[i]
                raise PathEnd()
        if isinstance(o, dict):
            for kk in list(o):
                if SymInt.of(kk) is not None and k == kk: return o[kk]
            raise KeyError(k)
        if type(o).__module__ == "builtins": raise Unsupported("symbolic index")
        return o[k]
    if isinstance(o, dict) and isinstance(k, SymStrBase):
        for kk in list(o):
            if k == kk: return o[kk]
        raise KeyError(k)
    if isinstance(o, dict) and type(o) in (dict,) and any(isinstance(x, SymStrBase) for x in o):
        for kk in list(o):
            if kk == k: return o[kk]
        raise KeyError(k)
    if isinstance(k, slice) and not isinstance(o, Sym) and any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)):
        if isinstance(o, (bytes, bytearray, memoryview)): return SymBytes.of(o)[k]
        if isinstance(o, (list, tuple, str)):
            cs = [None if x is None else SymInt.of(x).concrete() for x in (k.start, k.stop, k.step)]
            if any(c is None and x is not None for c, x in zip(cs, (k.start, k.stop, k.step))): raise Unsupported("symbolic slice of a native sequence")
            return o[slice(*cs)]
    st = contract_of(getattr(type(o), "__getitem__", None)) if not isinstance(o, Sym) else None
    if st is not None: return st(o, k)
    return o[k]

class VCType:
    # calls
    @staticmethod
    def call(f, *a, **k):
        e = E.CUR
        if e is None: return f(*a, **k)
        st = contract_of(f)
        if st is not None:
            if isinstance(f, types.MethodType): return st(f.__self__, *a, **k)
            return st(*a, **k)
        subs = getattr(e, "stubs", None)
        try:
            if subs and f in subs: return subs[f](*a, **k)
            t = _TABLE.get(f)
        except TypeError:
            t = None
        if t is not None: return t(*a, **k)
        if f is int.from_bytes or getattr(f, "__name__", None) == "from_bytes" and getattr(f, "__self__", None) is int:
            return vc_from_bytes(*a, **k)
        if f is divmod and getattr(e, "exact_div", None) and any(isinstance(x, Sym) for x in a): return e.exact_div(*a)
        if f is divmod and isinstance(a[0], int) and isinstance(a[1], Sym): return SymInt.of(a[0])._divmod(a[1])
        s = getattr(f, "__self__", None)
        if isinstance(s, slice) and getattr(f, "__name__", "") == "indices" and (deep_sym((s.start, s.stop, s.step)) or deep_sym(a)):
            return vc_slice_indices(s, *a)
        if isinstance(s, (str, bytes)) and getattr(f, "__name__", "") == "join" and deep_sym(list(a)):
            r = None
            for x in a[0]:
                r = x if r is None else (r + x if not s else r + s + x)
            return s if r is None else r
        if isinstance(s, str) and getattr(f, "__name__", "") == "format" and (deep_sym(list(a)) or deep_sym(list(k.values()))): return SymText("<sym>")
        if isinstance(s, dict) and getattr(f, "__name__", "") == "get" and a and isinstance(a[0], Sym):
            try: return getitem(s, a[0])
            except KeyError: return a[1] if len(a) > 1 else None
        return f(*a, **k)
    slice = staticmethod(slice)
    getitem = staticmethod(getitem)
    @staticmethod
    def setitem_v(v, o, k):
        if isinstance(k, (SymInt, SymBool)) and not isinstance(o, Sym) and type(o).__module__ == "builtins":
            k = SymInt.of(k).__index__()
        if isinstance(o, (bytearray, memoryview)) and isinstance(v, Sym): raise Unsupported("symbolic byte into a native buffer")
        st = contract_of(getattr(type(o), "__setitem__", None)) if not isinstance(o, Sym) else None
        if st is not None: return st(o, k, v)
        o[k] = v
    @staticmethod
    def inplace(op, a, b):
        if isinstance(a, (bytearray,)) and isinstance(b, Sym): raise Unsupported("native bytearray += symbolic")
        if isinstance(a, str) and op == "Mod" and deep_sym(b): return SymText("<sym>")
        return _IOPS[op](a, b)
    @staticmethod
    def binop(op, a, b):
        if op == "Mod" and type(a) is str and deep_sym(b): return SymText("<sym>")
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (bytes, bytearray)) and isinstance(y, SymInt):
                    c = y.concrete()
                    if c is not None: return x * c
                    if bytes(x) == b"\0": return x_zero(y, type(x).__name__) if y > 0 else type(x)()
                    raise Unsupported("repetition by a symbolic count")
        if op == "Add" and isinstance(a, str) and isinstance(b, SymText): return SymText(str.__add__(a, b))
        return _OPS[op](a, b)
    @staticmethod
    def contains(x, c):
        if hasattr(type(c), "vc_contains"): return c.vc_contains(x)
        s = seq_of(c)
        if s is not None:
            h = getattr(E.cur(), "contains_hook", None)
            if h: return h(x, s)
            raise Unsupported("membership in a sequence of symbolic length")
        if isinstance(c, range) and isinstance(x, SymInt):
            if c.step == 1: return mkbool(z3.And(term(x >= c.start), term(x < c.stop)))
            raise Unsupported("membership in a stepped range")
        if isinstance(x, Sym) or deep_sym(c) or (isinstance(c, dict) and any(isinstance(y, Sym) for y in c)):
            r = False
            for y in c:
                q = (x == y)
                if q is True: return True
                if q is False: continue
                r = mkbool(z3.Or(term(r), term(q)))
            return r
        m = getattr(type(c), "__contains__", None)
        if isinstance(m, types.FunctionType): return m(c, x)
        return x in c
    not_ = staticmethod(lambda b: not_(b) if isinstance(b, SymBool) else not b)
    @staticmethod
    def fstr(*parts):
        out, sy = [], False
        r = None
        if any(isinstance(p, tuple) and isinstance(p[0], SymStrBase) for p in parts):
            for p in parts:
                v = p if isinstance(p, str) else p[0]
                if not isinstance(v, (str, SymStrBase)): v = format(v, "")
                r = v if r is None else r + v
            return r
        for p in parts:
            if isinstance(p, str): out.append(p); continue
            v, conv, spec = p
            if deep_sym(v) or isinstance(v, SymText): sy = True; out.append("<sym>"); continue
            if conv == 114: v = repr(v)
            elif conv == 115: v = str(v)
            elif conv == 97: v = ascii(v)
            out.append(format(v, spec))
        s = "".join(out)
        return SymText(s) if sy else s
    @staticmethod
    def mklist(x):
        if E.CUR is None: return x
        h = getattr(E.CUR, "list_hook", None)
        r = h(x) if h else None
        return TrackedList(x) if r is None else r
    @staticmethod
    def mkdict(x):
        h = getattr(E.CUR, "dict_hook", None) if E.CUR is not None else None
        return h(x) if h else x
    @staticmethod
    def comp(kind, it, n, lam, conds):
        f = (lambda v: lam(v)) if n == 0 else (lambda v: lam(*v))
        cs = [(lambda v, c=c: c(v)) if n == 0 else (lambda v, c=c: c(*v)) for c in conds]
        s = seq_of(it)
        if isinstance(it, LazyComp):
            g = it
            if g.conds: raise Unsupported("nested filtered comprehension")
            s = SymSeq(g.seq.n, lambda k: g.f(g.seq.at(k)), ("map", g.seq.tag))
        if s is not None:
            c = SymInt.of(s.n).concrete()
            if c is None:
                lc = LazyComp(s, f, cs)
                if kind == "gen": return lc
                if kind == "list": return comp_list(lc) if not cs else filt(lc)
                h = getattr(E.cur(), "comp_hook", None)
                if h: return h(kind, lc)
                raise Unsupported(f"{kind} comprehension over a symbolic sequence")
            it = [s.at(i) for i in range(c)]
        if n and n > 0:
            def unp(v):
                t = tuple(v)
                if len(t) != n: raise ValueError("wrong number of values to unpack")
                return t
            src = (unp(v) for v in it)
        else: src = it
        def run():
            for v in src:
                if all(c(v) for c in cs): yield f(v)
        if kind == "gen": return run()
        if kind == "list": return TrackedList(run()) if E.CUR is not None else list(run())
        if kind == "set": return vc_set(run()) if E.CUR is not None else set(run())
        return dict(run())
    # loops
    @staticmethod
    def for_loop(site, it, names):
        e = E.CUR
        if e is None: return PlainFor(it)
        s = seq_of(it)
        if s is None:
            if isinstance(it, LazyComp):
                if it.conds: raise Unsupported("loop over a filtered symbolic generator expression")
                s = comp_list(it).sym
            else: return PlainFor(it)
        c = SymInt.of(s.n).concrete()
        if c is not None and not getattr(s, "force_cut", False): return PlainFor([s.at(i) for i in range(c)])
        return ForLoop(site, names, sys._getframe(1), s)
    @staticmethod
    def while_loop(site, names):
        e = E.CUR
        if e is None: return PlainWhile()
        h = getattr(e, "cut_while", None)
        tag = h(site) if h else None
        if tag is None: return PlainWhile()
        return WhileLoop(site, names, sys._getframe(1), tag)

def filt(lc):
    h = getattr(E.cur(), "filter_hook", None)
    if h: return h(lc)
    raise Unsupported("filtered comprehension over a symbolic sequence")

VC = VCType()
