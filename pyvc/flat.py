"""flatdata-specific ghost domain: structures with any number of fields, records, record buffers."""
import z3
from . import engine as E
from .engine import Unsupported, PathEnd
from .sym import *
from .loops import *

class FieldKey(Sym):
    """Name of the k-th field of a structure (opaque; equal iff same structure and index)."""
    __vc_types__ = (str,)
    def __init__(self, st, k): self.st, self.k = st, k
    def __eq__(self, o):
        if isinstance(o, FieldKey) and o.st is self.st: return mkbool(iterm(self.k) == iterm(o.k))
        if isinstance(o, FieldKey): raise Unsupported("comparing field names of different structures")
        return False
    def __ne__(self, o): return not_(self == o)
    def __hash__(self): raise Unsupported("hash of a symbolic field name")
    def __str__(self): return "<field>"
    def __format__(self, s): return "<field>"
    def __repr__(self): return f"<FieldKey {self.k}>"

class ExtraKey(Sym):
    """A key that names no field of the structure."""
    __vc_types__ = (str,)
    def __init__(self, k): self.k = k
    def __eq__(self, o): return mkbool(iterm(self.k) == iterm(o.k)) if isinstance(o, ExtraKey) else False
    def __ne__(self, o): return not_(self == o)
    def __hash__(self): raise Unsupported("hash")
    def __str__(self): return "<extra>"
    def __format__(self, s): return "<extra>"

class SymField:
    def __init__(self, st, k):
        self.offset = SymInt(it=st.off(iterm(k)))
        self.width = SymInt(it=st.wid(iterm(k)))
        self.is_signed = SymBool(st.sgn(iterm(k)))
        self.dtype = "u8"
        self.k = k
        self._t = (self.offset, self.width, self.is_signed, self.dtype)
    def __iter__(self): return iter(self._t)
    def __getitem__(self, i): return self._t[i]

class SymStruct:
    """A structure with m fields at arbitrary non-overlapping positions inside size bytes."""
    def __init__(self, name, size=None):
        e = E.cur()
        self.name = name
        self.m = SymInt.var(name + ".fields", lo=1)
        self.size = size if size is not None else SymInt.var(name + ".size", lo=1, hi=2 ** 40)
        I, B = z3.IntSort(), z3.BoolSort()
        self.off = z3.Function(E.fresh_name(name + ".off"), I, I)
        self.wid = z3.Function(E.fresh_name(name + ".wid"), I, I)
        self.sgn = z3.Function(E.fresh_name(name + ".sgn"), I, B)
        self.inst = []
    def wf(self, k):
        """Instantiate: field k lies inside the structure."""
        e = E.cur()
        t = iterm(k)
        e.assume(z3.Implies(z3.And(t >= 0, t < iterm(self.m)),
                 z3.And(self.off(t) >= 0, self.wid(t) >= 1, self.wid(t) <= 64, self.off(t) + self.wid(t) <= 8 * iterm(self.size))))
        for j in self.inst:
            u = iterm(j)
            e.assume(z3.Implies(z3.And(t >= 0, t < iterm(self.m), u >= 0, u < iterm(self.m), t != u),
                     z3.Or(self.off(t) + self.wid(t) <= self.off(u), self.off(u) + self.wid(u) <= self.off(t))))
        self.inst.append(k)
    def field(self, k):
        self.wf(k)
        return SymField(self, k)
    def key(self, k): return FieldKey(self, k)
    @property
    def FIELDS(self): return SymFieldsMap(self)
    @property
    def KEYS(self): return SymSeq(self.m, self.key, ("keys", self.name), list)

class SymFieldsMap(Sym):
    __vc_types__ = (dict,)
    def __init__(self, st): self.st = st
    def items(self): return SymSeq(self.st.m, lambda k: (self.st.key(k), self.st.field(k)), ("fields", self.st.name))
    def values(self): return SymSeq(self.st.m, self.st.field, ("fields", self.st.name))
    def keys(self): return KeySet(self.st, ("fields", self.st.name))
    def vc_seq(self): return self.keys()
    def vc_keys(self): return KeySet(self.st)
    def vc_len(self): return self.st.m
    def vc_contains(self, x): return isinstance(x, FieldKey) and x.st is self.st
    def __getitem__(self, x):
        if isinstance(x, FieldKey) and x.st is self.st: return self.st.field(x.k)
        raise KeyError(x)
    def get(self, x, d=None): return self[x] if self.vc_contains(x) else d

class KeySet(SymSeq):
    def __init__(self, st, tag=None):
        self.st = st
        super().__init__(st.m, st.key, tag or ("keys", st.name), set)
    def vc_contains(self, x): return isinstance(x, FieldKey) and x.st is self.st

class SymRecord(Sym):
    """User-supplied dict for one record.  has(k): field k is given;  extra: number of unknown keys."""
    __vc_types__ = (dict,)
    def __init__(self, st, ident, exact=True):
        self.st, self.ident, self.exact = st, ident, exact
        self.val = z3.Function("val", z3.IntSort(), z3.IntSort(), z3.IntSort())
        if not exact:
            # key number k of the dict is a field that is given, or an extra key
            self.nkeys = SymInt.var("nkeys", lo=0)
            self.isextra = z3.Function(E.fresh_name("isextra"), z3.IntSort(), z3.BoolSort())
            self.hasf = z3.Function(E.fresh_name("has"), z3.IntSort(), z3.BoolSort())
    no_extra = all_given = False
    def has(self, k): return z3.BoolVal(True) if self.exact or self.all_given else self.hasf(iterm(k))
    def value(self, k):
        """Value given for field k, in range."""
        e = E.cur()
        self.st.wf(k)
        v = self.val(iterm(self.ident), iterm(k))
        return SymInt(it=v)
    def __getitem__(self, x):
        if isinstance(x, FieldKey) and x.st is self.st:
            if not mkbool(self.has(x.k)): raise KeyError(x)
            return self.value(x.k)
        if isinstance(x, FieldKey): raise Unsupported("record indexed with another structure's field")
        raise KeyError(x)
    def vc_contains(self, x):
        if isinstance(x, FieldKey) and x.st is self.st: return mkbool(self.has(x.k))
        if isinstance(x, ExtraKey): return not self.exact
        return False
    def get(self, x, d=None):
        c = self.vc_contains(x)
        return self[x] if c else d
    def keys(self):
        if self.exact: return RecKeys(self, self.st.m, self.st.key, ("reckeys", self.st.name))
        def at2(k):
            e = E.cur()
            if not self.no_extra and mkbool(self.isextra(iterm(k))): return ExtraKey(k)
            i = SymInt.var("given", lo=0)
            e.assume(z3.And(i.it < iterm(self.st.m), self.has(i)))
            return self.st.key(i)
        return RecKeys(self, self.nkeys, at2, ("reckeys", self.st.name))
    def vc_seq(self): return self.keys()
    def vc_keys(self): return self.keys()
    def items(self):
        if not self.exact: raise Unsupported("items of an arbitrary record")
        return SymSeq(self.st.m, lambda k: (self.st.key(k), self.value(k)), ("fields", self.st.name))
    def vc_len(self): return self.st.m if self.exact else self.nkeys

class GhostBuf(Sym):
    """Record buffer of symbolic size.  tracked: region name -> [offset, width, signed, value term]."""
    def __init__(self, length, kind="bytearray"):
        self.length, self.kind = length, kind
        self.tracked = {}
        for name, (o, w, s) in getattr(E.cur(), "regions", {}).items():
            self.tracked[name] = [o, w, s, z3.IntVal(0)]        # a zeroed buffer decodes to 0
    @property
    def __vc_types__(self): return (bytearray,) if self.kind == "bytearray" else (bytes,)
    def vc_len(self): return self.length
    def __len__(self): return SymInt.of(self.length).__index__()
    def __bool__(self): return bool(SymInt.of(self.length) != 0)
    def vc_token(self): return tuple((n, r[3].get_id()) for n, r in self.tracked.items())
    def vc_install(self, g): self.tracked = {n: list(r) for n, r in g.tracked.items()}
    def vc_arbitrary(self):
        g = self.copy(self.kind)
        for r in g.tracked.values(): r[3] = z3.Int(E.fresh_name("anyv"))
        return g
    def copy(self, kind):
        g = GhostBuf.__new__(GhostBuf)
        g.length, g.kind = self.length, kind
        g.tracked = {n: list(r) for n, r in self.tracked.items()}
        return g
    def write(self, off, w, s, v):
        """Contract of write_value."""
        off, w, v = iterm(off), iterm(w), iterm(v)
        s = term(s) if not isinstance(s, bool) else z3.BoolVal(s)
        for n, r in self.tracked.items():
            ro, rw, rs, rv = r
            same = z3.And(off == ro, w == rw, s == rs)
            disj = z3.Or(off + w <= ro, ro + rw <= off)
            r[3] = z3.simplify(z3.If(same, v, z3.If(disj, rv, z3.Int(E.fresh_name("clobbered")))))
    def __setitem__(self, i, v):
        if isinstance(i, slice): raise Unsupported("slice store into a record buffer")
        if SymInt.of(i) < 0: i = SymInt.of(i) + self.length
        if not (SymInt.of(i) < self.length) : raise IndexError("bytearray index out of range")
        if not (SymInt.of(v) >= 0 and SymInt.of(v) <= 255): raise ValueError("byte must be in range(0, 256)")
        self.write(SymInt.of(i) * 8, 8, False, v)
    def __getitem__(self, i): raise Unsupported("reading a record buffer")
    def __radd__(self, o):
        r = Rope.of(o)
        return NotImplemented if r is None else Rope(r.pieces + [GPiece(self)], r.kind)
    def __add__(self, o):
        r = Rope.of(o)
        return NotImplemented if r is None else Rope([GPiece(self)] + r.pieces, self.kind)
    def vc_rope(self): return Rope([GPiece(self)], self.kind)

class GPiece:
    def __init__(self, g):
        self.g = g.copy("bytes")
        self.length = g.length
    def __repr__(self): return f"GPiece({self.g.tracked})"

_old_of = Rope.of
def _of(x):
    if isinstance(x, GhostBuf): return x.vc_rope()
    return _old_of(x)
Rope.of = staticmethod(_of)
_old_iadd = SymBytes.__iadd__
def _iadd(self, o):
    if isinstance(o, (GhostBuf, Rope)):
        r = Rope.of(self).__add__(o)
        if self.kind == "bytearray":
            r.kind = "bytearray"
            from .sym import Dead
            self.length = Dead()
        return r
    return _old_iadd(self, o)
SymBytes.__iadd__ = _iadd
_old_add = SymBytes.__add__
SymBytes.__add__ = lambda self, o: Rope.of(self) + Rope.of(o) if isinstance(o, GhostBuf) else _old_add(self, o)

def in_range(st, k, v):
    """Value v is representable in field k (one-bit fields hold 0 or 1)."""
    w, s = st.wid(iterm(k)), st.sgn(iterm(k))
    v = iterm(v)
    cases = [z3.And(w == 1, v >= 0, v <= 1)]
    for n in range(2, 65):
        cases.append(z3.And(w == n, z3.If(s, z3.And(v >= -(2 ** (n - 1)), v < 2 ** (n - 1)), z3.And(v >= 0, v < 2 ** n))))
    return z3.Or(*cases)

def le8(n):
    """The 8-byte little-endian size header as a rope."""
    return Rope.of(n.to_bytes(8, "little")) if isinstance(n, int) else Rope([LE(n, 8, "little")], "bytes")

def norm_pieces(r, e):
    """Drop pieces that are empty on this path."""
    out = []
    for p in r.pieces:
        if isinstance(p.length, SymInt) and e.implied(term(p.length == 0)): continue
        if isinstance(p, LE):
            c = SymInt.of(p.x).concrete()
            if c is not None: p = Piece(SymBytes.of(c.to_bytes(p.length, p.order)))
        out.append(p)
    return out

def piece_eq(a, b, e):
    """Do two rope pieces denote the same bytes (on this path)?"""
    if isinstance(a, Opaque) and isinstance(b, Opaque): return tag_eq(a.tag, b.tag, e)
    if isinstance(a, LE) and isinstance(b, LE):
        return e.implied(term(SymInt.of(a.length) == b.length)) and a.order == b.order and e.implied(term(SymInt.of(a.x) == b.x))
    if isinstance(a, Piece) and isinstance(b, Piece):
        if a.b.buf is b.b.buf or a.b.buf.arr is not None and b.b.buf.arr is not None and a.b.buf.arr.eq(b.b.buf.arr):
            if e.implied(z3.And(iterm(a.b.off) == iterm(b.b.off), iterm(a.length) == iterm(b.length))): return True
        x, y = a.b.ccells(), b.b.ccells()
        return x is not None and y is not None and len(x) == len(y) and (not x or e.implied(z3.And(*[p == q for p, q in zip(x, y)])))
    if isinstance(a, GPiece) and isinstance(b, GPiece): return a.g is b.g
    return False

def tag_eq(a, b, e):
    if type(a) is not tuple or type(b) is not tuple or len(a) != len(b): return a == b if not isinstance(a, Sym) and not isinstance(b, Sym) else False
    for x, y in zip(a, b):
        if isinstance(x, (SymInt, int)) and isinstance(y, (SymInt, int)):
            if not e.implied(term(SymInt.of(x) == y)): return False
        elif x != y: return False
    return True

def rope_eq(r, want, e):
    """Bytes-equality of a value with an expected rope, decided piecewise (sound, not complete)."""
    r, want = Rope.of(r), Rope.of(want)
    if r is None: return False
    a, b = norm_pieces(r, e), norm_pieces(want, e)
    a, b = Rope._merge(a), Rope._merge(b)
    return len(a) == len(b) and all(piece_eq(x, y, e) for x, y in zip(a, b))

# --- quantified conditions over symbolic sequences -------------------------------------------------------------------
def install_quantifiers(e, instances):
    """any()/all()/in over a sequence of unknown length: true with a witness, or false for every element - used at the
    elements instances(tag) names (sound for side-effect-free element functions)."""
    def exists(seq, test, cond_first=None):
        if e.choose(2) == 0:
            k = SymInt.var("wit", lo=0)
            e.assume(z3.And(k.it < iterm(seq.n)), check=True)
            if not test(seq.at(k)): raise PathEnd()
            return True
        for j in instances(seq.tag):
            if SymInt.of(j) >= 0 and SymInt.of(j) < seq.n:
                if test(seq.at(j)): raise PathEnd()
        return False
    def any_hook(x, neg):
        lc = x
        if not hasattr(lc, "seq"):
            from .vc import LazyComp, seq_of
            lc = LazyComp(seq_of(x), lambda v: v, [])
        def test(v):
            for c in lc.conds:
                if not c(v): return False
            return bool(lc.f(v)) != neg
        r = exists(lc.seq, test)
        return (not r) if neg else r
    def contains_hook(x, seq): return exists(seq, lambda v: bool(v == x))
    def filter_hook(lc): return FilterSeq(lc, exists)
    e.any_hook, e.contains_hook, e.filter_hook = any_hook, contains_hook, filter_hook
    e.exists = exists

def _first_only(x):
    if x:
        yield x._w
        raise Unsupported("more than one element of a filtered symbolic sequence")

class FilterSeq(Sym):
    """[f(x) for x in seq if cond(x)] of which only emptiness and an element are used."""
    __vc_types__ = (list,)
    def __init__(self, lc, exists): self.lc, self.exists, self._b = lc, exists, None
    def __bool__(self):
        if self._b is None:
            def test(v):
                r = all(bool(c(v)) for c in self.lc.conds)
                if r: self._w = self.lc.f(v)
                return r
            self._b = self.exists(self.lc.seq, test)
        return self._b
    def __getitem__(self, i):
        if i in (0, -1):
            if not self: raise IndexError("list index out of range")
            return self._w
        raise Unsupported("filtered sequence element")
    def vc_len(self):
        if not self: return 0
        return SymInt.var("filteredlen", lo=1)
    def pop(self, *a): return self[0]
    def __iter__(self): return _first_only(self)

class DiffSet(Sym):
    """a - b for key sets."""
    __vc_types__ = (set,)
    def __init__(self, a, b): self.a, self.b, self._b = a, b, None
    def __bool__(self):
        if self._b is None:
            e = E.cur()
            def test(v):
                r = not bool(self.b.vc_contains(v))
                if r: self._w = v
                return r
            self._b = e.exists(self.a, test)
        return self._b
    def __iter__(self): return _first_only(self)
    def pop(self):
        if not self: raise KeyError("pop from an empty set")
        return self._w
    def vc_len(self): return SymInt.var("difflen", lo=1) if self else 0
def _diff(a, b): return DiffSet(a, b)
KeySet.__sub__ = _diff
KeySet.difference = _diff
KeySet.issubset = lambda a, b: not DiffSet(a, b)
class RecKeys(SymSeq):
    def __init__(self, rec, n, at, tag): super().__init__(n, at, tag, set); self.rec = rec
    def vc_contains(self, x): return self.rec.vc_contains(x)
    __sub__ = _diff
    difference = _diff
