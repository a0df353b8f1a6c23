"""Symbolic text: z3 strings, text decoded from symbolic bytes, maps probed at one symbolic key."""
import z3
from . import engine as E
from .engine import Unsupported, PathEnd
from .sym import *
from .loops import *
from .vc import SymStrBase, SymText

def zs(x):
    if isinstance(x, ZStr): return x.t
    if isinstance(x, str): return z3.StringVal(x)
    return None

class ZStr(SymStrBase):
    def __init__(self, t): self.t = t
    @staticmethod
    def var(name): return ZStr(z3.String(E.fresh_name(name)))
    def __eq__(self, o):
        b = zs(o)
        return False if b is None else mkbool(self.t == b)
    def __ne__(self, o): return not_(self == o)
    def __hash__(self): raise Unsupported("hash of symbolic text")
    def __add__(self, o):
        b = zs(o)
        return NotImplemented if b is None else ZStr(z3.Concat(self.t, b))
    def __radd__(self, o):
        b = zs(o)
        return NotImplemented if b is None else ZStr(z3.Concat(b, self.t))
    def vc_len(self): return SymInt(it=z3.Length(self.t))
    def __len__(self): return self.vc_len().__index__()
    def __bool__(self): return bool(mkbool(self.t != z3.StringVal("")))
    def startswith(self, p, *a):
        if a: raise Unsupported("startswith with bounds")
        if isinstance(p, tuple): return mkbool(z3.Or(*[z3.PrefixOf(zs(x), self.t) for x in p]))
        return mkbool(z3.PrefixOf(zs(p), self.t))
    def endswith(self, p, *a):
        if a: raise Unsupported("endswith with bounds")
        return mkbool(z3.SuffixOf(zs(p), self.t))
    def removeprefix(self, p): return self[len(p):] if self.startswith(p) else self
    def vc_contains(self, x): return mkbool(z3.Contains(self.t, zs(x)))
    def __getitem__(self, k):
        n = z3.Length(self.t)
        if isinstance(k, slice) and k.step in (None, 1):
            def c(v, d):
                if v is None: return d
                v = iterm(v)
                v = z3.If(v < 0, z3.If(v + n < 0, 0, v + n), v)
                return z3.If(v > n, n, v)
            a, b = c(k.start, z3.IntVal(0)), c(k.stop, n)
            return ZStr(z3.SubString(self.t, a, z3.If(b > a, b - a, 0)))
        if isinstance(k, (int, SymInt)):
            i = iterm(k)
            if mkbool(z3.Or(i >= n, i < -n)): raise IndexError("string index out of range")
            return ZStr(z3.SubString(self.t, z3.If(i < 0, i + n, i), 1))
        raise Unsupported("string index")
    def __str__(self): return SymText("<text>")
    def __format__(self, s): return "<text>"
    def __repr__(self): return f"<ZStr {self.t}>"
    def lstrip(self, *a): raise Unsupported("lstrip")
    def rstrip(self, *a): raise Unsupported("rstrip")
    def strip(self, *a): raise Unsupported("strip")
    def split(self, *a): raise Unsupported("split")

class Decoded(SymStrBase):
    """Text obtained by decoding symbolic bytes as UTF-8 (equality with a given text = equality of the encodings)."""
    def __init__(self, b): self.b = b
    def __eq__(self, o):
        if isinstance(o, Decoded): raise Unsupported("comparison of two decoded texts")
        if not isinstance(o, str): return False
        enc = o.encode()
        if not bool(SymInt.of(self.b.length) == len(enc)): return False
        return mkbool(z3.And(*[self.b.cell(i) == c for i, c in enumerate(enc)])) if enc else True
    def __ne__(self, o): return not_(self == o)
    def __hash__(self): raise Unsupported("hash of symbolic text")
    def splitlines(self, *a): return [SymText("<text>")]
    def __str__(self): return SymText("<text>")
    def __format__(self, s): return "<text>"
    def __getattr__(self, n): raise Unsupported("text method " + n)
    def __bool__(self): return bool(SymInt.of(self.b.length) != 0)
    def vc_len(self): raise Unsupported("number of characters of decoded bytes")

def _decode(self, encoding="utf-8", errors="strict"):
    if str(encoding).lower().replace("-", "").replace("_", "") not in ("utf8",) or errors != "strict": raise Unsupported("decode " + encoding)
    return Decoded(self)
SymBytes.decode = _decode
_eq = SymBytes.__dict__.get("__eq__")

class GhostMap(Sym):
    """dict/set with symbolic keys, tracked at the probe key only.  pres: Bool term; val: tuple of Int terms."""
    __vc_heap__ = False
    def __init__(self, probe, kind, nval=2):
        self.probe, self.kind, self.pres, self.val, self.nval = probe, kind, z3.BoolVal(False), tuple(z3.IntVal(0) for _ in range(nval)), nval
    @property
    def __vc_types__(self): return (dict,) if self.kind == "dict" else (set,)
    def vc_token(self): return (self.pres.get_id(),) + tuple(v.get_id() for v in self.val)
    def vc_install(self, g): self.pres, self.val = g.pres, g.val
    def vc_arbitrary(self):
        g = GhostMap(self.probe, self.kind, self.nval)
        g.pres = z3.Bool(E.fresh_name("anyhas")); g.val = tuple(z3.Int(E.fresh_name("anyval")) for _ in self.val)
        return g
    def _is(self, k):
        t = zs(k)
        if t is None: raise Unsupported("key is not text")
        return t == self.probe
    def __setitem__(self, k, v):
        hit = self._is(k)
        vs = tuple(iterm(x) for x in v)
        if len(vs) != len(self.val): raise Unsupported("stored value has another shape")
        self.pres = z3.simplify(z3.Or(self.pres, hit))
        self.val = tuple(z3.simplify(z3.If(hit, a, b)) for a, b in zip(vs, self.val))
    def add(self, k): self.pres = z3.simplify(z3.Or(self.pres, self._is(k)))
    def setdefault(self, k, v):
        hit = z3.And(self._is(k), z3.Not(self.pres))
        vs = tuple(iterm(x) for x in v)
        self.val = tuple(z3.simplify(z3.If(hit, a, b)) for a, b in zip(vs, self.val))
        self.pres = z3.simplify(z3.Or(self.pres, self._is(k)))
    def vc_contains(self, k):
        if not E.cur().implied(self._is(k)): raise Unsupported("lookup at another key than the probe")
        return mkbool(self.pres)
    def __getitem__(self, k):
        if not self.vc_contains(k): raise KeyError(k)
        return tuple(SymInt(it=v) for v in self.val)
    def get(self, k, d=None):
        return self[k] if self.vc_contains(k) else d

class AbsMap(Sym):
    """Arbitrary fixed map from text: has / value functions."""
    def __init__(self, kind, has, vals=()): self.kind, self.has, self.vals = kind, has, vals
    @property
    def __vc_types__(self): return (dict,) if self.kind == "dict" else (set,)
    def vc_contains(self, k):
        t = zs(k)
        return False if t is None else mkbool(self.has(t))
    def __getitem__(self, k):
        if not self.vc_contains(k): raise KeyError(k)
        return tuple(SymInt(it=f(zs(k))) for f in self.vals)
    def get(self, k, d=None): return self[k] if self.vc_contains(k) else d
