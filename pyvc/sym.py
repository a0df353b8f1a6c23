"""Symbolic values with exact Python semantics.

SymInt   unbounded Python integer; kept as a bit-vector wide enough never to overflow (bounds lo..hi are tracked) when
         it comes from bytes / bounded values, otherwise as a mathematical (z3 Int) integer.
SymBool  bool(SymBool) forks the path.
SymBytes bytes / bytearray / memoryview over a Buf (a list of byte terms of known length, or an SMT array of symbolic length).
"""
import z3
from . import engine as E
from .engine import Unsupported, PathEnd

def width_for(lo, hi):
    w = 1
    while not (-(1 << (w - 1)) <= lo and hi <= (1 << (w - 1)) - 1):
        w += 1
    return w

def sext(t, w):
    d = w - t.size()
    return t if d == 0 else (z3.SignExt(d, t) if d > 0 else z3.Extract(w - 1, 0, t))

class Sym:
    pass

class SymBool(Sym):
    __slots__ = ("t",)
    __vc_types__ = (bool, int)
    def __init__(self, t):
        self.t = t
    def __bool__(self):
        return E.cur().branch(self.t)
    def __eq__(self, o):
        o = o.t if isinstance(o, SymBool) else o
        if isinstance(o, bool) or isinstance(o, z3.BoolRef):
            return mkbool(self.t == o)
        return SymInt.of(self) == o
    def __ne__(self, o):
        return not_(self == o)
    def __hash__(self):
        return hash(bool(self))
    def __and__(self, o):
        o = o.t if isinstance(o, SymBool) else o
        return mkbool(z3.And(self.t, o))
    __rand__ = __and__
    def __or__(self, o):
        o = o.t if isinstance(o, SymBool) else o
        return mkbool(z3.Or(self.t, o))
    __ror__ = __or__
    def __int__(self):
        return int(bool(self))
    def __index__(self):
        return int(bool(self))
    def __add__(self, o): return SymInt.of(self) + o
    def __radd__(self, o): return SymInt.of(self) + o
    def __repr__(self):
        return f"<SymBool {self.t}>"

def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)

def not_(b):
    if isinstance(b, SymBool):
        return mkbool(z3.Not(b.t))
    return not b

def term(b):
    """z3 Bool of a (possibly concrete) boolean."""
    if isinstance(b, SymBool):
        return b.t
    if isinstance(b, bool):
        return z3.BoolVal(b)
    return b

def all_(*bs):
    return z3.And(*[term(b) for b in bs]) if bs else z3.BoolVal(True)

class SymInt(Sym):
    __slots__ = ("bv", "it", "lo", "hi")
    __vc_types__ = (int,)
    def __init__(self, bv=None, it=None, lo=None, hi=None):
        self.bv, self.it, self.lo, self.hi = bv, it, lo, hi

    # construction
    @staticmethod
    def of(x):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return SymInt(bv=z3.If(x.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), lo=0, hi=1)
        if isinstance(x, (bool, int)):
            x = int(x)
            return SymInt(bv=z3.BitVecVal(x, width_for(x, x)), it=z3.IntVal(x), lo=x, hi=x)
        if hasattr(x, "__index__") and not isinstance(x, Sym):
            return SymInt.of(x.__index__())
        return None
    @staticmethod
    def var(name, lo=None, hi=None):
        """Fresh mathematical integer, optionally bounded."""
        e = E.cur()
        t = z3.Int(E.fresh_name(name))
        if lo is not None: e.assume(t >= lo)
        if hi is not None: e.assume(t <= hi)
        return SymInt(it=t, lo=lo, hi=hi)
    @staticmethod
    def bvvar(name, lo, hi):
        """Fresh integer ranging over lo..hi, as a bit-vector."""
        e = E.cur()
        w = width_for(lo, hi)
        t = z3.BitVec(E.fresh_name(name), w)
        if lo != -(1 << (w - 1)): e.assume(t >= lo)
        if hi != (1 << (w - 1)) - 1: e.assume(t <= hi)
        return SymInt(bv=t, lo=lo, hi=hi)
    @staticmethod
    def ubv(t):
        """Unsigned interpretation of a bit-vector term."""
        w = t.size()
        return SymInt.norm(z3.Concat(z3.BitVecVal(0, 1), t), 0, (1 << w) - 1)
    @staticmethod
    def norm(bv, lo, hi):
        w = width_for(lo, hi)
        bv = z3.simplify(sext(bv, w))
        return mkint(SymInt(bv=bv, lo=lo, hi=hi))
    @staticmethod
    def fromint(t, lo=None, hi=None):
        return mkint(SymInt(it=z3.simplify(t), lo=lo, hi=hi))

    def int(self):
        if self.it is None:
            self.it = z3.BV2Int(self.bv, is_signed=True)
        return self.it
    @property
    def t(self):
        return self.int() if self.bv is None else self.bv

    # arithmetic
    def _bin(self, o, op):
        o = SymInt.of(o)
        if o is None:
            return NotImplemented
        a = self
        if a.bv is not None and o.bv is not None:
            if op == "+": lo, hi = a.lo + o.lo, a.hi + o.hi
            elif op == "-": lo, hi = a.lo - o.hi, a.hi - o.lo
            else:
                c = [a.lo * o.lo, a.lo * o.hi, a.hi * o.lo, a.hi * o.hi]
                lo, hi = min(c), max(c)
            w = max(width_for(lo, hi), a.bv.size(), o.bv.size())
            if w <= 4096:
                x, y = sext(a.bv, w), sext(o.bv, w)
                r = x + y if op == "+" else x - y if op == "-" else x * y
                return SymInt.norm(r, lo, hi)
        x, y = a.int(), o.int()
        if op == "*" and not (z3.is_int_value(z3.simplify(x)) or z3.is_int_value(z3.simplify(y))):
            pass  # nonlinear: left to the solver
        r = x + y if op == "+" else x - y if op == "-" else x * y
        return SymInt.fromint(r)
    def __add__(self, o): return self._bin(o, "+")
    def __radd__(self, o): return self._bin(o, "+")
    def __sub__(self, o): return self._bin(o, "-")
    def __rsub__(self, o):
        o = SymInt.of(o)
        return NotImplemented if o is None else o._bin(self, "-")
    def __mul__(self, o):
        if isinstance(o, (bytes, bytearray, list, str, tuple)) or (isinstance(o, Sym) and not isinstance(o, (SymInt, SymBool))):
            return NotImplemented
        return self._bin(o, "*")
    __rmul__ = __mul__
    def __neg__(self): return SymInt.of(0)._bin(self, "-")
    def __pos__(self): return self
    def __abs__(self): return -self if self < 0 else self
    def __invert__(self): return SymInt.of(-1)._bin(self, "-")

    def _divmod(self, o):
        o = SymInt.of(o)
        if o is None:
            return NotImplemented
        e = E.cur()
        c = o.const()
        if c is None:
            if o == 0:
                raise ZeroDivisionError()
            if o > 0:
                x, y = self.int(), o.int()
                # define quotient and remainder (avoids div by a symbolic term)
                q, r = SymInt.var("q"), SymInt.var("r")
                e.assume(z3.And(x == q.it * y + r.it, r.it >= 0, r.it < y))
                return q, r
            raise Unsupported("division by a symbolic negative number")
        if c == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if self.bv is not None and c > 0 and c & (c - 1) == 0:
            k = c.bit_length() - 1
            return self >> k, self & (c - 1)
        if c > 0:
            x = self.int()
            lo = None if self.lo is None else self.lo // c
            hi = None if self.hi is None else self.hi // c
            return SymInt.fromint(x / c, lo, hi), SymInt.fromint(x % c, 0, c - 1)
        q, r = divmod(-self, -c)
        return q, -r
    def __divmod__(self, o): return self._divmod(o)
    def __floordiv__(self, o):
        r = self._divmod(o)
        return r if r is NotImplemented else r[0]
    def __mod__(self, o):
        r = self._divmod(o)
        return r if r is NotImplemented else r[1]
    def __rdivmod__(self, o): return SymInt.of(o)._divmod(self)
    def __rfloordiv__(self, o): return SymInt.of(o)._divmod(self)[0]
    def __rmod__(self, o):
        if isinstance(o, str): raise Unsupported("str % symbolic")
        return SymInt.of(o)._divmod(self)[1]
    def __truediv__(self, o): raise Unsupported("true division of a symbolic integer")
    __rtruediv__ = __truediv__
    def __pow__(self, o, mod=None):
        oc = SymInt.of(o)
        c = oc.const() if oc is not None else None
        if c is None or c < 0 or mod is not None: raise Unsupported("symbolic power")
        r = 1
        for _ in range(c):
            r = self * r
        return r
    def __rpow__(self, o):
        if o == 2:
            h = getattr(E.cur(), "pow2", None)
            return h(self) if h else 1 << self
        raise Unsupported("symbolic exponent")

    # bits
    def const(self):
        if self.lo is not None and self.lo == self.hi:
            return self.lo
        return E.cur().concretize(self.t if self.bv is None else self.bv) if False else self._const()
    def _const(self):
        t = self.bv if self.bv is not None else self.it
        t = z3.simplify(t)
        if z3.is_bv_value(t): return t.as_signed_long()
        if z3.is_int_value(t): return t.as_long()
        return None
    def concrete(self):
        """Value if unique under the path condition."""
        c = self.const()
        if c is None:
            c = E.cur().concretize(self.t)
            if c is not None and self.bv is not None and c >= 1 << (self.bv.size() - 1):
                c -= 1 << self.bv.size()
        return c
    def __lshift__(self, o):
        oi = SymInt.of(o)
        if oi is None: return NotImplemented
        c = oi.concrete()
        if c is None and self.const() == 1 and getattr(E.cur(), "pow2", None): return E.cur().pow2(oi)
        if c is None:
            if self.const() is not None and oi.hi is not None and oi.hi <= 256 and oi.bv is not None:
                if oi < 0: raise ValueError("negative shift count")
                v = self.const()
                w = width_for(min(0, v << oi.hi), max(0, v << oi.hi))
                w = max(w, oi.bv.size())
                return SymInt.norm(sext(self.bv, w) << sext(oi.bv, w), min(0, v << oi.hi), max(0, v << oi.hi))
            if oi.hi is not None and oi.hi <= 512 and oi.lo is not None:
                return self._case(oi, lambda k: self << k)
            raise Unsupported("shift by an unbounded symbolic amount")
        if c < 0: raise ValueError("negative shift count")
        return self._bin(1 << c, "*") if self.bv is None else SymInt.norm(
            z3.Concat(self.bv, z3.BitVecVal(0, c)) if c else self.bv, self.lo << c, self.hi << c)
    def _case(self, o, f):
        for k in range(o.lo, o.hi):
            if o == k:
                return f(k)
        return f(o.hi)
    def __rlshift__(self, o):
        oi = SymInt.of(o)
        return NotImplemented if oi is None else oi << self
    def __rshift__(self, o):
        oi = SymInt.of(o)
        if oi is None: return NotImplemented
        c = oi.concrete()
        if c is None:
            if oi.hi is not None and oi.hi <= 512 and oi.lo is not None:
                return self._case(oi, lambda k: self >> k)
            raise Unsupported("shift by an unbounded symbolic amount")
        if c < 0: raise ValueError("negative shift count")
        if self.bv is None:
            return self // (1 << c)
        lo, hi = self.lo >> c, self.hi >> c
        w = self.bv.size()
        t = z3.Extract(w - 1, c, self.bv) if c < w else z3.Extract(w - 1, w - 1, self.bv)
        return SymInt.norm(t, lo, hi)
    def __rrshift__(self, o):
        oi = SymInt.of(o)
        return NotImplemented if oi is None else oi >> self
    def _bits(self, o, op):
        o = SymInt.of(o)
        if o is None:
            return NotImplemented
        a = self
        if a.bv is None or o.bv is None:
            if a.bv is None and a.const() is not None: a = SymInt.of(a.const())
            if o.bv is None and o.const() is not None: o = SymInt.of(o.const())
        if a.bv is None or o.bv is None:
            for x, y in ((a, o), (o, a)):
                c = y.const()
                if op == "&" and c is not None and c >= 0 and (c & (c + 1)) == 0:
                    return x % (c + 1)
                if op == "&" and c == 0: return 0
                if op in "|^" and c == 0: return mkint(x)
            raise Unsupported(f"bitwise {op} on an unbounded symbolic integer")
        w = max(a.bv.size(), o.bv.size())
        x, y = sext(a.bv, w), sext(o.bv, w)
        full = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if op == "&":
            t = x & y
            nn = [v.hi for v in (a, o) if v.lo >= 0]
            lo, hi = (0, min(nn)) if nn else full
        elif op == "|":
            t = x | y
            if a.lo >= 0 and o.lo >= 0:
                lo, hi = 0, (1 << max(a.hi.bit_length(), o.hi.bit_length())) - 1
            else: lo, hi = full
        else:
            t = x ^ y
            if a.lo >= 0 and o.lo >= 0:
                lo, hi = 0, (1 << max(a.hi.bit_length(), o.hi.bit_length())) - 1
            else: lo, hi = full
        return SymInt.norm(t, lo, hi)
    def __and__(self, o): return self._bits(o, "&")
    __rand__ = __and__
    def __or__(self, o): return self._bits(o, "|")
    __ror__ = __or__
    def __xor__(self, o): return self._bits(o, "^")
    __rxor__ = __xor__

    # comparison
    def _cmp(self, o, op):
        o = SymInt.of(o)
        if o is None:
            return NotImplemented
        if self.bv is not None and o.bv is not None:
            w = max(self.bv.size(), o.bv.size())
            x, y = sext(self.bv, w), sext(o.bv, w)
        else:
            x, y = self.int(), o.int()
        t = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
             "==": lambda: x == y, "!=": lambda: x != y}[op]()
        return mkbool(t)
    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")
    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r
    def __hash__(self):
        c = self.concrete()
        if c is None: raise Unsupported("hash of a symbolic integer")
        return hash(c)
    def __bool__(self):
        return bool(self != 0)
    def __index__(self):
        c = self.concrete()
        if c is None: raise Unsupported("symbolic integer used where a concrete index is needed")
        return c
    __int__ = __index__
    def bit_length(self):
        a = abs(self)
        if not isinstance(a, SymInt): return a.bit_length()
        if a.bv is None:
            if a.hi is None:      # exact for results up to 140, at least 141 beyond
                r = SymInt.var("bit_length", lo=0)
                E.cur().assume(z3.And(*[(r.it > j) == (a.int() >= (1 << j)) for j in range(141)]))
                return r
        n = a.hi.bit_length()
        r = SymInt.of(0)
        # n = number of i with a >= 2^i
        t = z3.BitVecVal(0, 16)
        for i in range(n):
            t = t + z3.If(term(a >= (1 << i)), z3.BitVecVal(1, 16), z3.BitVecVal(0, 16))
        return SymInt.norm(t, 0, n)
    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        n = SymInt.of(length).concrete()
        if n is None: raise Unsupported("to_bytes with symbolic length")
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
        if n == 0: lo = hi = 0
        if not (self >= lo and self <= hi):
            raise OverflowError("int too big to convert")
        if self.bv is None:
            return Rope([LE(self, n, byteorder)], "bytes")
        t = sext(self.bv, max(8 * n, 1))
        cells = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, t)) for i in range(n)]
        if byteorder == "big": cells.reverse()
        return SymBytes(Buf(cells=cells), 0, n, "bytes")
    def __repr__(self):
        return f"<SymInt {z3.simplify(self.t)}>"
    def __format__(self, spec):
        return "<sym>"
    def __str__(self):
        return "<sym>"

def mkint(s):
    """Concrete int when the value is a constant."""
    c = s._const()
    return s if c is None else c

def iterm(x):
    """z3 Int term."""
    return x if isinstance(x, z3.ArithRef) else SymInt.of(x).int()

def bvterm(x, w):
    s = SymInt.of(x)
    if s.bv is None: raise Unsupported("no bit-vector form")
    return sext(s.bv, w)

# ---------------------------------------------------------------------------------------------------------------------
class Buf:
    """Storage of a buffer: concrete-length list of BV8 terms, or SMT array with symbolic length."""
    def __init__(self, cells=None, arr=None, length=None, tag=None):
        self.cells = None if cells is None else [c if isinstance(c, z3.ExprRef) else z3.BitVecVal(c, 8) for c in cells]
        self.arr = arr
        self.length = len(cells) if cells is not None else length
        self.tag = tag

def symbuf(name, length):
    """Fresh buffer with arbitrary contents and the given (symbolic) length."""
    return Buf(arr=z3.Array(E.fresh_name(name), z3.IntSort(), z3.BitVecSort(8)), length=length, tag=name)

class Dead:
    def __getattr__(self, n): raise Unsupported("use of a stale alias of a bytearray")

_KIND = {"bytes": (bytes,), "bytearray": (bytearray,), "memoryview": (memoryview,)}

class SymBytes(Sym):
    def __init__(self, buf, off, length, kind):
        self.buf, self.off, self.length, self.kind = buf, off, length, kind
    @property
    def __vc_types__(self):
        return _KIND[self.kind]
    @staticmethod
    def of(x, kind=None):
        if isinstance(x, SymBytes): return x
        if isinstance(x, (bytes, bytearray, memoryview)):
            return SymBytes(Buf(cells=list(bytes(x))), 0, len(x), kind or type(x).__name__)
        return None
    def vc_len(self):
        return self.length
    def __len__(self):
        return SymInt.of(self.length).__index__()
    def __bool__(self):
        return bool(SymInt.of(self.length) != 0)
    def cell(self, i):
        """BV8 term at index i (0 <= i < length is the caller's business)."""
        b = self.buf
        p = self.off + i if not (isinstance(self.off, int) and self.off == 0) else i
        if b.cells is not None:
            c = SymInt.of(p).concrete()
            if c is not None:
                return b.cells[c]
            r = b.cells[-1]
            for k in range(len(b.cells) - 1):
                r = z3.If(iterm(p) == k, b.cells[k], r)
            return r
        return z3.Select(b.arr, z3.simplify(iterm(p)))
    def _index(self, i):
        si = SymInt.of(i)
        if si is None: raise TypeError("byte indices must be integers")
        n = self.length
        if si < 0:
            i = i + n
            if SymInt.of(i) < 0: raise IndexError("index out of range")
        if not (SymInt.of(i) < n): raise IndexError("index out of range")
        return i
    def __getitem__(self, k):
        if isinstance(k, slice): return self._slice(k)
        i = self._index(k)
        t = z3.simplify(z3.ZeroExt(1, self.cell(i)))
        return mkint(SymInt(bv=t, lo=0, hi=255))
    def _bounds(self, k):
        if k.step is not None and not (SymInt.of(k.step).concrete() == 1):
            raise Unsupported("byte slice with a step")
        n = self.length
        def clamp(v, dflt):
            if v is None: return dflt
            s = SymInt.of(v)
            if s < 0:
                v = v + n
                if SymInt.of(v) < 0: return 0
                return v
            return n if SymInt.of(v) > n else v
        a, b = clamp(k.start, 0), clamp(k.stop, n)
        if SymInt.of(b) < a: b = a
        return a, b
    def _slice(self, k):
        a, b = self._bounds(k)
        d = SymInt.of(b) - a
        if isinstance(d, SymInt):
            c = d.concrete()
            if c is not None: d = c
        if self.kind == "memoryview":
            return SymBytes(self.buf, self.off + a, d, "memoryview")
        if self.buf.cells is not None and isinstance(d, int):
            s = SymInt.of(a).concrete()
            if s is not None:
                return SymBytes(Buf(cells=self.buf.cells[self.off + s:self.off + s + d]), 0, d, self.kind)
            return SymBytes(Buf(cells=[self.cell(a + j) for j in range(d)]), 0, d, self.kind)
        return SymBytes(Buf(arr=self.buf.arr, length=None, cells=None, tag=self.buf.tag), self.off + a, d, self.kind)
    def __setitem__(self, k, v):
        if self.kind == "bytes": raise TypeError("'bytes' object does not support item assignment")
        if isinstance(k, slice):
            a, b = self._bounds(k)
            d = SymInt.of(SymInt.of(b) - a).concrete()
            src = SymBytes.of(bytes(v) if isinstance(v, (list, tuple)) else v)
            if src is None or d is None: raise Unsupported("slice assignment")
            n = SymInt.of(src.length).concrete()
            if n is None: raise Unsupported("slice assignment of symbolic length")
            cells = [src.cell(j) for j in range(n)]
            if n != d:
                if self.kind == "memoryview": raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
                if self.buf.cells is None: raise Unsupported("resizing slice assignment")
                s = SymInt.of(a).concrete()
                if s is None: raise Unsupported("resizing slice assignment")
                self.buf.cells[s:s + d] = cells
                self.length = self.buf.length = len(self.buf.cells)
                return
            for j in range(n):
                self._store(a + j, cells[j])
            return
        i = self._index(k)
        s = SymInt.of(v)
        if s is None: raise TypeError("an integer is required")
        if not (s >= 0 and s <= 255): raise ValueError("byte must be in range(0, 256)")
        if s.bv is None: raise Unsupported("storing an unbounded integer")
        self._store(i, z3.simplify(sext(s.bv, 8)))
    def _store(self, i, t):
        b = self.buf
        p = self.off + i if not (isinstance(self.off, int) and self.off == 0) else i
        if b.cells is not None:
            c = SymInt.of(p).concrete()
            if c is not None:
                b.cells[c] = t
                return
            for k in range(len(b.cells)):
                b.cells[k] = z3.If(iterm(p) == k, t, b.cells[k])
            return
        b.arr = z3.Store(b.arr, z3.simplify(iterm(p)), t)
    def ccells(self):
        n = SymInt.of(self.length).concrete()
        if n is None: return None
        return [self.cell(j) for j in range(n)]
    def __add__(self, o):
        if isinstance(o, Rope): return Rope([Piece(self)] + o.pieces, self.kind)
        s = SymBytes.of(o)
        if s is None: return NotImplemented
        a, b = self.ccells(), s.ccells()
        if a is None or b is None:
            return Rope([Piece(self), Piece(s)], self.kind)
        kind = self.kind if self.kind != "memoryview" else s.kind
        return SymBytes(Buf(cells=a + b), 0, len(a) + len(b), kind)
    def __radd__(self, o):
        s = SymBytes.of(o)
        return NotImplemented if s is None else s + self
    def __iadd__(self, o):
        if self.kind != "bytearray": return self + o
        r = self + o
        if r is NotImplemented: return r
        if isinstance(r, SymBytes) and self.off == 0 and self.buf.cells is not None:
            self.buf.cells[:] = r.buf.cells      # in place: aliases see it
            self.length = self.buf.length = r.length
            return self
        if isinstance(r, Rope): r.kind = "bytearray"
        self.length = Dead()                        # aliases of a bytearray that became a rope must not be used
        return r
    def extend(self, o):
        if self.kind != "bytearray": raise AttributeError("extend")
        if self.__iadd__(o) is not self: raise Unsupported("extend")
    def append(self, v):
        self.extend(SymBytes(Buf(cells=[sext(SymInt.of(v).bv, 8)]), 0, 1, "bytes"))
    def __eq__(self, o):
        s = SymBytes.of(o)
        if s is None: return False
        le = SymInt.of(self.length) == s.length
        if not le: return False
        a, b = self.ccells(), s.ccells()
        if a is None and b is None:
            if self.buf is s.buf and E.cur().implied(iterm(self.off) == iterm(s.off)): return True
            raise Unsupported("comparison of buffers of symbolic length")
        n = len(a if a is not None else b)
        return mkbool(z3.And(*[self.cell(j) == s.cell(j) for j in range(n)])) if n else True
    def __ne__(self, o): return not_(self == o)
    def __hash__(self): raise Unsupported("hash of symbolic bytes")
    def __iter__(self):
        n = SymInt.of(self.length).concrete()
        if n is None: raise Unsupported("iteration over a buffer of symbolic length")
        for j in range(n):
            yield self[j]
    def tobytes(self): return self.copy("bytes")
    def copy(self, kind):
        if self.buf.cells is not None:
            c = self.ccells()
            if c is not None: return SymBytes(Buf(cells=c), 0, len(c), kind)
        b = Buf(arr=self.buf.arr, length=None, tag=self.buf.tag)
        r = SymBytes(b, self.off, self.length, kind)
        r.copy_of = self
        return r
    def release(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    @property
    def nbytes(self): return self.length
    def __repr__(self):
        return f"<Sym{self.kind} len={self.length}>"

# --- ropes: byte strings of symbolic length built by concatenation ---------------------------------------------------
class Piece:
    """A slice of a buffer (by value) inside a rope."""
    def __init__(self, b):
        self.b = b.copy("bytes") if b.kind != "bytes" else b
        self.length = b.length
    def __repr__(self): return f"Piece({self.b!r})"
class LE:
    """n-byte encoding of a mathematical integer known to fit."""
    def __init__(self, x, n, order="little"):
        self.x, self.length, self.order = x, n, order
    def __repr__(self): return f"LE({self.x!r},{self.length},{self.order})"
class Opaque:
    """An abstract chunk (ghost) with a tag and a symbolic length."""
    def __init__(self, tag, length):
        self.tag, self.length = tag, length
    def __repr__(self): return f"Opaque({self.tag},{self.length})"

class Rope(Sym):
    def __init__(self, pieces, kind):
        self.pieces, self.kind = self._merge(pieces), kind
    @property
    def __vc_types__(self): return _KIND[self.kind]
    @staticmethod
    def _merge(ps):
        out = []
        for p in ps:
            if isinstance(p.length, int) and p.length == 0: continue
            if out and isinstance(p, Piece) and isinstance(out[-1], Piece) and p.b.buf.cells is not None and out[-1].b.buf.cells is not None:
                a, b = out[-1].b.ccells(), p.b.ccells()
                out[-1] = Piece(SymBytes(Buf(cells=a + b), 0, len(a) + len(b), "bytes"))
            else: out.append(p)
        return out
    def vc_len(self):
        n = 0
        for p in self.pieces: n = p.length + n
        return n
    def __len__(self): return SymInt.of(self.vc_len()).__index__()
    def __bool__(self):
        n = self.vc_len()
        return bool(n) if isinstance(n, int) else bool(n != 0)
    @staticmethod
    def of(x):
        if isinstance(x, Rope): return x
        s = SymBytes.of(x)
        return None if s is None else Rope([Piece(s)] if not (isinstance(s.length, int) and s.length == 0) else [], s.kind)
    def __add__(self, o):
        r = Rope.of(o)
        return NotImplemented if r is None else Rope(self.pieces + r.pieces, self.kind)
    def __radd__(self, o):
        r = Rope.of(o)
        return NotImplemented if r is None else Rope(r.pieces + self.pieces, r.kind if r.kind != "memoryview" else self.kind)
    def __iadd__(self, o):
        r = self + o
        if self.kind == "bytearray" and r is not NotImplemented:
            self.pieces = r.pieces                   # in place: aliases see it
            return self
        return r
    def copy(self, kind): return Rope(list(self.pieces), kind)
    def __getitem__(self, k): raise Unsupported("indexing an abstract byte string")
    def __setitem__(self, k, v): raise Unsupported("modifying an abstract byte string")
    def __eq__(self, o): raise Unsupported("comparing abstract byte strings")
    __hash__ = None
    def __iter__(self): raise Unsupported("iterating an abstract byte string")
    def __repr__(self): return f"Rope({self.pieces})"
