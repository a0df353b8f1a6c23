"""Symbolic semantics of LLVM IR on top of pyvc's path engine: bit-vector values with poison, memory regions with bounds.

Every memory access is an obligation (inside its region), every branch / address / stored or returned value must be free of
poison, `unreachable` and the sanitizer traps clang inserts for C++ undefined behaviour must be unreachable."""
import re, subprocess, os
import z3
from pyvc import engine as E
from pyvc.engine import Unsupported, PathEnd
from . import ir

B64 = 64
def bv(v, n=64):
    return z3.BitVecVal(v, n)

class CppThrow(BaseException):
    """A C++ exception leaves the function."""
    def __init__(self, what=None):
        self.what = what

class Val:
    """Integer value: bit vector + poison condition."""
    __slots__ = ("t", "p")
    def __init__(self, t, p=False):
        self.t, self.p = t, p

class Ptr:
    __slots__ = ("r", "o", "p")
    def __init__(self, r, o, p=False):
        self.r, self.o, self.p = r, o, p
    def add(self, d):
        return Ptr(self.r, z3.simplify(self.o + (bv(d) if isinstance(d, int) else d)), self.p)
    def __repr__(self):
        return f"Ptr({self.r.name if self.r else None}+{self.o})"

class Agg:
    def __init__(self, els):
        self.els = els

class FnPtr:
    def __init__(self, name):
        self.name = name
        self.p = False

def add_ok(x, y):
    """Signed addition does not overflow."""
    n = x.size()
    s = z3.SignExt(1, x) + z3.SignExt(1, y)
    return z3.Extract(n, n, s) == z3.Extract(n - 1, n - 1, s)

def sub_ok(x, y):
    n = x.size()
    s = z3.SignExt(1, x) - z3.SignExt(1, y)
    return z3.Extract(n, n, s) == z3.Extract(n - 1, n - 1, s)

def mul_ok(x, y, signed):
    """x * y does not overflow (a range check when one factor is a constant: cheap for every back end)."""
    n = x.size()
    if z3.is_bv_value(x):
        x, y = y, x
    if z3.is_bv_value(y):
        c = y.as_signed_long() if signed else y.as_long()
        if c == 0:
            return z3.BoolVal(True)
        if not signed:
            return z3.ULE(x, bv(((1 << n) - 1) // c, n))
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        if c > 0:
            return z3.And(x >= bv(-((-lo) // c), n), x <= bv(hi // c, n))
        if c == -1:
            return x != bv(lo, n)
        return z3.And(x >= bv(-(hi // -c), n), x <= bv((-lo) // -c, n))
    return z3.And(z3.BVMulNoOverflow(x, y, signed), z3.BVMulNoUnderflow(x, y) if signed else True)

def div_lemma(e, N, n=64):
    """(q * N + r) / N == q when q is small and r < N (unsigned; signed for r == 0)."""
    q, r = z3.BitVec("q", n), z3.BitVec("r", n)
    lim = (1 << (n - 3)) // N
    y = bv(N, n)
    e.prove("unsigned division lemma", z3.Implies(z3.And(z3.ULE(q, bv(lim, n)), z3.ULT(r, y)), z3.UDiv(q * y + r, y) == q))
    e.prove("signed division lemma", z3.Implies(z3.And(q <= bv(lim, n), q >= bv(-lim, n)), (q * y) / y == q))

def por(*ps):
    r = [p for p in ps if p is not False]
    if not r:
        return False
    if any(p is True for p in r):
        return True
    return r[0] if len(r) == 1 else z3.Or(*r)

class Mem:
    """Memory contents as a function of the index over older contents (bulk fills and copies of symbolic length)."""
    def __init__(self, prev, off, n, f):
        self.prev, self.off, self.n, self.f = prev, off, n, f      # [off, off + n) -> f(index - off)
def sel(a, i):
    if not isinstance(a, Mem):
        return z3.Select(a, i)
    d = z3.simplify(i - a.off)
    c = z3.simplify(z3.ULT(d, a.n))
    if z3.is_true(c):
        return a.f(d)
    if z3.is_false(c):
        return sel(a.prev, i)
    return z3.If(c, a.f(d), sel(a.prev, i))
def put(a, i, v):
    if not isinstance(a, Mem):
        return z3.Store(a, i, v)
    return Mem(a, i, bv(1), lambda d: v)

class Region:
    def __init__(self, name, size, arr=None, const=False):
        self.name = name
        self.size = bv(size) if isinstance(size, int) else size
        self.arr = arr if arr is not None else z3.Array(E.fresh_name("mem_" + name), z3.BitVecSort(64), z3.BitVecSort(8))
        self.ptrs = {}
        self.vals = {}          # whole values stored at concrete offsets: offset -> term (a cache over arr)
        self.base = None
        self.const = const
        self.live = True
        self.tag = {}
        self.written = False
    def addr(self):
        if self.base is None:
            self.base = z3.BitVec(E.fresh_name("addr_" + self.name), 64)
            e = E.cur()
            # an object never contains the null address and does not wrap around the address space (one byte past included)
            e.assume(z3.And(self.base != 0, z3.ULT(self.base, bv(1 << 63)), z3.ULE(self.size, bv(1 << 62))))
        return self.base

class Exec:
    def __init__(self, module, eng, contracts=(), inline_depth=60, unroll=2000):
        self.m, self.e = module, eng
        self.contracts = list(contracts)        # (regex over the demangled name, handler)
        self.globals = {}
        self.max_depth = inline_depth
        self.unroll = unroll
        self.depth = 0
        self.regions = []
        self.called = set()
        self.loop_rule = None                   # callable(exec, func, header, frame, n) -> None | rule object
        self.checkub = True
        self.div_implied = False                # look for hints that hold on the path, not only by rewriting
        self.div_hints = []                     # ghost decompositions (quotient, remainder)

    # --- types ---------------------------------------------------------
    def res(self, ty):
        while ty[0] == "named":
            if ty[1] not in self.m.types:
                raise Unsupported(f"opaque type {ty[1]}")
            ty = self.m.types[ty[1]]
        return ty
    def align(self, ty):
        ty = self.res(ty)
        k = ty[0]
        if k == "int":
            n = (ty[1] + 7) // 8
            a = 1
            while a < n:
                a *= 2
            return min(a, 16)
        if k == "ptr":
            return 8
        if k == "float":
            return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[ty[1]]
        if k == "array":
            return self.align(ty[2])
        if k == "struct":
            return 1 if ty[2] else max([self.align(t) for t in ty[1]] or [1])
        raise Unsupported(f"align of {ty}")
    def size(self, ty):
        ty = self.res(ty)
        k = ty[0]
        if k == "int":
            n = (ty[1] + 7) // 8
            a = self.align(ty)
            return (n + a - 1) // a * a
        if k == "ptr":
            return 8
        if k == "float":
            return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[ty[1]]
        if k == "array":
            return ty[1] * self.size(ty[2])
        if k == "struct":
            offs, n = self.layout(ty)
            return n
        raise Unsupported(f"size of {ty}")
    def layout(self, ty):
        ty = self.res(ty)
        offs, o = [], 0
        for t in ty[1]:
            if not ty[2]:
                a = self.align(t)
                o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(t)
        a = self.align(ty)
        return offs, (o + a - 1) // a * a

    # --- memory --------------------------------------------------------
    def region(self, name, size, **kw):
        r = Region(name, size, **kw)
        self.regions.append(r)
        return r
    def bounds(self, ptr, n, what, write=False):
        if not isinstance(ptr, Ptr):
            raise Unsupported(f"{what}: not a data pointer")
        if ptr.p is not False:
            self.e.prove("address is not poison", z3.Not(ptr.p) if ptr.p is not True else False, what)
        if ptr.r is None:
            self.e.prove("memory access through a valid pointer", False, what)
            raise PathEnd()
        n = bv(n) if isinstance(n, int) else n
        s = ptr.r.size
        self.e.prove(f"{'write' if write else 'read'} stays inside {ptr.r.name}",
                     z3.And(z3.ULE(n, s), z3.ULE(ptr.o, s - n)) if ptr.r.live else False, what)
        if write and ptr.r.const:
            self.e.prove(f"{ptr.r.name} is not written", False, what)
    def load(self, ty, ptr, what="load"):
        ty = self.res(ty)
        if ty[0] in ("struct", "array"):
            if ty[0] == "struct":
                offs, _ = self.layout(ty)
                return Agg([self.load(t, ptr.add(o), what) for t, o in zip(ty[1], offs)])
            n = self.size(ty[2])
            return Agg([self.load(ty[2], ptr.add(i * n), what) for i in range(ty[1])])
        n = self.size(ty) if ty[0] != "int" else (ty[1] + 7) // 8      # store size: i24 takes three bytes
        self.bounds(ptr, n, what)
        if ty[0] == "ptr":
            return self.load_ptr(ptr, what)
        if ty[0] != "int":
            raise Unsupported(f"load of {ty}")
        if ptr.r.ptrs:
            c = self.conc(ptr.o)
            if c is not None and c in ptr.r.ptrs and ty[1] == 64:
                return self.ptrtoint(ptr.r.ptrs[c])
            if c is None or any(c - 8 < k < c + n for k in ptr.r.ptrs):
                raise Unsupported(f"{what}: integer load over a stored pointer")
        nb = (ty[1] + 7) // 8
        if ptr.r.vals:
            c = self.conc(ptr.o)
            v = ptr.r.vals.get(c) if c is not None else None
            if v is not None and v.size() == ty[1]:
                return Val(v)
        bs = [sel(ptr.r.arr, ptr.o + i) for i in range(nb)]
        t = bs[0] if nb == 1 else z3.Concat(*reversed(bs))
        t = z3.simplify(t)
        if nb * 8 != ty[1]:
            # i1 / odd widths: the stored value is 0-extended
            t = z3.Extract(ty[1] - 1, 0, t)
        return Val(t)
    def conc(self, t):
        t = z3.simplify(t)
        if z3.is_bv_value(t):
            return t.as_long()
        return None
    def load_ptr(self, ptr, what):
        c = self.conc(ptr.o)
        if c is None:
            c = self.e.concretize(ptr.o)
        if c is None:
            raise Unsupported(f"{what}: pointer load at a symbolic offset")
        if c in ptr.r.ptrs:
            return ptr.r.ptrs[c]
        if "lazyptr" in ptr.r.tag:
            v = ptr.r.tag["lazyptr"](c)
            if v is not None:
                ptr.r.ptrs[c] = v
                return v
        t = z3.simplify(z3.Concat(*[sel(ptr.r.arr, ptr.o + i) for i in range(7, -1, -1)]))
        return self.inttoptr(t, what)
    def inttoptr(self, t, what="inttoptr"):
        c = self.conc(t)
        if c == 0:
            return Ptr(None, bv(0))
        for r in self.regions:
            if r.base is not None:
                d = z3.simplify(t - r.base)
                if self.conc(d) is not None or not _mentions(d, r.base):
                    return Ptr(r, d)
        return Ptr(None, t)
    def ptrtoint(self, v):
        if isinstance(v, FnPtr):
            return Val(z3.BitVec("fnaddr_" + v.name, 64))
        if v.r is None:
            return Val(v.o, v.p)
        return Val(z3.simplify(v.r.addr() + v.o), v.p)
    def store(self, ty, v, ptr, what="store"):
        ty = self.res(ty)
        if isinstance(v, Agg):
            if ty[0] == "struct":
                offs, _ = self.layout(ty)
                for t, o, x in zip(ty[1], offs, v.els):
                    self.store(t, x, ptr.add(o), what)
            else:
                n = self.size(ty[2])
                for i, x in enumerate(v.els):
                    self.store(ty[2], x, ptr.add(i * n), what)
            return
        n = self.size(ty) if ty[0] != "int" else (ty[1] + 7) // 8      # store size: i24 takes three bytes
        self.bounds(ptr, n, what, write=True)
        r = ptr.r
        r.written = True
        if v is None:           # undef
            v = Val(z3.BitVec(E.fresh_name("undef"), n * 8)) if ty[0] != "ptr" else Ptr(None, z3.BitVec(E.fresh_name("undef"), 64))
        if v.p is not False:
            self.e.prove("stored value is not poison", z3.Not(v.p) if v.p is not True else False, what)
        if r.ptrs or ty[0] == "ptr":
            c = self.conc(ptr.o)
            if c is None:
                c = self.e.concretize(ptr.o)
            if c is None:
                raise Unsupported(f"{what}: store at a symbolic offset into memory holding pointers")
            for k in [k for k in r.ptrs if c - 8 < k < c + n]:
                del r.ptrs[k]
            if ty[0] == "ptr":
                self.forget(r, c, 8)
                r.ptrs[c] = v
                return
        t = v.t
        nb = (t.size() + 7) // 8
        c = self.conc(ptr.o)
        self.forget(r, c, n)
        if c is not None and nb * 8 == t.size():
            r.vals[c] = t
        if nb * 8 != t.size():
            t = z3.ZeroExt(nb * 8 - t.size(), t)
        for i in range(nb):
            r.arr = put(r.arr, z3.simplify(ptr.o + i), z3.simplify(z3.Extract(8 * i + 7, 8 * i, t)))
    def forget(self, r, c, n):
        if not r.vals:
            return
        if c is None:
            r.vals.clear()
            return
        for k in [k for k, v in r.vals.items() if k < c + n and c < k + v.size() // 8]:
            del r.vals[k]
    def memcpy(self, dst, src, n, what="memcpy"):
        c = self.conc(n.t)
        if c is None:
            c = self.e.concretize(n.t)
        if c == 0:
            return
        ln = n.t if c is None else bv(c)
        self.bounds(src, ln, what + " source")
        self.bounds(dst, ln, what + " destination", write=True)
        dst.r.written = True
        if c is None:
            self.memcpy_sym(dst, src, n.t, what)
            return
        so, do = self.conc(src.o), self.conc(dst.o)
        sp = {}
        if src.r.ptrs:
            if so is None:
                raise Unsupported("memcpy from pointer memory at a symbolic offset")
            sp = {k - so: v for k, v in src.r.ptrs.items() if so <= k and k + 8 <= so + c}
        if dst.r.ptrs:
            if do is None:
                raise Unsupported("memcpy into pointer memory at a symbolic offset")
            for k in [k for k in dst.r.ptrs if do - 8 < k < do + c]:
                del dst.r.ptrs[k]
        if c > 64 and not sp:
            self.forget(dst.r, do, c)
            a, s = dst.r.arr, src.r.arr
            dst.r.arr = Mem(a, dst.o, bv(c), lambda d: sel(s, src.o + d))
            return
        bs = [z3.simplify(sel(src.r.arr, src.o + i)) for i in range(c)]
        sv = {k - so: v for k, v in src.r.vals.items() if so <= k and k + v.size() // 8 <= so + c} if so is not None else {}
        if do is not None:
            self.forget(dst.r, do, c)
            for k, v in sv.items():
                dst.r.vals[do + k] = v
        else:
            dst.r.vals.clear()
        for i in range(c):
            dst.r.arr = put(dst.r.arr, z3.simplify(dst.o + i), bs[i])
        if sp:
            for k, v in sp.items():
                dst.r.ptrs[do + k] = v
    def memcpy_sym(self, dst, src, n, what):
        if src.r.ptrs or dst.r.ptrs:
            raise Unsupported("memcpy of symbolic length over pointers")
        dst.r.vals.clear()
        a, s = dst.r.arr, src.r.arr
        dst.r.arr = Mem(a, dst.o, n, lambda d: sel(s, src.o + d))
    def memset(self, dst, val, n, what="memset"):
        c = self.conc(n.t)
        if c is None:
            c = self.e.concretize(n.t)
        if c == 0:
            return
        ln = n.t if c is None else bv(c)
        self.bounds(dst, ln, what, write=True)
        dst.r.written = True
        if dst.r.ptrs:
            do = self.conc(dst.o)
            if do is None or c is None:
                raise Unsupported("memset over pointers")
            for k in [k for k in dst.r.ptrs if do - 8 < k < do + c]:
                del dst.r.ptrs[k]
        self.forget(dst.r, self.conc(dst.o) if c is not None else None, c)
        if c is not None and c <= 64:
            for i in range(c):
                dst.r.arr = put(dst.r.arr, z3.simplify(dst.o + i), val.t)
            return
        a = dst.r.arr
        dst.r.arr = Mem(a, dst.o, ln, lambda d: val.t)

    # --- operands ------------------------------------------------------
    def glob(self, name):
        if name in self.m.aliases:
            return self.glob(self.m.aliases[name])
        if name in self.globals:
            return Ptr(self.globals[name], bv(0))
        if name in self.m.funcs or name in self.m.decls:
            return FnPtr(name)
        if name not in self.m.globals:
            raise Unsupported(f"global {name}")
        rest, const, ext = self.m.globals[name]
        p = ir.P(ir.tokenize(rest))
        ty = ir.parse_type(p)
        try:
            n = self.size(ty)
        except Unsupported:
            n = 1 << 20
        r = self.region(name, n, const=const)
        self.globals[name] = r
        if const and not p.done() and p.peek() not in (",",):
            op = ir.parse_operand(p, ty)
            v = self.const(ty, op)
            r.const = False
            self._init(r, ty, v)
            r.const = True
        elif not const:
            r.tag["mutable_global"] = True
        return Ptr(r, bv(0))
    def _init(self, r, ty, v, off=0):
        ty = self.res(ty)
        if isinstance(v, Agg):
            if ty[0] == "struct":
                offs, _ = self.layout(ty)
                for t, o, x in zip(ty[1], offs, v.els):
                    self._init(r, t, x, off + o)
            else:
                n = self.size(ty[2])
                if n == 1 and len(v.els) > 0 and all(isinstance(x, Val) for x in v.els):
                    a = r.arr
                    for i, x in enumerate(v.els):
                        a = z3.Store(a, bv(off + i), x.t)
                    r.arr = a
                    return
                for i, x in enumerate(v.els):
                    self._init(r, ty[2], x, off + i * n)
            return
        if isinstance(v, (Ptr, FnPtr)):
            r.ptrs[off] = v
            return
        if v is None:
            return
        t = v.t
        nb = (t.size() + 7) // 8
        if nb * 8 != t.size():
            t = z3.ZeroExt(nb * 8 - t.size(), t)
        for i in range(nb):
            r.arr = put(r.arr, bv(off + i), z3.simplify(z3.Extract(8 * i + 7, 8 * i, t)))
    def zero(self, ty):
        ty = self.res(ty)
        if ty[0] == "int":
            return Val(bv(0, ty[1]))
        if ty[0] == "ptr":
            return Ptr(None, bv(0))
        if ty[0] == "array":
            return Agg([self.zero(ty[2]) for _ in range(ty[1])])
        if ty[0] == "struct":
            return Agg([self.zero(t) for t in ty[1]])
        raise Unsupported(f"zero of {ty}")
    def undef(self, ty, poison=False):
        ty = self.res(ty)
        if ty[0] == "int":
            return Val(z3.BitVec(E.fresh_name("undef"), ty[1]), True if poison else False)
        if ty[0] == "ptr":
            return Ptr(None, z3.BitVec(E.fresh_name("undef"), 64), True if poison else False)
        if ty[0] == "array":
            return Agg([self.undef(ty[2], poison) for _ in range(ty[1])])
        if ty[0] == "struct":
            return Agg([self.undef(t, poison) for t in ty[1]])
        raise Unsupported(f"undef of {ty}")
    def const(self, ty, op):
        k = op[0]
        rt = self.res(ty)
        if k == "int":
            if rt[0] != "int":
                raise Unsupported(f"integer constant of type {rt}")
            return Val(bv(op[1], rt[1]))
        if k == "null":
            return Ptr(None, bv(0))
        if k == "zero":
            return self.zero(ty)
        if k == "undef":
            return self.undef(ty)
        if k == "poison":
            return self.undef(ty, True)
        if k == "global":
            return self.glob(op[1])
        if k == "agg":
            return Agg([self.const(t, o) for t, o in op[1]])
        if k == "bytes":
            return Agg([Val(bv(b, 8)) for b in op[1]])
        if k == "cgep":
            args = [(t, self.const(t, o)) for t, o in op[2]]
            return self.gep(op[1], args, op[3], "constant gep")
        if k == "ccast":
            return self.cast(op[1], op[2], self.const(op[2], op[3]), op[4], set())
        if k == "cbin":
            return self.binop(op[1], self.const(op[2], op[3]), self.const(op[2], op[4]), set())
        raise Unsupported(f"constant {op}")
    def val(self, fr, ty, op):
        if op[0] == "local":
            if op[1] not in fr:
                raise Unsupported(f"undefined local {op[1]}")
            return fr[op[1]]
        return self.const(ty, op)

    # --- instructions --------------------------------------------------
    def gep(self, bt, args, flags, what):
        base = args[0][1]
        if not isinstance(base, Ptr):
            raise Unsupported(f"{what}: getelementptr on a function")
        off = bv(0)
        p = base.p
        ty = bt
        for j, (it, iv) in enumerate(args[1:]):
            t = iv.t
            p = por(p, iv.p)
            if t.size() < 64:
                t = z3.SignExt(64 - t.size(), t)
            if j == 0:
                off = off + t * bv(self.size(ty))
            else:
                ty = self.res(ty)
                if ty[0] == "struct":
                    k = z3.simplify(t).as_long()
                    offs, _ = self.layout(ty)
                    off = off + bv(offs[k]); ty = ty[1][k]
                else:
                    off = off + t * bv(self.size(ty[2])); ty = ty[2]
        o = z3.simplify(base.o + off)
        if "inbounds" in flags and base.r is not None:
            # poison unless the result stays within the object (one past the end allowed)
            ok = z3.And(z3.ULE(o, base.r.size), z3.ULE(base.o, base.r.size))
            s = z3.simplify(ok)
            if not z3.is_true(s) and not self.e.implied(s):
                p = por(p, z3.Not(ok))
        return Ptr(base.r, o, p)
    def binop(self, op, a, b, flags):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported("arithmetic on a pointer")
        x, y, p = a.t, b.t, por(a.p, b.p)
        n = x.size()
        if op == "add":
            if "nsw" in flags:
                p = self.pois(p, z3.Not(add_ok(x, y)))
            if "nuw" in flags:
                p = self.pois(p, z3.ULT(x + y, x))
            r = x + y
        elif op == "sub":
            if "nsw" in flags:
                p = self.pois(p, z3.Not(sub_ok(x, y)))
            if "nuw" in flags:
                p = self.pois(p, z3.ULT(x, y))
            r = x - y
        elif op == "mul":
            if "nsw" in flags:
                p = self.pois(p, z3.Not(mul_ok(x, y, True)))
            if "nuw" in flags:
                p = self.pois(p, z3.Not(mul_ok(x, y, False)))
            r = x * y
        elif op in ("udiv", "sdiv", "urem", "srem"):
            self.e.prove("division by zero is impossible", y != 0, op)
            q = self.div_hint(op, x, y)
            if q is not None:
                return Val(q, p)
            if op == "udiv":
                r = z3.UDiv(x, y)
                if "exact" in flags:
                    p = self.pois(p, z3.URem(x, y) != 0)
            elif op == "sdiv":
                self.e.prove("signed division does not overflow", z3.Not(z3.And(x == bv(1 << (n - 1), n), y == bv(-1, n))), op)
                r = x / y
                if "exact" in flags:
                    p = self.pois(p, z3.SRem(x, y) != 0)
            elif op == "urem":
                r = z3.URem(x, y)
            else:
                r = z3.SRem(x, y)
        elif op in ("shl", "lshr", "ashr"):
            p = self.pois(p, z3.UGE(y, bv(n, n)))
            if op == "shl":
                r = x << y
                if "nuw" in flags:
                    p = self.pois(p, z3.LShR(r, y) != x)
                if "nsw" in flags:
                    p = self.pois(p, (r >> y) != x)
            elif op == "lshr":
                r = z3.LShR(x, y)
                if "exact" in flags:
                    p = self.pois(p, (r << y) != x)
            else:
                r = x >> y
                if "exact" in flags:
                    p = self.pois(p, (r << y) != x)
        elif op == "and":
            r = x & y
        elif op == "or":
            r = x | y
            if "disjoint" in flags:
                p = self.pois(p, (x & y) != 0)
        elif op == "xor":
            r = x ^ y
        else:
            raise Unsupported(op)
        return Val(z3.simplify(r), p)
    def div_hint(self, op, x, y):
        """x / y for a constant y when a ghost decomposition x == q * y + r is known: the quotient is q (lemma div_lemma)."""
        if not z3.is_bv_value(y) or not self.div_hints:
            return None
        n = x.size()
        for q, r in self.div_hints:
            if q.size() != n:
                continue
            d = z3.simplify(x - (q * y + r), som=True)
            if not (z3.is_bv_value(d) and d.as_long() == 0) and not (self.div_implied and E.abstract_unsat(list(self.e.pc) + [d != 0], 2000)):
                continue
            lim = (1 << (n - 3)) // y.as_long()
            rng = z3.ULE(q, bv(lim, n)) if op[0] == "u" else z3.And(q <= bv(lim, n), q >= bv(-lim, n), z3.Or(r == 0, q >= 0))
            if self.e.prove("ghost quotient is in range", z3.And(rng, z3.ULT(r, y))):
                return q if op.endswith("div") else r
        return None
    def pois(self, p, cond):
        c = z3.simplify(cond)
        if z3.is_false(c):
            return p
        if z3.is_true(c):
            return True
        return por(p, c)
    def cast(self, op, st, v, dt, flags):
        dt = self.res(dt)
        if op == "ptrtoint":
            r = self.ptrtoint(v)
            if dt[1] < 64:
                r = Val(z3.Extract(dt[1] - 1, 0, r.t), r.p)
            return r
        if op == "inttoptr":
            t = v.t
            if t.size() < 64:
                t = z3.ZeroExt(64 - t.size(), t)
            q = self.inttoptr(t)
            q.p = v.p
            return q
        if op == "bitcast":
            return v
        if not isinstance(v, Val):
            raise Unsupported(f"{op} of {v}")
        n, m = v.t.size(), dt[1]
        if op == "trunc":
            lost, bad = z3.Extract(n - 1, m, v.t), z3.BoolVal(False)
            if "nuw" in flags: bad = z3.Or(bad, lost != 0)
            if "nsw" in flags: bad = z3.Or(bad, z3.SignExt(n - m, z3.Extract(m - 1, 0, v.t)) != v.t)
            return Val(z3.simplify(z3.Extract(m - 1, 0, v.t)), self.pois(v.p, bad) if flags & {"nuw", "nsw"} else v.p)
        if op == "zext":
            return Val(z3.simplify(z3.ZeroExt(m - n, v.t)), self.pois(v.p, z3.Extract(n - 1, n - 1, v.t) == 1) if "nneg" in flags else v.p)
        if op == "sext":
            return Val(z3.simplify(z3.SignExt(m - n, v.t)), v.p)
        raise Unsupported(op)
    def icmp(self, pred, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            def isnull(q): return isinstance(q, Ptr) and q.r is None and self.conc(q.o) == 0
            if isnull(a) or isnull(b):
                return Val(bv(1 if pred == "ne" else 0, 1))
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return Val(bv(1 if same == (pred == "eq") else 0, 1))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            p = por(a.p, b.p)
            if a.r is b.r and a.r is not None:
                x, y = a.o, b.o
                if pred not in ("eq", "ne"):
                    # within the object (one past the end included) addresses compare like offsets
                    if pred[0] != "u" or not self.e.implied(z3.And(z3.ULE(x, a.r.size), z3.ULE(y, a.r.size))):
                        x, y = a.r.addr() + a.o, a.r.addr() + b.o
            else:
                if pred in ("eq", "ne") and a.r is not b.r and (a.r is None or b.r is None):
                    q, other = (a, b) if a.r is not None else (b, a)
                    if self.conc(other.o) == 0 and self.e.implied(z3.ULE(q.o, q.r.size)):
                        return Val(bv(1 if pred == "ne" else 0, 1), p)
                if pred in ("eq", "ne") and a.r is not None and b.r is not None and a.r.live and b.r.live and not (a.r.const and b.r.const) \
                        and self.e.implied(z3.And(z3.ULT(a.o, a.r.size), z3.ULT(b.o, b.r.size))):
                    return Val(bv(1 if pred == "ne" else 0, 1), p)      # bytes of two objects that exist at the same time
                x, y = self.ptrtoint(a).t, self.ptrtoint(b).t
        else:
            if isinstance(a, Ptr):
                a = self.ptrtoint(a)
            if isinstance(b, Ptr):
                b = self.ptrtoint(b)
            p = por(a.p, b.p)
            x, y = a.t, b.t
        c = {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y),
             "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y), "slt": lambda: x < y, "sle": lambda: x <= y,
             "sgt": lambda: x > y, "sge": lambda: x >= y}[pred]()
        return Val(z3.simplify(z3.If(c, bv(1, 1), bv(0, 1))), p)
    def truth(self, v, what):
        """Branch on an i1."""
        if v.p is not False:
            self.e.prove("branch condition is not poison", z3.Not(v.p) if v.p is not True else False, what)
        return self.e.branch(v.t == bv(1, 1))
    def ite(self, c, a, b, what):
        if isinstance(a, Val) and isinstance(b, Val):
            cc = c.t == bv(1, 1)
            pa = False if (a.p is False and b.p is False) else z3.If(cc, _pb(a.p), _pb(b.p))
            return Val(z3.simplify(z3.If(cc, a.t, b.t)), por(c.p, pa))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
            cc = c.t == bv(1, 1)
            pa = False if (a.p is False and b.p is False) else z3.If(cc, _pb(a.p), _pb(b.p))
            return Ptr(a.r, z3.simplify(z3.If(cc, a.o, b.o)), por(c.p, pa))
        return a if self.truth(c, what) else b

    # --- calls ---------------------------------------------------------
    def demangle(self, name):
        d = self.m.__dict__.setdefault("demangled", None)
        if d is None:
            names = [n for n in list(self.m.funcs) + list(self.m.decls)]
            txt = "\n".join(n[1:].strip('"') for n in names)
            out = subprocess.run(["llvm-cxxfilt"], input=txt, capture_output=True, text=True).stdout.split("\n")
            d = self.m.demangled = dict(zip(names, out))
        return d.get(name, name[1:])
    def find(self, pattern):
        """The unique defined function whose demangled name matches."""
        self.demangle("@")
        hits = [n for n in self.m.funcs if re.search(pattern, self.m.demangled.get(n, n))]
        if len(hits) != 1:
            raise Unsupported(f"{len(hits)} functions match {pattern}: {[self.m.demangled.get(h) for h in hits][:4]}")
        return hits[0]
    def call(self, name, args, what=""):
        name = self.m.aliases.get(name, name)
        self.called.add(name)
        if name.startswith("@llvm."):
            return self.intrinsic(name, args, what)
        dn = self.demangle(name)
        for rx, h in self.contracts:
            if re.search(rx, dn):
                return h(self, args, dn)
        if name in LIB:
            return LIB[name](self, args, what)
        if name in self.m.funcs:
            return self.run(name, args)
        raise Unsupported(f"call of {dn} (no body, no contract)")
    def intrinsic(self, name, args, what):
        n = name[6:]
        if n.startswith(("lifetime", "dbg", "experimental.noalias", "invariant", "prefetch", "donothing")):
            return None
        if n.startswith("assume"):
            self.e.prove("llvm.assume holds", args[0].t == bv(1, 1), what)
            return None
        if n.startswith(("memcpy", "memmove")):
            if len(args) > 3 and False:
                pass
            self.memcpy(args[0], args[1], args[2], n.split(".")[0])
            return None
        if n.startswith("memset"):
            self.memset(args[0], args[1], args[2])
            return None
        if n.startswith("ubsantrap") or n == "trap":
            self.e.prove("no undefined behaviour (sanitizer trap %s)" % (self.conc(args[0].t) if args else ""), False, what)
            raise PathEnd()
        if n.startswith(("umin", "umax", "smin", "smax")):
            a, b = args[0], args[1]
            c = {"umin": z3.ULE(a.t, b.t), "umax": z3.UGE(a.t, b.t), "smin": a.t <= b.t, "smax": a.t >= b.t}[n[:4]]
            return Val(z3.simplify(z3.If(c, a.t, b.t)), por(a.p, b.p))
        if n.startswith(("fshl", "fshr")):
            a, b, s = args[0], args[1], args[2]
            w = a.t.size()
            sh = z3.ZeroExt(w, z3.URem(s.t, bv(w, w)))
            cat = z3.Concat(a.t, b.t)
            r = z3.Extract(2 * w - 1, w, cat << sh) if n.startswith("fshl") else z3.Extract(w - 1, 0, z3.LShR(cat, sh))
            return Val(z3.simplify(r), por(a.p, b.p, s.p))
        if n.startswith("bswap"):
            t = args[0].t
            return Val(z3.simplify(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, t) for i in range(t.size() // 8)])), args[0].p)
        if n.startswith("abs"):
            a = args[0]
            return Val(z3.simplify(z3.If(a.t < 0, -a.t, a.t)), a.p)
        m = re.match(r"([us])(add|sub|mul)\.with\.overflow", n)
        if m:
            a, b = args
            sg = m.group(1) == "s"
            x, y = a.t, b.t
            r, ok = {"add": (x + y, add_ok(x, y) if sg else z3.UGE(x + y, x)),
                     "sub": (x - y, sub_ok(x, y) if sg else z3.UGE(x, y)),
                     "mul": (x * y, mul_ok(x, y, sg))}[m.group(2)]
            p = por(a.p, b.p)
            return Agg([Val(z3.simplify(r), p), Val(z3.simplify(z3.If(ok, bv(0, 1), bv(1, 1))), p)])
        m = re.match(r"(uadd|usub)\.sat", n)
        if m:
            a, b = args
            if m.group(1) == "usub":
                return Val(z3.simplify(z3.If(z3.ULT(a.t, b.t), bv(0, a.t.size()), a.t - b.t)), por(a.p, b.p))
            return Val(z3.simplify(z3.If(z3.BVAddNoOverflow(a.t, b.t, False), a.t + b.t, bv(-1, a.t.size()))), por(a.p, b.p))
        if n.startswith("expect"):
            return args[0]
        if n.startswith("is.constant"):
            return Val(bv(0, 1))
        if n.startswith("objectsize"):
            return Val(bv(-1, 64))
        raise Unsupported(f"intrinsic {name}")

    # --- execution -----------------------------------------------------
    def run(self, name, args):
        f = self.m.funcs[name]
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth -= 1
            raise Unsupported("inline depth")
        try:
            return self._run(f, args)
        finally:
            self.depth -= 1
    def _run(self, f, args):
        try:
            blocks = f.blocks
        except ir.IRError as x:
            raise Unsupported(f"IR of {f.name}: {x}")
        fr = {}
        for (nm, ty, attrs), v in zip(f.params, args):
            if "byval" in attrs:
                r = self.region("byval", self.size(attrs["byval"]))
                self.memcpy(Ptr(r, bv(0)), v, Val(bv(self.size(attrs["byval"]))))
                v = Ptr(r, bv(0))
            fr[nm] = v
        cur, prev = f.entry, None
        visits = {}
        locals_ = []
        fr["#func"] = f
        while True:
            if cur in f.loops:
                visits[cur] = visits.get(cur, 0) + 1
                rule = self.loop_rule(self, f, cur, fr, visits[cur]) if self.loop_rule else None
                if visits[cur] > self.unroll:
                    raise Unsupported(f"loop in {self.demangle(f.name)} exceeds the unroll limit and has no invariant")
            else:
                rule = None
            insts = blocks[cur]
            # phis in parallel
            k = 0
            phis = []
            while k < len(insts) and insts[k].op == "phi":
                i = insts[k]
                ty, inc = i.a
                for v, b in inc:
                    if b == prev:
                        phis.append((i.dst, ty, self.val(fr, ty, v)))
                        break
                else:
                    raise Unsupported("phi without incoming value")
                k += 1
            for d, ty, v in phis:
                fr[d] = v
            if rule is not None:
                rule.at_header(self, f, cur, fr, [(d, ty) for d, ty, _ in phis], visits[cur])
            nxt = None
            for i in insts[k:]:
                r = self.step(fr, i, locals_)
                if r is not None:
                    if r[0] == "goto":
                        nxt = r[1]
                    else:
                        for reg in locals_:
                            reg.live = False
                        return r[1]
            prev, cur = cur, nxt
    def step(self, fr, i, locals_):
        op, a = i.op, i.a
        if op in ir.BIN:
            ty, x, y, fl = a
            fr[i.dst] = self.binop(op, self.val(fr, ty, x), self.val(fr, ty, y), fl)
        elif op == "load":
            fr[i.dst] = self.load(a[0], self.val(fr, ("ptr",), a[1]), i.text[:120])
        elif op == "store":
            self.store(a[0], self.val(fr, a[0], a[1]), self.val(fr, ("ptr",), a[2]), i.text[:120])
        elif op == "getelementptr":
            fr[i.dst] = self.gep(a[0], [(t, self.val(fr, t, o)) for t, o in a[1]], a[2], i.text[:120])
        elif op == "icmp":
            x, y = self.val(fr, a[1], a[2]), self.val(fr, a[1], a[3])
            v = self.icmp(a[0], x, y)
            if a[4]:
                if not (isinstance(x, Val) and isinstance(y, Val)): raise Unsupported("icmp samesign of pointers")
                n = x.t.size() - 1
                v = Val(v.t, self.pois(v.p, z3.Extract(n, n, x.t) != z3.Extract(n, n, y.t)))
            fr[i.dst] = v
        elif op in ir.CAST:
            fr[i.dst] = self.cast(op, a[0], self.val(fr, a[0], a[1]), a[2], a[3])
        elif op == "select":
            fr[i.dst] = self.ite(self.val(fr, a[0], a[1]), self.val(fr, a[2], a[3]), self.val(fr, a[2], a[4]), i.text[:120])
        elif op == "freeze":
            v = self.val(fr, a[0], a[1])
            fr[i.dst] = Val(v.t if v.p is False else z3.If(_pb(v.p), z3.BitVec(E.fresh_name("frz"), v.t.size()), v.t)) if isinstance(v, Val) else v
        elif op == "alloca":
            n = self.size(a[0])
            if a[1] is not None:
                c = self.val(fr, *a[1])
                n = bv(n) * (c.t if c.t.size() == 64 else z3.ZeroExt(64 - c.t.size(), c.t))
            r = self.region("local " + i.dst, n)
            r.tag["alloca"] = True
            r.tag["type"] = a[0]
            locals_.append(r)
            fr[i.dst] = Ptr(r, bv(0))
        elif op == "jmp":
            return ("goto", a[0])
        elif op == "br":
            return ("goto", a[1] if self.truth(self.val(fr, ("int", 1), a[0]), i.text[:120]) else a[2])
        elif op == "switch":
            v = self.val(fr, a[0], a[1])
            if v.p is not False:
                self.e.prove("switch condition is not poison", z3.Not(_pb(v.p)), i.text[:80])
            for c, b in a[3]:
                if self.e.branch(v.t == bv(c, v.t.size())):
                    return ("goto", b)
            return ("goto", a[2])
        elif op == "ret":
            if a[1] is None:
                return ("ret", None)
            v = self.val(fr, a[0], a[1])
            return ("ret", v)
        elif op == "unreachable":
            self.e.prove("unreachable code is not reached", False, fr["#func"].name)
            raise PathEnd()
        elif op == "extractvalue":
            v = self.val(fr, a[0], a[1])
            for k in a[2]:
                v = v.els[k]
            fr[i.dst] = v
        elif op == "insertvalue":
            v = self.val(fr, a[0], a[1])
            fr[i.dst] = _insert(v, a[4], self.val(fr, a[2], a[3]))
        elif op in ("call", "invoke"):
            ty, callee, args, normal, unwind = a
            cv = self.val(fr, ("ptr",), callee)
            vs = [self.val(fr, t, o) for t, o, _ in args]
            if isinstance(cv, FnPtr):
                try:
                    r = self.call(cv.name, vs, i.text[:120])
                except CppThrow:
                    if unwind is not None:
                        lp = fr["#func"].blocks[unwind]
                        if any(x.op == "landingpad" and x.a[1] for x in lp):
                            raise Unsupported("catch clause")
                    raise
            else:
                r = self.indirect(cv, vs, i)
            if i.dst is not None:
                fr[i.dst] = r
            if normal is not None:
                return ("goto", normal)
        elif op == "resume":
            raise CppThrow()
        elif op == "landingpad":
            raise Unsupported("landing pad")
        else:
            raise Unsupported(f"instruction {i.text[:120]}")
        return None
    def indirect(self, cv, vs, i):
        if isinstance(cv, Ptr) and cv.r is not None and "call" in cv.r.tag:
            return cv.r.tag["call"](self, cv, vs)
        raise Unsupported(f"indirect call {i.text[:120]}")

def _pb(p):
    return z3.BoolVal(p) if isinstance(p, bool) else p

def _insert(v, idx, x):
    els = list(v.els)
    els[idx[0]] = x if len(idx) == 1 else _insert(els[idx[0]], idx[1:], x)
    return Agg(els)

def _mentions(t, x):
    todo, seen = [t], set()
    while todo:
        y = todo.pop()
        if y.eq(x):
            return True
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        todo += y.children()
    return False

def _throw(ex, args, what):
    raise CppThrow(what)

def _exc_alloc(ex, args, what):
    r = ex.region("exception", args[0].t)
    r.addr()
    return Ptr(r, bv(0))
LIB = {
    "@__cxa_allocate_exception": _exc_alloc,
    "@__cxa_free_exception": lambda ex, a, w: None,
    "@_ZNSt13runtime_errorC1EPKc": lambda ex, a, w: None,
    "@_ZNSt11logic_errorC1EPKc": lambda ex, a, w: None,
    "@_ZNSt12out_of_rangeC1EPKc": lambda ex, a, w: None,
    "@_ZNSt16invalid_argumentC1EPKc": lambda ex, a, w: None,
    "@__cxa_throw": _throw,
    "@_ZSt20__throw_length_errorPKc": _throw,
    "@_ZSt17__throw_bad_allocv": _throw,
    "@_ZSt19__throw_logic_errorPKc": _throw,
    "@_ZSt24__throw_out_of_range_fmtPKcz": _throw,
}

# --- compilation ------------------------------------------------------------
CLANG = ["clang++", "-std=c++17", "-S", "-emit-llvm", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w", "-fno-discard-value-names",
         "-march=x86-64", "-g0"]
def compile_ir(src, repo, out, opt="-O1", extra=()):
    cpp = os.path.join(repo, "flatdata-cpp")
    cmd = CLANG + [opt, "-I", os.path.join(cpp, "include"), "-I", os.path.join(cpp, "vendor")] + list(extra) + [src, "-o", out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError("clang: " + p.stderr[-1500:])
    with open(out) as f:
        return ir.Module(f.read())
