"""Verification conditions from Go source via the SSA form printed by ssadump (golang.org/x/tools/go/ssa).

Integers are bit vectors of their Go width (uint and int: 64 bits), with Go's semantics: wrap-around arithmetic, shift counts of
any size, run-time panics (index, negative shift, division by zero, explicit panic) as obligations that must be unreachable.
Calls to functions of the package are executed, interface methods and library functions go through contracts; anything else is
Unsupported (a failed obligation, never silently skipped)."""
import re
import z3
from pyvc import engine as E
from pyvc.engine import Unsupported, PathEnd

INTS = {"int": (64, True), "uint": (64, False), "uintptr": (64, False), "byte": (8, False), "rune": (32, True)}
for _n in (8, 16, 32, 64):
    INTS[f"int{_n}"] = (_n, True); INTS[f"uint{_n}"] = (_n, False)

class Func:
    def __init__(self, name): self.name, self.params, self.free, self.blocks = name, [], [], {}

class Package:
    def __init__(self, text):
        self.funcs, cur, blk = {}, None, None
        self.stores = set()             # globals stored outside the initialisers
        self.vars = {}
        i = text.find("\npackage flatdata:\n")
        for ln in text[max(i, 0) + 1:].split("\n")[1:]:
            if not ln.startswith("  "): break
            m = re.match(r"^  var\s+(\S+)\s+(\S+)$", ln)
            if m: self.vars[m[1]] = m[2]
        for ln in text.split("\n"):
            m = re.match(r"^# Name: (\S+?)\.(.+)$", ln)
            if m:
                cur = Func(m[2].strip()); blk = None
                self.funcs[cur.name] = cur
                continue
            m = re.match(r"^#\s+\d+:\s+(\w+) (.+)$", ln)
            if m and cur is not None:
                cur.free.append((m[1], m[2]))
                continue
            if ln.startswith("func ") and cur is not None:
                b = ln[ln.index("(", 5 if not ln.startswith("func (") else ln.index(")") + 1):]
                d = 0
                for e, ch in enumerate(b):
                    d += (ch == "(") - (ch == ")")
                    if d == 0: break
                for p in split(b[1:e]):
                    p = p.strip()
                    if p:
                        nm, ty = p.split(" ", 1)
                        cur.params.append((nm, ty))
                continue
            m = re.match(r"^(\d+): ", ln)
            if m and cur is not None:
                blk = int(m[1]); cur.blocks[blk] = []
                continue
            if ln.startswith("\t") and blk is not None:
                cur.blocks[blk].append(parse(ln.strip()))
                m = re.match(r"^(?:\*|t\d+ = &)([A-Za-z]\w*)\b", ln.strip())
                local = [n for n, _ in cur.params + cur.free]
                if m and m[1] in self.vars and m[1] not in local and not re.match(r"init\b|init#", cur.name) and ln.strip()[0] == "*":
                    self.stores.add(m[1])

def split(s):
    out, d, q, c = [], 0, False, ""
    for ch in s:
        if ch == '"': q = not q
        if not q:
            d += ch in "([{"; d -= ch in ")]}"
            if ch == "," and d == 0:
                out.append(c); c = ""; continue
        c += ch
    return out + [c] if c.strip() else out

def parse(ln):
    """-> (dst, expression text, type) ; statements have dst None."""
    m = re.match(r"^(t\d+) = (\S.*?)\s{2,}(\S.*)$", ln) or re.match(r"^(t\d+) = (.*?)\s+(\S+)$", ln)
    if m: return m[1], re.sub(r"\s+#\w+$", "", m[2]), m[3]
    m = re.match(r"^(t\d+) = (.*)$", ln)
    if m: return m[1], m[2], ""
    return None, ln, ""

class Slice:
    def __init__(self, cells, lo, n): self.cells, self.lo, self.n = cells, lo, n
class Ref:
    """Pointer to an element of a list of cells."""
    def __init__(self, cells, i): self.cells, self.i = cells, i
class Flt:
    def __init__(self, v): self.v = v
class Closure:
    def __init__(self, f, free): self.f, self.free = f, free
class Iface:
    def __init__(self, name): self.name = name

class Exec:
    def __init__(self, pkg, eng, contracts):
        self.p, self.e, self.contracts = pkg, eng, contracts
        self.globals = {}
        self.depth, self.steps = 0, 0

    def const(self, s):
        m = re.match(r"^(-?\d+):(.+)$", s)
        if m:
            if m[2] in INTS: return z3.BitVecVal(int(m[1]), INTS[m[2]][0])
            if m[2] in ("float64", "float32"): return Flt(int(m[1]))
        if s == "true:bool": return z3.BoolVal(True)
        if s == "false:bool": return z3.BoolVal(False)
        raise Unsupported(f"constant {s}")

    def zero(self, ty):
        if ty in INTS: return z3.BitVecVal(0, INTS[ty][0])
        if ty == "bool": return z3.BoolVal(False)
        if ty in ("float64", "float32"): return Flt(0)
        raise Unsupported(f"zero value of {ty}")

    def val(self, fr, s):
        s = s.strip()
        if s in fr: return fr[s]
        if ":" in s: return self.const(s)
        if s in self.globals: return self.globals[s]
        if s in self.p.funcs: return Closure(s, [])
        raise Unsupported(f"operand {s}")

    def conc(self, t):
        c = self.e.concretize(t)
        return c

    def panic(self, what, cond=None):
        """Run-time panic unless cond."""
        if cond is None:
            self.e.prove("no panic: " + what, False); raise PathEnd()
        self.e.prove("no panic: " + what, cond)
        self.e.assume(cond)

    def init(self):
        """Global variables, then the package's initialisers (executed concretely)."""
        for g, t in self.p.vars.items():
            try: self.globals[g] = self.cells(t)
            except Unsupported: self.globals[g] = Ref([None], 0)
        if "init" in self.p.funcs: self.run(self.p.funcs["init"], {}, lib_init=True)

    def cells(self, ty):
        m = re.match(r"^\[(\d+)\](\S+)$", ty)
        if m: return Ref([self.zero(m[2]) for _ in range(int(m[1]))], "array")
        return Ref([self.zero(ty)], 0)

    def call(self, name, args, free=()):
        self.depth += 1
        if self.depth > 20: raise Unsupported("call depth")
        f = self.p.funcs[name]
        if len(args) != len(f.params) or len(free) != len(f.free): raise Unsupported(f"arguments of {name}")
        r = self.run(f, dict(zip([n for n, _ in f.params + f.free], list(args) + list(free))), types=dict(f.params + f.free))
        self.depth -= 1
        return r

    def run(self, f, fr, lib_init=False, skip=False, types=None):
        ty = dict(types or {})
        blk, prev = 0, None
        while True:
            if blk not in f.blocks: raise Unsupported(f"block {blk} of {f.name}")
            body = f.blocks[blk]
            phis = {}
            nxt = None
            for dst, ex, t in body:
                self.steps += 1
                if self.steps > 20000: raise Unsupported("too many steps (a loop without a constant bound)")
                if dst:
                    if ex.startswith("phi "):
                        ent = dict((int(a), b) for a, b in (x.strip().split(": ", 1) for x in split(re.match(r"phi \[(.*)\]", ex)[1])))
                        phis[dst] = (self.val(fr, ent[prev]), t)
                        continue
                    if phis:
                        for k, (v, vt) in phis.items(): fr[k], ty[k] = v, vt
                        phis = {}
                    fr[dst] = self.expr(fr, ty, ex, t, lib_init)
                    ty[dst] = t
                    continue
                if phis:
                    for k, (v, vt) in phis.items(): fr[k], ty[k] = v, vt
                    phis = {}
                m = re.match(r"^jump (\d+)$", ex)
                if m: nxt = int(m[1]); break
                m = re.match(r"^if (\S+) goto (\d+) else (\d+)$", ex)
                if m:
                    c = self.val(fr, m[1])
                    nxt = int(m[2]) if self.e.branch(c) else int(m[3])
                    break
                m = re.match(r"^return ?(.*)$", ex)
                if m:
                    vs = [self.val(fr, x) for x in split(m[1])]
                    return vs[0] if len(vs) == 1 else tuple(vs) if vs else None
                m = re.match(r"^panic (.*)$", ex)
                if m: self.panic("explicit panic")
                m = re.match(r"^\*(\S+) = (.+)$", ex)
                if m:
                    self.store(fr, m[1], self.val(fr, m[2]))
                    continue
                raise Unsupported(f"instruction {ex}")
            if phis:
                for k, (v, vt) in phis.items(): fr[k], ty[k] = v, vt
            if nxt is None: raise Unsupported(f"block {blk} of {f.name} has no successor")
            prev, blk = blk, nxt

    def store(self, fr, p, v):
        r = self.val(fr, p)
        if not isinstance(r, Ref): raise Unsupported(f"store through {p}")
        if isinstance(r.i, str):
            if not isinstance(v, list): raise Unsupported("store of a whole array")
            r.cells[:] = v
        elif isinstance(r.i, int): r.cells[r.i] = v
        else:
            for k in range(len(r.cells)): r.cells[k] = z3.simplify(z3.If(r.i == k, v, r.cells[k]))

    def loadref(self, r):
        if not isinstance(r, Ref): raise Unsupported("load through a non pointer")
        if isinstance(r.i, int):
            v = r.cells[r.i]
        else:
            if not all(z3.is_bv(c) for c in r.cells): raise Unsupported("symbolic index into non integers")
            v = r.cells[-1]
            for k in range(len(r.cells) - 1): v = z3.If(r.i == k, r.cells[k], v)
            v = z3.simplify(v)
        if v is None: raise Unsupported("read of an uninitialised variable")
        return v

    def index(self, cells, lo, n, i):
        if isinstance(n, int): self.panic("index out of range", z3.ULT(i, z3.BitVecVal(n, i.size())))
        c = self.conc(i)
        if c is not None: return Ref(cells, lo + c)
        return Ref(cells, z3.simplify(i + lo))

    def expr(self, fr, ty, ex, t, lib_init):
        m = re.match(r"^(\S+) (\+|-|\*|/|%|&|\||\^|&\^|<<|>>|==|!=|<|<=|>|>=) (\S+)$", ex)
        if m: return self.binop(fr, ty, m[1], m[2], m[3])
        m = re.match(r"^convert (\S+) <- (\S+) \((.+)\)$", ex) or re.match(r"^changetype (\S+) <- (\S+) \((.+)\)$", ex)
        if m: return self.convert(self.val(fr, m[3]), m[2], m[1])
        m = re.match(r"^invoke (\S+)\.(\w+)\((.*)\)$", ex)
        if m:
            recv = self.val(fr, m[1])
            h = self.contracts.get("." + m[2])
            if not h or not isinstance(recv, Iface): raise Unsupported(f"call of {m[2]}")
            return h(self, [self.val(fr, x) for x in split(m[3])])
        m = re.match(r"^([A-Za-z_][\w./#$]*)\((.*)\)$", ex)
        if m:
            if lib_init and re.search(r"\.init$", m[1]): return None
            args = [self.val(fr, x) for x in split(m[2])]
            if isinstance(fr.get(m[1]), Closure): return self.call(fr[m[1]].f, args, fr[m[1]].free)
            if m[1] in self.contracts: return self.contracts[m[1]](self, args)
            if m[1] in self.p.funcs: return self.call(m[1], args)
            if m[1] == "len" and isinstance(args[0], Slice): return z3.BitVecVal(args[0].n, 64)
            if m[1] in ("min", "max") and len(args) == 2:
                sg = INTS[t][1]
                c = (args[0] <= args[1]) if sg else z3.ULE(args[0], args[1])
                return z3.simplify(z3.If(c if m[1] == "min" else z3.Not(c), args[0], args[1]))
            raise Unsupported(f"call of {m[1]}")
        m = re.match(r"^(?:new|local) \[(\d+)\](\S+)(?: \(.*\))?$", ex)
        if m: return Ref([self.zero(m[2]) for _ in range(int(m[1]))], "array")
        m = re.match(r"^(?:new|local) (\S+)(?: \(.*\))?$", ex)
        if m:
            try: return Ref([self.zero(m[1])], 0)
            except Unsupported: return Ref([None], 0)
        m = re.match(r"^make closure (\S+) \[(.*)\]$", ex)
        if m: return Closure(m[1], [self.val(fr, x) for x in split(m[2])])
        m = re.match(r"^make \[\](\S+) (\S+) (\S+)$", ex)
        if m:
            n = self.conc(self.val(fr, m[2]))
            if n is None or n > 4096: raise Unsupported("slice of unknown length")
            return Slice([self.zero(m[1]) for _ in range(n)], 0, n)
        m = re.match(r"^slice (\S+)\[(\S*?:?\w*):(\S*)\]$", ex)
        if ex.startswith("slice "): return self.slice(fr, ex)
        m = re.match(r"^&(\S+)\[(\S+)\]$", ex) or re.match(r"^(\w+)\[(\S+)\]$", ex)
        if m:
            b, i = self.val(fr, m[1]), self.val(fr, m[2])
            if i.size() < 64: i = z3.ZeroExt(64 - i.size(), i)
            if isinstance(b, Slice): r = self.index(b.cells, b.lo, b.n, i)
            elif isinstance(b, Ref) and b.i == "array": r = self.index(b.cells, 0, len(b.cells), i)
            elif isinstance(b, list): r = self.index(b, 0, len(b), i)
            else: raise Unsupported(ex)
            return r if ex[0] == "&" else self.loadref(r)
        if ex[0] == "*":
            r = self.val(fr, ex[1:])
            if isinstance(r, Ref) and r.i == "array": return list(r.cells)
            return self.loadref(r)
        if ex[0] in "-^!":
            v = self.val(fr, ex[1:])
            return z3.simplify(z3.Not(v) if ex[0] == "!" else ~v if ex[0] == "^" else -v)
        raise Unsupported(f"expression {ex}")

    def slice(self, fr, ex):
        m = re.match(r"^slice (\w+)\[(.*)\]$", ex)
        b = self.val(fr, m[1])
        parts = re.match(r"^((?:-?\d+:\w+|t\d+)?):((?:-?\d+:\w+|t\d+)?)$", m[2])
        if not parts: raise Unsupported(ex)
        cells, lo, n = (b.cells, b.lo, b.n) if isinstance(b, Slice) else (b.cells, 0, len(b.cells))
        i = self.conc(self.val(fr, parts[1])) if parts[1] else 0
        j = self.conc(self.val(fr, parts[2])) if parts[2] else n
        if i is None or j is None: raise Unsupported("symbolic slice bounds")
        self.panic("slice bounds", z3.BoolVal(i <= j <= n))
        return Slice(cells, lo + i, j - i)

    def convert(self, v, src, dst):
        if isinstance(v, Flt):
            if dst in ("float64", "float32"): return v
            n, sg = INTS[dst]
            if v.v < 0 or v.v >= 1 << (n - sg): raise Unsupported("float conversion out of range")
            return z3.BitVecVal(int(v.v), n)
        if dst in ("float64", "float32"):
            c = self.conc(v)
            if c is None or c > 1 << 53: raise Unsupported("symbolic float")
            return Flt(c)
        if src not in INTS or dst not in INTS: raise Unsupported(f"convert {dst} <- {src}")
        (a, sg), (b, _) = INTS[src], INTS[dst]
        if b == a: return v
        if b < a: return z3.simplify(z3.Extract(b - 1, 0, v))
        return z3.simplify(z3.SignExt(b - a, v) if sg else z3.ZeroExt(b - a, v))

    def typeof(self, ty, s):
        m = re.match(r"^-?\w+:(.+)$", s)
        return m[1] if m else ty.get(s)

    def binop(self, fr, ty, xs, op, ys):
        x, y = self.val(fr, xs), self.val(fr, ys)
        if isinstance(x, Flt) or isinstance(y, Flt): raise Unsupported("float arithmetic")
        tx, tyy = self.typeof(ty, xs), self.typeof(ty, ys)
        if z3.is_bool(x):
            return z3.simplify(x == y if op == "==" else x != y)
        if tx not in INTS: raise Unsupported(f"operand type {tx}")
        n, sg = INTS[tx]
        if op in ("<<", ">>"):
            ny, sy = INTS[tyy]
            if sy: self.panic("negative shift amount", y >= 0)
            big = z3.UGE(y, z3.BitVecVal(n, ny)) if ny >= 8 else z3.BoolVal(False)
            k = z3.Extract(n - 1, 0, y) if ny > n else z3.ZeroExt(n - ny, y) if ny < n else y
            if op == "<<": r = z3.If(big, z3.BitVecVal(0, n), x << k)
            elif sg: r = z3.If(big, x >> z3.BitVecVal(n - 1, n), x >> k)
            else: r = z3.If(big, z3.BitVecVal(0, n), z3.LShR(x, k))
            return z3.simplify(r)
        if op in ("/", "%"): self.panic("division by zero", y != 0)
        r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "&^": lambda: x & ~y,
             "/": lambda: x / y if sg else z3.UDiv(x, y), "%": lambda: z3.SRem(x, y) if sg else z3.URem(x, y),
             "==": lambda: x == y, "!=": lambda: x != y,
             "<": lambda: x < y if sg else z3.ULT(x, y), "<=": lambda: x <= y if sg else z3.ULE(x, y),
             ">": lambda: x > y if sg else z3.UGT(x, y), ">=": lambda: x >= y if sg else z3.UGE(x, y)}[op]()
        return z3.simplify(r)
