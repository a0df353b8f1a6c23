"""Shared by the native searches: random schemas and an independent encoder/decoder (no flatdata code in here)."""
import sys, json, random, os
rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
CASES = [0]
def done(**d):
    d["cases"] = CASES[0]
    print(json.dumps(d, default=repr)); sys.stdout.flush(); os._exit(0)
def request():
    try: return json.load(sys.stdin)
    except ValueError: return {}
def case(): CASES[0] += 1

def literals():
    """Integer literals of the library source (candidates for thresholds worth probing)."""
    import ast, glob
    out = set()
    for f in glob.glob(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "flatdata-py/flatdata/lib/*.py")):
        try: t = ast.parse(open(f).read())
        except (SyntaxError, OSError): continue
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and type(n.value) is int: out.add(n.value)
            if isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant):
                try: out.add(int(eval(compile(ast.Expression(n), "", "eval"))))
                except Exception: pass
    return sorted(x for x in out if 3 < x <= 1 << 17)
_LITS = None
def count(limit=5000):
    """A size: small, or around a literal of the source."""
    global _LITS
    if _LITS is None: _LITS = literals()
    c = [x for x in _LITS if x <= limit]
    if not c or rng.random() < .75: return rng.choice([0, 1, 2, 3, 7, 7, 300])
    x = rng.choice(c)
    return rng.choice([x - 1, x, x, x + 1, 2 * x, 2 * x + 1])

TYPES = [("u8", 8, False), ("u16", 16, False), ("u32", 32, False), ("u64", 64, False), ("i8", 8, True), ("i16", 16, True),
         ("i32", 32, True), ("i64", 64, True), ("bool", 1, False)]

class F:
    def __init__(self, name, ty, width, signed): self.name, self.ty, self.width, self.signed = name, ty, width, signed
    def text(self, explicit): return f"{self.name} : {self.ty}" + (f" : {self.width}" if explicit else "") + ";"

class S:
    def __init__(self, name, nf=None, wide=True):
        self.name = name
        self.fields = []
        for i in range(nf or rng.choice([1, 1, 2, 3, 4, 6])):
            ty, w, s = rng.choice(TYPES)
            if ty != "bool" and rng.random() < .75: w = rng.randint(1, w)
            self.fields.append(F(f"f{i}_{rng.choice('abc')}", ty, w, s))
        if rng.random() < .3: rng.shuffle(self.fields)
    @property
    def bits(self): return sum(f.width for f in self.fields)
    @property
    def size(self): return (self.bits + 7) // 8
    def text(self): return f"struct {self.name} {{ " + " ".join(f.text(f.ty != "bool") for f in self.fields) + " }\n"
    def rand(self, edge=None):
        return {f.name: value(f.width, f.signed, edge) for f in self.fields}
    def encode(self, rec):
        v, off = 0, 0
        for f in self.fields:
            v |= (rec[f.name] & ((1 << f.width) - 1)) << off
            off += f.width
        return v.to_bytes(self.size, "little")
    def decode(self, b):
        v, off, out = int.from_bytes(b, "little"), 0, {}
        for f in self.fields:
            x = (v >> off) & ((1 << f.width) - 1)
            if f.signed and f.width > 1 and x >> (f.width - 1): x -= 1 << f.width
            out[f.name] = x
            off += f.width
        return out

def value(w, s, edge=None):
    if w == 1: return rng.randint(0, 1)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    e = rng.random() if edge is None else edge
    if e < .2: return lo
    if e < .4: return hi
    if e < .5: return 0
    return rng.randint(lo, hi)

def frame(payload): return len(payload).to_bytes(8, "little") + payload + b"\0" * 8
def unframe(b):
    n = int.from_bytes(b[:8], "little")
    return b[8:8 + n]

class Mem:
    """In-memory reader storage."""
    def __init__(self, d): self.d = d
    def get(self, key, is_optional=False):
        if key in self.d: return self.d[key]
        if is_optional: return None
        from flatdata.lib.errors import MissingResourceError
        raise MissingResourceError(key)
    def ls(self): return list(self.d)

class MemWriter:
    """Writer injected into ResourceStorage."""
    def __init__(self): self.files, self.log = {}, []
    def create_instance(self): return MemFile(self)
class MemFile:
    def __init__(self, o): self.o = o
    def open(self, name, path): self.name, self.data = name, b""; self.o.log.append(("open", name)); self.o.files[name] = b""
    def write(self, d): self.data += bytes(d)
    def close(self): self.o.files[self.name] = self.data; self.o.log.append(("close", self.name))

class Arch:
    """Random archive with instance, vector, multivector and raw data resources."""
    def __init__(self, ntypes=None):
        self.ns = rng.choice(["n", "ns", "a_b"])
        self.structs = [S(n) for n in rng.sample(["Sa", "Sb", "Sc", "T", "U"], ntypes or rng.choice([1, 2, 3]))]
        self.name = rng.choice(["A", "Arch"])
        self.width = rng.choice([32, 33, 40, 56, 64, 16])
        self.resources = {}
        s = self.structs
        self.resources["inst"] = ("instance", rng.choice(s))
        self.resources["vec"] = ("vector", rng.choice(s))
        self.resources["mv"] = ("multivector", rng.sample(s, rng.randint(1, len(s))))
        self.resources["raw"] = ("raw", None)
        self.opt = {k: rng.random() < .3 for k in self.resources}
    def text(self):
        t = f"namespace {self.ns} {{\n" + "".join(x.text() for x in self.structs) + f"archive {self.name} {{\n"
        order = list(self.resources)
        for k in order:
            kind, x = self.resources[k]
            o = "@optional\n" if self.opt[k] else ""
            t += o + f"{k} : " + {"instance": lambda: x.name, "vector": lambda: f"vector< {x.name} >",
                           "multivector": lambda: f"multivector< {self.width}, {', '.join(y.name for y in x)} >", "raw": lambda: "raw_data"}[kind]() + ";\n"
        return t + "}\n}\n"
    def value(self, k, n=None):
        kind, x = self.resources[k]
        if n is None: n = count() if kind == "vector" else count(300)
        if kind == "instance": return x.rand()
        if kind == "vector": return [x.rand() for _ in range(n)]
        if kind == "raw": return rng.randbytes(rng.choice([n * 3, n, count(1 << 17), 255, 256, 4097, (1 << rng.randint(8, 18)) + rng.randint(-1, 1)]))
        out = []
        for _ in range(n):
            item = []
            for _ in range(rng.choice([0, 0, 1, 2, 4])):
                s = rng.choice(x)
                item.append({"name": f"{self.ns}_{s.name}", "attributes": s.rand()})
            out.append(item)
        return out
    def payload(self, k, v):
        kind, x = self.resources[k]
        if kind == "instance": return x.encode(v)
        if kind == "vector": return b"".join(x.encode(r) for r in v)
        if kind == "raw": return bytes(v)
        out = b""
        for item in v:
            for e in item:
                i = [f"{self.ns}_{s.name}" for s in x].index(e["name"])
                out += bytes([i]) + x[i].encode(e["attributes"])
        return out
    def index(self, k, v):
        w = (self.width + 7) // 8
        x = self.resources[k][1]
        offs, o = [], 0
        for item in v:
            offs.append(o)
            for e in item:
                i = [f"{self.ns}_{s.name}" for s in x].index(e["name"])
                o += 1 + x[i].size
        offs.append(o)
        return b"".join(q.to_bytes(w, "little") for q in offs)
    def module(self):
        from flatdata.generator.engine import Engine
        return Engine(self.text()).render_python_module()
