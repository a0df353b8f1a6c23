"""Native search for C06/C07 (readers) over resources encoded independently."""
import warnings; warnings.filterwarnings("ignore")
from nat import *
req = request()
what, rounds = req.get("what", "C06"), req.get("rounds", 20)
import flatdata.lib.errors as ERR
import flatdata.lib.resources as R
def report(a, data, **k): done(found=True, schema=a.text(), data={n: (v if not isinstance(v, bytes) else v.hex()) for n, v in data.items()}, **k)
def attempt(f):
    try: return f()
    except Exception as ex: return type(ex).__name__
def recs(x): return x if isinstance(x, str) else [e.as_dict() for e in x]
def tup(r): return tuple(int(v) for v in r)
def one():
    case()
    a = Arch()
    m = a.module()
    A = getattr(m, f"{a.ns}_{a.name}")
    data = {n: a.value(n) for n in a.resources}
    files = {f"{a.name}.archive": b"\0" * 16, f"{a.name}.archive.schema": A._SCHEMA.encode()}
    for n, v in data.items():
        files[n] = frame(a.payload(n, v)); files[n + ".schema"] = A._RESOURCES[n].schema.encode()
        if a.resources[n][0] == "multivector": files[n + "_index"] = frame(a.index(n, v)); files[n + "_index.schema"] = ("index(" + A._RESOURCES[n].schema + ")").encode()
    try: r = A(Mem(files))
    except Exception as ex: report(a, data, expected="archive opens", got=repr(ex))
    if what == "C06": vec(a, data, r.vec)
    else: mv(a, data, r, files)
def vec(a, data, v):
    want = data["vec"]; s = a.resources["vec"][1]; n = len(want)
    def eq(call, got, exp):
        if got != exp: report(a, data, resource="vec", call=call, expected=exp, got=got)
    eq("len", attempt(lambda: len(v)), n)
    eq("iter", attempt(lambda: recs(v)), want)
    for i in list(range(-n - 3, n + 3)) + [10 ** 6, -10 ** 6]:
        exp = want[i] if -n <= i < n else "IndexError"
        eq(f"[{i}]", attempt(lambda: v[i].as_dict()), exp)
    names = [f.name for f in s.fields]
    for r in want[:3]:
        i = want.index(r)
        eq(f"[{i}] accessors", attempt(lambda: (v[i].as_list(), tuple(v[i]), v[i].as_tuple(), {q: getattr(v[i], q) for q in names})), ([r[q] for q in names], tuple(r[q] for q in names), tuple(r[q] for q in names), r))
    bs = [None, 0, 1, 2, n - 1, n, n + 1, -1, -2, -n, -n - 1, 5 * n + 9]
    for _ in range(60):
        sl = slice(rng.choice(bs), rng.choice(bs), rng.choice([None, None, 1, 2, 3, -1, -2, -3, n + 1, -n - 1]))
        if sl.step == 0: continue
        w = want[sl]
        eq(f"{sl}", attempt(lambda: recs(v[sl])), w)
        rows = [tuple(int(r[q]) for q in names) for r in w]
        eq(f"{sl}.to_numpy()", attempt(lambda: [tup(r) for r in v[sl].to_numpy()]), rows)
        lim = rng.choice([1, 2, max(len(w), 1), len(w) + 1, 100])
        eq(f"{sl}.to_numpy({lim})", attempt(lambda: [tup(r) for r in v[sl].to_numpy(lim)]), rows[:lim])
        eq(f"{sl}.to_numpy dtype", attempt(lambda: list(v[sl].to_numpy().dtype.names)), names)
        if rng.random() < .3:
            eq(f"{sl}.to_data_frame()", attempt(lambda: [tup(r) for r in v[sl].to_data_frame().itertuples(index=False)]), rows)
            eq(f"{sl}.to_data_frame({lim})", attempt(lambda: [tup(r) for r in v[sl].to_data_frame(lim).itertuples(index=False)]), rows[:lim])
            q = rng.choice(names)
            eq(f"{sl}.{q}", attempt(lambda: [int(x) for x in getattr(v[sl], q)[q]]), [int(r[q]) for r in w])
            eq(f".{q}", attempt(lambda: [int(x) for x in getattr(v, q)[q]]), [int(r[q]) for r in want])
            eq("to_data_frame()", attempt(lambda: [tup(r) for r in v.to_data_frame().itertuples(index=False)]), [tuple(int(r[q]) for q in names) for r in want])
            if attempt(lambda: repr(v[sl])) in ("IndexError", "ValueError", "TypeError"): report(a, data, call=f"repr {sl}", expected="text", got=attempt(lambda: repr(v[sl])))
    T = type(v[0]) if n else None
    for k in range(0, 17):
        for cls, el in ((R.Vector, v._element_type), (R.RawData, None), (R.Instance, v._element_type)):
            exp = "CorruptResourceError" if k < 16 else "ok"
            g = attempt(lambda: cls(bytes(k), el) and "ok" or "ok")
            if g != exp: report(a, data, call=f"{cls.__name__}({k} bytes)", expected=exp, got=g)
def mv(a, data, r, files):
    def eq(call, got, exp):
        if got != exp: report(a, data, call=call, expected=exp, got=got)
    want = data["mv"]; m = len(want); x = r.mv
    def item(i): return [{"name": e._NAME, "attributes": e.as_dict()} for e in i]
    eq("len(mv)", attempt(lambda: len(x)), m)
    for i in list(range(-m - 2, m + 3)): eq(f"mv[{i}]", attempt(lambda: item(x[i])), want[i] if -m <= i < m else "IndexError")
    eq("iter(mv)", attempt(lambda: [item(i) for i in x]), want)
    for _ in range(10):
        sl = slice(*[rng.choice([None, 0, 1, m - 1, m, -1, -2, m + 2]) for _ in range(2)], rng.choice([None, 1, -1, 2]))
        eq(f"mv[{sl}]", attempt(lambda: [item(i) for i in x[sl]]), want[sl])
    inst = r.inst; w = data["inst"]
    eq("len(inst)", attempt(lambda: len(inst)), 1)
    for i in range(-4, 5): eq(f"inst[{i}]", attempt(lambda: inst[i].as_dict()), w if i in (0, -1) else "IndexError")
    eq("iter(inst)", attempt(lambda: recs(inst)), [w])
    for q in w: eq(f"inst.{q}", attempt(lambda: getattr(inst, q)), w[q])
    raw = r.raw; w = data["raw"]; n = len(w)
    eq("len(raw)", attempt(lambda: len(raw)), n)
    for _ in range(20):
        i = rng.randint(0, n); j = rng.randint(i, n)
        if rng.random() < .2: j = n
        if rng.random() < .2: i = 0
        if i > j: i = j
        eq(f"raw[{i}:{j}]", attempt(lambda: bytes(raw[i:j])), w[i:j])
        if i < n: eq(f"raw[{i}]", attempt(lambda: bytes(raw[i])), w[i:i + 1])
        if i < n: eq(f"raw[{i}:{j}:1]", attempt(lambda: bytes(raw[i:j:1])), w[i:j])
    if n: eq(f"raw[{n-1}]", attempt(lambda: bytes(raw[n - 1])), w[n - 1:])
def many():
    """multivectors of more than 127 element types"""
    import flatdata.lib.structure as ST
    for n in (128, 129, 130, 200, 255, 256):
        case()
        cls = [type(f"S{i}", (ST.Structure,), dict(_NAME=f"S{i}", _SIZE_IN_BYTES=1 + i % 3, _FIELDS={f"f{i}": ST.FieldSignature(0, 8, False, "u1")}, _FIELD_KEYS={f"f{i}"}, _SCHEMA="")) for i in range(n)]
        ix = type("Ix", (ST.Structure,), dict(_NAME="Ix", _SIZE_IN_BYTES=4, _FIELDS={"value": ST.FieldSignature(0, 32, False, "u4")}, _FIELD_KEYS={"value"}, _SCHEMA=""))
        tags = [0, 1, 126, 127] + [t for t in (128, 129, 150, 199, 254, 255) if t < n]
        data, offs = b"", [0]
        for t in tags:
            data += bytes([t]) + bytes([t ^ 85] * (1 + t % 3)); offs.append(len(data))
        x = R.Multivector(frame(b"".join(o.to_bytes(4, "little") for o in offs)), frame(data), ix, *cls)
        for i, t in enumerate(tags):
            got = attempt(lambda: [(type(q).__name__, q.as_dict()) for q in x[i]])
            if got != [(f"S{t}", {f"f{t}": t ^ 85})]: done(found=True, call=f"mv[{i}] of {n} types", expected=[(f"S{t}", {f"f{t}": t ^ 85})], got=got)
if what == "C07": many()
for _ in range(rounds): one()
done(found=False)
