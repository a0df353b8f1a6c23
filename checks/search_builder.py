"""Native search for C03/C04/C05: random schemas and data through the real generator and builder, independent encoder."""
import tempfile, shutil
from nat import *
req = request()
what, rounds = req.get("what", "C03"), req.get("rounds", 25)
from flatdata.lib.resource_storage import ResourceStorage
from flatdata.lib.file_resource_writer import FileResourceWriter
from flatdata.lib.file_resource_storage import FileResourceStorage
import flatdata.lib.errors as ERR

def classes(a):
    m = a.module()
    return getattr(m, f"{a.ns}_{a.name}"), getattr(m, f"{a.ns}_{a.name}Builder"), m

def report(a, data, **k): done(found=True, schema=a.text(), data={n: (v if not isinstance(v, bytes) else v.hex()) for n, v in data.items()}, **k)

def build(B, data, order, usefile):
    if usefile:
        d = tempfile.mkdtemp()
        try:
            b = B(ResourceStorage(FileResourceWriter(), d))
            for n in order: b.set(n, data[n])
            b.finish()
            return {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}
        finally: shutil.rmtree(d)
    w = MemWriter()
    b = B(ResourceStorage(w, "/x"))
    for n in order: b.set(n, data[n])
    b.finish()
    return w.files

def expected(a, R, B, data):
    want = {f"{a.name}.archive": b"\0" * 16, f"{a.name}.archive.schema": R._SCHEMA.encode()}
    for n, v in data.items():
        sch = R._RESOURCES[n].schema
        want[n] = frame(a.payload(n, v)); want[n + ".schema"] = sch.encode()
        if a.resources[n][0] == "multivector":
            want[n + "_index"] = frame(a.index(n, v)); want[n + "_index.schema"] = f"index({sch})".encode()
    return want

def one(i, n=None):
    case()
    a = Arch(1 if n else None)
    R, B, m = classes(a)
    order = [n for n in a.resources if rng.random() < .8 or n in ("vec", "raw")]
    rng.shuffle(order)
    data = {n: a.value(n) for n in order}
    if n: data["vec"] = a.value("vec", n); data["raw"] = rng.randbytes(n)
    if what in ("C03", "C04"):
        try: files = build(B, data, order, i % 2)
        except Exception as ex: report(a, data, expected="valid data is stored", got=repr(ex), order=order)
        want = expected(a, R, B, data)
        if what == "C04":
            if sorted(files) != sorted(want): report(a, data, expected=sorted(want), got=sorted(files), order=order)
            for n in want:
                if files[n] != want[n]: report(a, data, resource=n, expected=want[n].hex(), got=files[n].hex(), order=order)
            return
        for n in order:
            if files.get(n) != want[n]: report(a, data, resource=n, expected=want[n].hex(), got=str(files.get(n) and files[n].hex()), order=order)
        # read back through the reader
        data = {n: a.value(n, 2) if n not in data else data[n] for n in a.resources}
        try:
            files = build(B, data, list(a.resources), False)
            r = R(Mem({k: (v if v else b"") for k, v in files.items()}))
            for n, (kind, x) in a.resources.items():
                got = getattr(r, n)
                if kind == "instance": g = got[0].as_dict()
                elif kind == "vector": g = [e.as_dict() for e in got]
                elif kind == "raw": continue
                else: g = [[{"name": e._NAME, "attributes": e.as_dict()} for e in got[q]] for q in range(len(got))]
                if g != data[n]: report(a, data, resource=n, expected=data[n], got=g, note="read back")
        except Exception as ex: report(a, data, expected="data reads back", got=repr(ex))
    else: reject(a, R, B)

def reject(a, R, B):
    def attempt(name, value, err, pre=()):
        w = MemWriter()
        b = B(ResourceStorage(w, "/x"))
        for n, v in pre: b.set(n, v)
        before, log = dict(w.files), list(w.log)
        try:
            b.set(name, value); got = "accepted"
        except Exception as ex: got = type(ex).__name__
        if got not in err.split(): report(a, {name: value}, expected=err, got=got, already_set=[n for n, _ in pre])
        if err in ("ResourceAlreadySetError", "UnknownResourceError") and (w.files != before or w.log != log):
            report(a, {name: value}, expected="stored data unchanged", got=sorted(set(w.files) ^ set(before)) or w.log[len(log):], already_set=[n for n, _ in pre])
    names = list(a.resources)
    for n in names:
        case()
        others = [x for x in names if x != n]; rng.shuffle(others)
        pre = [(n, a.value(n))] + [(o, a.value(o)) for o in others[:rng.randint(0, 2)]]
        attempt(n, a.value(n), "ResourceAlreadySetError", pre)
        attempt(n + rng.choice(["x", "_index", ".schema", " "]), a.value(n), "UnknownResourceError", pre)
        attempt("", b"", "UnknownResourceError", pre)
        attempt(n.upper(), a.value(n), "UnknownResourceError")
        kind, x = a.resources[n]
        if kind == "raw": continue
        v = a.value(n, 5)
        def mangle(rec, how):
            rec = dict(rec)
            if how: del rec[rng.choice(list(rec))]
            if how != 1: rec[rng.choice(["extra", "", "F0", "offset"])] = 1
            return rec
        for how in (0, 1, 2):
            err = ("UnknownFieldError", "MissingFieldError", "MissingFieldError UnknownFieldError")[how]
            if kind == "instance": attempt(n, mangle(v, how), err)
            elif kind == "vector":
                for q in range(len(v)): attempt(n, v[:q] + [mangle(v[q], how)] + v[q + 1:], err)
            else:
                import copy
                v = [[{"name": f"{a.ns}_{s.name}", "attributes": s.rand()} for s in [rng.choice(x) for _ in range(rng.choice([1, 3]))]] for _ in range(3)]
                for q in range(3):
                    for l in range(len(v[q])):
                        u = copy.deepcopy(v); u[q][l]["attributes"] = mangle(u[q][l]["attributes"], how)
                        attempt(n, u, err)
                        u = copy.deepcopy(v); u[q][l]["name"] = rng.choice(["zz", "", x[0].name, f"{a.ns}_{x[0].name}x", f"{a.ns}_"])
                        attempt(n, u, "UnknownStructureError")

for i in range(rounds): one(i)
if rounds >= 100 and what != "C05":      # sizes around every literal of the source
    from nat import literals
    for n in sorted({k for x in literals() for k in (x - 1, x, x + 1, 2 * x, 3 * x) if k < 70000}): one(1, n)
done(found=False)
