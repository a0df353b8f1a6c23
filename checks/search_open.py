"""Native search for C08 (opening validates every resource) and C09 (directory and TAR storages resolve names alike)."""
import warnings; warnings.filterwarnings("ignore")
from nat import *
import tempfile, shutil, tarfile, io, subprocess
req = request()
what, rounds = req.get("what", "C08"), req.get("rounds", 40)
import flatdata.lib.errors as ERR
from flatdata.lib.file_resource_storage import FileResourceStorage
from flatdata.lib.tar_archive_resource_storage import TarArchiveResourceStorage

def outcome(f):
    try: return "ok", f()
    except ERR.MissingResourceError: return "MissingResourceError", None
    except ERR.SchemaMismatchError: return "SchemaMismatchError", None
    except ERR.CorruptResourceError: return "CorruptResourceError", None
    except Exception as ex: return type(ex).__name__, None

def alter(t):
    a = [t + "\n", t + " ", t[:-1], t[1:], " " + t, t.replace("\n", "\r\n"), t.upper(), t.replace(" ", "  "), "", t + t, t.replace("8", "9"), t.strip(), "\ufeff" + t, t + "\0",
         t.replace("\n", ""), t.replace("\n", " "), t + "// c\n", t.lower()]
    return rng.choice([x for x in a if x != t] or ["x"])

def c08():
    case()
    a = Arch()
    nested = rng.random() < .5
    extra = "archive Inner { r : vector< %s >; }\n" % a.structs[0].name
    text = a.text()
    if nested:
        i = text.index("archive ")
        text = text[:i] + extra + text[i:].rstrip()[:-1].rstrip()[:-1] + ("@optional\n" if (nopt := rng.random() < .5) else "") + "sub : archive Inner;\n}\n}\n"
    from flatdata.generator.engine import Engine
    m = Engine(text).render_python_module()
    A = getattr(m, f"{a.ns}_{a.name}")
    n0 = rng.choice([0, 0, 1, 5])
    data = {n: (a.value(n, n0) if a.resources[n][0] in ("vector", "multivector") else a.value(n) if a.resources[n][0] == "instance" or n0 else b"") for n in a.resources}
    files = {f"{a.name}.archive": b"\0" * 16, f"{a.name}.archive.schema": A._SCHEMA.encode()}
    for n, v in data.items():
        files[n] = frame(a.payload(n, v)); files[n + ".schema"] = A._RESOURCES[n].schema.encode()
        if a.resources[n][0] == "multivector": files[n + "_index"] = frame(a.index(n, v)); files[n + "_index.schema"] = ("index(" + A._RESOURCES[n].schema + ")").encode()
    want, absent = set(), set()      # acceptable outcomes (sorted order decides which error comes first, so collect all)
    changes = []
    for n in rng.sample(list(data), rng.choice([0, 1, 1, 1, 2, 3, 4])):
        ch = rng.choice(["no schema", "other schema", "no data", "nothing"])
        changes.append((n, ch))
        if ch in ("no schema", "nothing"):
            files.pop(n + ".schema")
            if a.opt[n]: absent.add(n)
            else: want.add("MissingResourceError")
        if ch in ("no data", "nothing"):
            k = [n] + ([n + "_index"] if n == "mv" else [])
            for q in rng.sample(k, rng.randint(1, len(k))) if ch == "no data" else k: files.pop(q)
            if ch == "no data": want.add("any error" if a.opt[n] else "MissingResourceError")
        if ch == "other schema":
            files[n + ".schema"] = alter(A._RESOURCES[n].schema).encode(); want.add("SchemaMismatchError")
    am = rng.choice(["", "", "", "no schema", "other schema", "no data"]) if not changes else ""
    r = f"{a.name}.archive"
    if am:
        changes.append((r, am))
        if am == "no schema": files.pop(r + ".schema")
        elif am == "no data": files.pop(r)
        else: files[r + ".schema"] = alter(A._SCHEMA).encode()
        want.add("SchemaMismatchError" if am == "other schema" else "MissingResourceError")
    if nested:
        In = getattr(m, f"{a.ns}_Inner")
        nf = {"Inner.archive": b"\0" * 16, "Inner.archive.schema": In._SCHEMA.encode(), "r": frame(b""), "r.schema": In._RESOURCES["r"].schema.encode()}
        ch = rng.choice(["", "", "absent", "no r", "r schema"])
        changes.append(("sub", ch))
        if ch != "absent": files["sub"] = Mem(nf)
        elif nopt: absent.add("sub")
        else: want.add("MissingResourceError")
        if ch == "no r": nf.pop("r"); want.add("MissingResourceError")
        if ch == "r schema": nf["r.schema"] = alter(In._RESOURCES["r"].schema).encode(); want.add("SchemaMismatchError")
    if rng.random() < .3:
        files = {k: (memoryview(v) if isinstance(v, bytes) else v) for k, v in files.items()}
    out, x = outcome(lambda: A(Mem(files)))
    def rep(**k): done(found=True, schema=text, changes=changes, optional=a.opt, n=n0, outcome=out, **k)
    if not want:
        if out != "ok": rep(expected="opens")
    elif out == "ok": rep(expected=sorted(want))
    elif "any error" not in want and out not in want: rep(expected=sorted(want))
    if out != "ok": return
    for n in list(data) + (["sub"] if nested else []) + [r]:
        v = getattr(x, n if n != r else n)
        if n in absent:
            if v is not None: rep(resource=n, expected=None, got=repr(type(v)))
        elif v is None: rep(resource=n, expected="resource object", got=None)
        elif n in data:
            k = a.resources[n][0]
            if k == "vector" and [q.as_dict() for q in v] != data[n]: rep(resource=n, expected=data[n], got="other elements")
            if k == "raw" and len(v) != len(data[n]): rep(resource=n, expected=len(data[n]), got=len(v))
            if k == "multivector" and len(v) != len(data[n]): rep(resource=n, expected=len(data[n]), got=len(v))
            if k == "instance" and v[0].as_dict() != data[n]: rep(resource=n, expected=data[n], got=v[0].as_dict())
    present = len([n for n in data if n not in absent])
    try: x.to_data_frame(); sz = x.size_in_bytes()
    except Exception as ex: rep(expected="summary", got=repr(ex))

NAMES = ["a", "b", "a.schema", "ab", "c_index", "data", "Sub", "sub", "x.archive", "A", "a b", "\u00e9", ".h"]
def tree(depth=0):
    t = {}
    for n in rng.sample(NAMES, rng.randint(1, 5)):
        if depth < 3 and rng.random() < .35: t[n] = tree(depth + 1)
        else: t[n] = rng.randbytes(rng.choice([1, 3, 16, 511, 512, 513, 1500, 5000]))
    return t
def put(t, d):
    os.makedirs(d, exist_ok=True)
    for n, v in t.items():
        if isinstance(v, dict): put(v, os.path.join(d, n))
        else: open(os.path.join(d, n), "wb").write(v)
def add(tar, t, prefix, fmt):
    items = list(t.items()); rng.shuffle(items)
    for n, v in items:
        p = prefix + n
        if isinstance(v, dict):
            i = tarfile.TarInfo(p); i.type = tarfile.DIRTYPE; i.mode = 0o755
            first = rng.random() < .7
            if first: tar.addfile(i)
            add(tar, v, p + "/", fmt)
            if not first: tar.addfile(i)
        else:
            if rng.random() < .1:      # an older version of the same member, superseded below
                i = tarfile.TarInfo(p); i.size = 7; tar.addfile(i, io.BytesIO(b"old" + b"!" * 4))
            i = tarfile.TarInfo(p); i.size = len(v); tar.addfile(i, io.BytesIO(v))
def get(s, key, opt):
    try: r = s.get(key, opt) if rng.random() < .5 else (s.get(key, is_optional=opt) if opt else s.get(key))
    except ERR.MissingResourceError: return "MissingResourceError"
    except Exception as ex: return type(ex).__name__
    if r is None: return None
    if hasattr(r, "get") and hasattr(r, "ls"): return r
    return bytes(r)
def c09():
    case()
    d = tempfile.mkdtemp()
    try:
        t = tree()
        put(t, os.path.join(d, "f"))
        fmt = rng.choice([tarfile.GNU_FORMAT, tarfile.PAX_FORMAT, tarfile.USTAR_FORMAT])
        pre = rng.choice(["", "./"])
        p = os.path.join(d, "x.tar")
        with tarfile.open(p, "w", format=fmt) as tar:
            if pre:
                i = tarfile.TarInfo("."); i.type = tarfile.DIRTYPE; tar.addfile(i)
            add(tar, t, pre, fmt)
        fs, ts = FileResourceStorage(os.path.join(d, "f")), TarArchiveResourceStorage.create(p)
        def at(path):
            x = t
            for c in path:
                if not isinstance(x, dict) or c not in x: return None
                x = x[c]
            return x
        def walk(fs, ts, t, path, depth):
            keys = set(NAMES) | {"zz"} | set(t)
            for k in list(keys):
                if isinstance(t.get(k), dict):
                    for q in list(t[k])[:2]: keys.add(k + "/" + q)
            for k in sorted(keys):
                w = at(path + k.split("/"))
                for opt in (False, True):
                    for nm, s in (("directory", fs), ("tar", ts)):
                        g = get(s, k, opt)
                        if w is None: ok = g is None if opt else g == "MissingResourceError"
                        elif isinstance(w, dict): ok = hasattr(g, "get") and not isinstance(g, (bytes, str))
                        else: ok = g == w
                        if not ok: done(found=True, storage=nm, tree=t0, prefix=pre, path=path, key=k, optional=opt, expected=("nothing" if w is None else "a directory" if isinstance(w, dict) else w), got=repr(g)[:200])
                if isinstance(w, dict): walk(get(fs, k, False), get(ts, k, False), w, path + k.split("/"), depth + 1)
        t0 = t
        walk(fs, ts, t, [], 0)
        if rng.random() < .15:
            q = os.path.join(d, "sp"); os.makedirs(q)
            f = open(os.path.join(q, "s"), "wb"); f.write(b"x" * 50); f.seek(1 << 18); f.write(b"y" * 700); f.close()
            fm = rng.choice(["gnu", "posix"])
            if subprocess.run(["tar", "--sparse", "--format=" + fm, "-cf", os.path.join(d, "s.tar"), "-C", q, "."], capture_output=True).returncode == 0:
                with tarfile.open(os.path.join(d, "s.tar")) as tf: isp = any(m.issparse() for m in tf)
                if isp:
                    try: g = get(TarArchiveResourceStorage.create(os.path.join(d, "s.tar")), "s", False)
                    except ERR.CorruptResourceError: g = "corrupt"
                    if g != "corrupt" and g != open(os.path.join(q, "s"), "rb").read(): done(found=True, storage="tar", sparse=fm, expected="file's bytes or CorruptResourceError", got="other bytes")
    finally: shutil.rmtree(d)
for _ in range(rounds): (c08 if what == "C08" else c09)()
done(found=False)
