"""Contracts of archive opening (C08) and of the resource storages (C09)."""
import pyvc.load as L
import z3, os, tarfile, difflib
from pyvc import engine as E, vc
from pyvc.sym import *
from pyvc.loops import *
from pyvc.flat import *
from pyvc.zstr import *
L.install()
import flatdata.lib.archive as AR
import flatdata.lib.resources as R
import flatdata.lib.structure as ST
import flatdata.lib.errors as ERR
import flatdata.lib.file_resource_storage as FS
import flatdata.lib.tar_archive_resource_storage as TS

class Store:
    """Resource storage under contract: get(key) is the stored data, else None / MissingResourceError (C09)."""
    def __init__(self, files): self.files, self.asked = files, []
    def get(self, key, is_optional=False):
        self.asked.append(key)
        v = self.files.get(key)
        if v is not None: return v
        if bool(is_optional): return None
        raise ERR.MissingResourceError(key)

SCHEMAS = ["struct S { }\n", "x", "namespace n { }\u00e9\n"]
KINDS = ["Instance", "Vector", "Multivector", "RawData", "Archive"]

def sig(kind, schema, opt, cls=None):
    S = type("S", (ST.Structure,), dict(_SIZE_IN_BYTES=1, _FIELDS={}, _FIELD_KEYS=set(), _NAME="S"))
    init = {"Instance": S, "Vector": S, "Multivector": [S, S], "RawData": None, "Archive": cls}[kind]
    cont = AR.Archive if kind == "Archive" else getattr(R, kind)
    return AR.ResourceSignature(container=cont, initializer=init, schema=schema, is_optional=opt, doc="doc")

def data(e, nm):
    n = SymInt.var(nm + ".len", lo=0, hi=2 ** 40)
    b = SymBytes(symbuf(nm, 16 + n), 0, mk(16 + n), "bytes")
    return b, n

def open_case(kind, opt, where, storage_kind):
    """One resource in an arbitrary state among others that are in order; where: sorted before / between / after them."""
    eng = E.Engine(f"Archive open: {'optional' if opt else 'mandatory'} {kind} {where}, {storage_kind} schema")
    def driver(e):
        def read_value(d, off, w, s):
            return e.hdr.get(d.buf.arr.get_id(), 0) if isinstance(d, SymBytes) and d.buf.arr is not None else 0
        e.hdr = {}
        e.contracts = {"flatdata.lib.data_access.read_value": read_value}
        e.stubs = {difflib.unified_diff: lambda a, b, *r, **k: iter(["<diff>"])}
        name = {"before": "a_res", "between": "d_res", "after": "z_res"}[where]
        schema = SCHEMAS[e.choose(len(SCHEMAS))]
        files = {}
        def put(nm):
            b, n = data(e, nm); files[nm] = b; e.hdr[b.buf.arr.get_id()] = n
            return b
        res = {}
        res["c_vec"] = sig("Vector", "cs", False); put("c_vec"); files["c_vec.schema"] = b"cs"
        res["e_raw"] = sig("RawData", "es", False); put("e_raw"); files["e_raw.schema"] = b"es"
        inner = None
        if kind == "Archive":
            inner = type("n_Inner", (AR.Archive,), dict(_SCHEMA="ins", _NAME="Inner", _RESOURCES={"Inner.archive": sig("RawData", "ins", False)}))
        res[name] = sig(kind, schema, opt, inner)
        if e.choose(2): res = dict(reversed(list(res.items())))
        # state of the resource under scrutiny
        has_schema = has_data = True
        match = None
        bad_inner = None
        if kind == "Archive":
            has_data = e.choose(2) == 0
            if has_data:
                nf = {}
                bad_inner = e.choose(4)
                if bad_inner != 1: b, n = data(e, "Inner.archive"); nf["Inner.archive"] = b
                if bad_inner != 2: nf["Inner.archive.schema"] = b"ins" if bad_inner != 3 else b"inz"
                files[name] = Store(nf)
        else:
            has_schema = e.choose(2) == 0
            if has_schema:
                ln = SymInt.var("schema.len", lo=0, hi=2 ** 20)
                sb = SymBytes(symbuf("schema", ln), 0, ln, storage_kind)
                files[name + ".schema"] = sb
                enc = schema.encode()
                match = z3.And(ln.int() == len(enc), *[sb.cell(i) == c for i, c in enumerate(enc)])
            dd = e.choose(3 if kind == "Multivector" else 2)
            has_data = dd == 0
            if dd != 1: put(name)
            if kind == "Multivector" and dd != 2: put(name + "_index")
        A = type("n_A", (AR.Archive,), dict(_SCHEMA="as", _NAME="A", _RESOURCES=res))
        st = Store(files)
        e.reach("pre")
        try: a = A(st); out = "ok"
        except ERR.MissingResourceError: out = "MissingResourceError"
        except ERR.SchemaMismatchError: out = "SchemaMismatchError"
        except Exception as ex: out = type(ex).__name__
        state = f"schema {'present' if has_schema else 'absent'}, data {'present' if has_data else 'absent'}, outcome {out}"
        if kind == "Archive":
            if not has_data: want = "ok" if opt else "MissingResourceError"
            else: want = ["ok", "MissingResourceError", "MissingResourceError", "SchemaMismatchError"][bad_inner]
            e.prove("outcome of opening", out == want, state + f" expected {want}")
        elif not has_schema:
            want = "ok" if opt else "MissingResourceError"
            e.prove("outcome of opening without schema", out == want, state)
        else:
            if out == "ok": e.prove("opened only if the schema is exactly the expected one", match, state)
            if mkbool(z3.Not(match)):
                e.prove("a differing schema raises SchemaMismatchError", out == "SchemaMismatchError", state); return
            if has_data: e.prove("opened when schema and data are in order", out == "ok", state)
            elif opt: e.prove("not opened when the data is absent", out != "ok", state)
            else: e.prove("absent data raises MissingResourceError", out == "MissingResourceError", state)
        if out != "ok": return
        absent = not has_data if kind == "Archive" else not has_schema
        for nm in ("c_vec", "e_raw", name):
            r = getattr(a, nm)
            if nm == name and absent: e.prove("an absent optional resource reads as None", r is None); continue
            e.prove("a present resource reads as a resource object", r is not None and isinstance(r, res[nm].container), f"{nm}: {r is None}")
            if nm != name or kind != "Archive":
                m = r._mem
                e.prove("over the stored data", isinstance(m, SymBytes) and m.buf.arr is not None and m.buf.arr.eq(files[nm].buf.arr) and e.implied(z3.And(iterm(m.off) == 0, iterm(m.length) == iterm(files[nm].length))))
                if nm == name and kind == "Multivector":
                    m = r._index._mem
                    e.prove("index over the stored index", m.buf.arr.eq(files[nm + "_index"].buf.arr))
        e.reach("post")
    eng.explore(driver)
    return eng

def none_case():
    """Summaries treat empty resources as present."""
    eng = E.Engine("Archive summary")
    def driver(e):
        e.contracts = {"flatdata.lib.data_access.read_value": lambda d, off, w, s: 0}
        files = {}
        res = {}
        for nm, kind in (("v", "Vector"), ("r", "RawData")):
            b = SymBytes(symbuf(nm, 16), 0, 16, "bytes"); files[nm] = b; files[nm + ".schema"] = b"s"; res[nm] = sig(kind, "s", e.choose(2) == 1)
        res["o"] = sig("Vector", "s", True)
        rows = []
        e.stubs = {AR.pd.DataFrame: lambda data=None, columns=None: rows.append((data, columns))}
        a = type("n_A", (AR.Archive,), dict(_SCHEMA="as", _NAME="A", _RESOURCES=res))(Store(files))
        e.reach("pre")
        e.prove("total size counts empty resources", term(SymInt.of(a.size_in_bytes()) == 32))
    eng.explore(driver)
    return eng

# --- storages (C09) ----------------------------------------------------------------------------------------------------
Z, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()

def join(a, b, *more):
    if bool(mkbool(z3.PrefixOf(z3.StringVal("/"), zs(b)))): r = b
    elif not (a != "") or bool(mkbool(z3.SuffixOf(z3.StringVal("/"), zs(a)))): r = ZStr(zs(a)) + b
    else: r = ZStr(zs(a)) + "/" + b
    return join(r, *more) if more else r

def tar_get_case(opt):
    eng = E.Engine(f"TarArchiveResourceStorage.get[optional={opt}]")
    def driver(e):
        fh = z3.Function("isfile", Z, B); fo = z3.Function("offset", Z, I); fl = z3.Function("size", Z, I); dh = z3.Function("isdir", Z, B)
        n = SymInt.var("tarlen", lo=0)
        tm = SymBytes(symbuf("tar", n), 0, n, "memoryview")
        files, dirs = AbsMap("dict", fh, (fo, fl)), AbsMap("set", dh)
        key = ZStr.var("key"); sub = ZStr.var("sub_path")
        e.input("key", key.t); e.input("sub_path", sub.t)
        e.stubs = {os.path.join: join}
        s = TS.TarArchiveResourceStorage(tm, files, dirs, sub)
        e.assume(z3.And(key.t != z3.StringVal(""), z3.Not(z3.PrefixOf(z3.StringVal("/"), key.t)), z3.Not(z3.SuffixOf(z3.StringVal("/"), sub.t))))
        full = z3.If(sub.t == z3.StringVal(""), key.t, z3.Concat(sub.t, z3.StringVal("/"), key.t))
        e.assume(z3.Implies(fh(full), z3.And(fo(full) >= 0, fl(full) >= 0, fo(full) + fl(full) <= n.it)))
        e.reach("pre")
        try: r = s.get(key, opt) if e.choose(2) else (s.get(key, is_optional=opt) if opt else s.get(key))
        except ERR.MissingResourceError:
            e.prove("missing-resource error exactly for an absent mandatory name", z3.And(z3.Not(fh(full)), z3.Not(dh(full)), not opt)); return
        except Exception as ex: e.fail("no other error", f"{type(ex).__name__}: {ex}"); return
        if r is None: e.prove("None exactly for an absent optional name", z3.And(z3.Not(fh(full)), z3.Not(dh(full)), z3.BoolVal(opt)))
        elif isinstance(r, SymBytes):
            e.prove("bytes are returned for a file", fh(full))
            e.prove("exactly the file's bytes", z3.And(r.buf.arr is tm.buf.arr, iterm(r.length) == fl(full), z3.Or(fl(full) == 0, iterm(r.off) == fo(full))))
        elif isinstance(r, TS.TarArchiveResourceStorage):
            e.prove("a storage is returned for a directory", z3.And(dh(full), z3.Not(fh(full))))
            e.prove("nested storage over the same archive", r.tar_map is tm and r.file_entries is files and r.dir_entries is dirs)
            e.prove("nested storage resolves relative to the directory", r.sub_path == ZStr(full))
        else: e.fail("bytes, a storage or None", type(r).__name__)
        e.reach("post")
    eng.explore(driver)
    return eng

def file_get_case(opt):
    eng = E.Engine(f"FileResourceStorage.get[optional={opt}]")
    def driver(e):
        fh, dh = z3.Function("isfile", Z, B), z3.Function("isdir", Z, B)
        key, path = ZStr.var("key"), ZStr.var("path")
        e.input("key", key.t); e.input("path", path.t)
        S = z3.StringVal
        e.assume(z3.And(key.t != S(""), z3.Not(z3.PrefixOf(S("/"), key.t)), path.t != S(""), z3.Not(z3.SuffixOf(S("/"), path.t))))
        full = z3.Concat(path.t, S("/"), key.t)
        e.assume(z3.Not(z3.And(fh(full), dh(full))))
        class Contents:
            def __init__(self, p): self.p = p
        e.contracts = {"flatdata.lib.file_resource_storage.FileResourceStorage.memory_map": lambda *a: Contents(a[-1])}
        e.stubs = {os.path.join: join, os.path.exists: lambda p: mkbool(z3.Or(fh(zs(p)), dh(zs(p)))), os.path.isfile: lambda p: mkbool(fh(zs(p))),
                   os.path.isdir: lambda p: mkbool(dh(zs(p))), os.path.lexists: lambda p: mkbool(z3.Or(fh(zs(p)), dh(zs(p))))}
        s = FS.FileResourceStorage(path)
        e.reach("pre")
        try: r = s.get(key, opt)
        except ERR.MissingResourceError:
            e.prove("missing-resource error exactly for an absent mandatory name", z3.And(z3.Not(fh(full)), z3.Not(dh(full)), not opt)); return
        except Exception as ex: e.fail("no other error", f"{type(ex).__name__}: {ex}"); return
        if r is None: e.prove("None exactly for an absent optional name", z3.And(z3.Not(fh(full)), z3.Not(dh(full)), z3.BoolVal(opt)))
        elif isinstance(r, Contents): e.prove("exactly the file's bytes", z3.And(fh(full), zs(r.p) == full))
        elif isinstance(r, FS.FileResourceStorage): e.prove("nested storage for the directory", z3.And(dh(full), zs(r.path) == full))
        else: e.fail("bytes, a storage or None", type(r).__name__)
        e.reach("post")
    eng.explore(driver)
    return eng

def map_case():
    eng = E.Engine("FileResourceStorage.memory_map")
    def driver(e):
        import mmap
        log = []
        class F:
            def fileno(self): return 7
            def close(self): pass
            def __enter__(self): return self
            def __exit__(self, *a): pass
        e.stubs = {open: lambda p, mode="r", *a, **k: (log.append(("open", p, mode)), F())[1], mmap.mmap: lambda fd, ln, *a, **k: (log.append(("map", fd, ln, k.get("access"), a)), "MAP")[1]}
        e.reach("pre")
        r = FS.FileResourceStorage.memory_map("/p/f")
        e.prove("maps the whole of the named file read-only", r == "MAP" and [x[:2] for x in log] == [("open", "/p/f"), ("map", 7)] and log[1][2] == 0 and log[1][3] == mmap.ACCESS_READ, str(log))
    eng.explore(driver)
    return eng

class MapIs(Cand):
    name = "table at the probe name is decided by the entries before k"
    def __init__(self, f): self.f = f
    def _t(self, k): return self.f(k)
    def entry_ok(self, loop, v0):
        p, vs = self._t(0)
        return loop.e.implied(z3.And(v0.pres == p, *[z3.Implies(p, a == b) for a, b in zip(v0.val, vs)]))
    def make(self, loop, v0, k):
        g = v0.vc_arbitrary()
        p, vs = self._t(k)
        g.pres = p
        if vs: g.val = vs
        return g
    def holds(self, loop, v, k):
        p, vs = self._t(k)
        return loop.e.implied(z3.And(v.pres == p, *[z3.Implies(p, a == b) for a, b in zip(v.val, vs)]))

def tar_create_case():
    """create(): after indexing, a name maps to the last regular entry of that (normalised) name; directories likewise."""
    eng = E.Engine("TarArchiveResourceStorage.create")
    def driver(e):
        S = z3.StringVal
        P = z3.String("probe")
        n = SymInt.var("entries", lo=0)
        NAME = z3.Function("name", I, Z); REG = z3.Function("isreg", I, B); DIR = z3.Function("isdir", I, B); SPARSE = z3.Function("sparse", I, B); OLDSPARSE = z3.Function("oldsparse", I, B)
        w = SymInt.var("witness", lo=0); e.assume(z3.Or(n.it == 0, w.it < n.it)); last = []
        OFF = z3.Function("data_offset", I, I); SZ = z3.Function("data_size", I, I)
        FH = z3.Function("FH", I, B); FO = z3.Function("FO", I, I); FL = z3.Function("FL", I, I); DH = z3.Function("DH", I, B)
        e.assume(z3.And(z3.Not(FH(0)), z3.Not(DH(0))))
        def norm(k):
            t = NAME(k)
            return z3.If(z3.PrefixOf(S("./"), t), z3.SubString(t, 2, z3.Length(t) - 2), t)
        def unfold(k):
            k = iterm(k)
            hit = z3.And(REG(k), norm(k) == P)
            e.assume(z3.And(FH(k + 1) == z3.Or(FH(k), hit), FO(k + 1) == z3.If(hit, OFF(k), FO(k)), FL(k + 1) == z3.If(hit, SZ(k), FL(k)),
                            DH(k + 1) == z3.Or(DH(k), z3.And(DIR(k), norm(k) == P, norm(k) != S(".")))))
            e.assume(z3.Not(z3.And(REG(k), DIR(k))))
        class Entry:
            def __init__(self, k): self._k = iterm(k); self.name = ZStr(NAME(self._k)); self.offset_data = SymInt(it=OFF(self._k)); self.size = SymInt(it=SZ(self._k))
            @property
            def type(self): return tarfile.GNUTYPE_SPARSE if mkbool(z3.And(SPARSE(self._k), OLDSPARSE(self._k))) else (tarfile.DIRTYPE if mkbool(DIR(self._k)) else tarfile.REGTYPE if mkbool(REG(self._k)) else tarfile.SYMTYPE)
            def isreg(self): return mkbool(REG(self._k))
            isfile = isreg
            def issparse(self): return mkbool(SPARSE(self._k))
            def isdir(self): return mkbool(DIR(self._k))
        def at(k):
            unfold(k)
            e.assume(z3.Implies(SPARSE(iterm(k)), REG(iterm(k))))
            last[:] = [iterm(k)]
            return Entry(k)
        class Tar(Sym):
            def vc_seq(self): return SymSeq(n, at, ("tar",))
            def getmembers(self): return SymSeq(n, at, ("tar",))
            def __enter__(self): return self
            def __exit__(self, *a): return False
            def close(self): pass
        maps = []
        e.stubs = {tarfile.open: lambda p, mode="r", *a, **k: (e.prove("uncompressed read mode", mode in ("r:", "r") and p == "t.tar"), Tar())[1]}
        def mkd(*a):
            if a and a[0]: raise Unsupported("dict of something")
            m = GhostMap(P, "dict"); maps.append(m); return m
        def mks(x=()):
            if x: raise Unsupported("set of something")
            m = GhostMap(P, "set", 0); maps.append(m); return m
        e.stubs[dict] = mkd
        e.dict_hook = lambda d: mkd() if d == {} else d
        e.set_hook = mks
        tm = SymBytes(symbuf("tar", SymInt.var("len", lo=0)), 0, SymInt.var("len", lo=0), "bytes")
        e.contracts = {"flatdata.lib.file_resource_storage.FileResourceStorage.memory_map": lambda *a: tm}
        def cands(loop, path, kind, v0):
            if loop.tag == ("tar",) and isinstance(v0, GhostMap):
                if v0.kind == "dict": yield MapIs(lambda k: (FH(iterm(k)), (FO(iterm(k)), FL(iterm(k)))))
                else: yield MapIs(lambda k: (DH(iterm(k)), ()))
        e.candidates = cands
        e.facts = lambda loop: [Fact("no sparse entry is passed over", lambda k: mkbool(z3.Not(SPARSE(iterm(k)))), [w])] if loop.tag == ("tar",) else []
        sub = ZStr.var("sub")
        e.reach("pre")
        try: s = TS.TarArchiveResourceStorage.create("t.tar", sub)
        except ERR.CorruptResourceError: e.prove("corrupt only for sparse files", SPARSE(last[0]) if last else z3.BoolVal(False)); return
        except Exception as ex: e.fail("no other error", f"{type(ex).__name__}: {ex}"); return
        e.prove("no sparse file is accepted", z3.Implies(n.it > 0, z3.Not(SPARSE(w.it))))
        e.prove("maps the tar file", isinstance(s.tar_map, SymBytes) and s.tar_map.buf.arr.eq(tm.buf.arr))
        e.prove("keeps the sub path", s.sub_path == sub)
        f, d = s.file_entries, s.dir_entries
        ok = isinstance(f, GhostMap) and isinstance(d, GhostMap)
        e.prove("file table: a name is present iff an entry has it, and gives the last one's data", ok and z3.And(f.pres == FH(n.it), z3.Implies(f.pres, z3.And(f.val[0] == FO(n.it), f.val[1] == FL(n.it)))))
        e.prove("directory table: a name is present iff a directory entry has it", ok and d.pres == DH(n.it))
        e.reach("post")
    eng.explore(driver)
    return eng
