"""Contracts of the archive builder (shared by C03, C04, C05)."""
import pyvc.load as L
import z3
from pyvc import engine as E
from pyvc.sym import *
from pyvc.loops import *
from pyvc.flat import *
L.install()
import flatdata.lib.archive_builder as AB
import flatdata.lib.resource_storage as RS
import flatdata.lib.resources as R
import flatdata.lib.errors as ERR

INR = None

class Recorder:
    """Stands for the injected writer: records what is handed to the disk layer."""
    def __init__(self): self.log = []
    def create_instance(self): return _Rec(self)
class _Rec:
    def __init__(self, owner): self.owner, self.name, self.chunks, self.closed = owner, None, [], 0
    def open(self, name, path):
        self.name, self.path = name, path
        self.owner.log.append(self)
    def write(self, data): self.chunks.append(data.copy("bytes") if isinstance(data, Sym) else bytes(data))
    def close(self): self.closed += 1
    def data(self):
        r = Rope([], "bytes")
        for c in self.chunks: r = r + Rope.of(c)
        return r

def setup(e):
    """write_value contract; predicate 'in range'."""
    e.inr = z3.Function("in_range", z3.IntSort(), z3.BoolSort(), z3.IntSort(), z3.BoolSort())
    e.dec_shift = 0
    def write_value(data, offset_bits, num_bits, is_signed, value):
        if not isinstance(data, GhostBuf): raise Unsupported("write_value on something that is not a record buffer")
        off, w = SymInt.of(offset_bits), SymInt.of(num_bits)
        e.prove("write_value precondition: field inside the buffer", all_(off >= 0, w >= 1, w <= 64, SymInt.of(off + w) <= SymInt.of(data.length) * 8))
        e.prove("write_value precondition: value in range", e.inr(iterm(w), term(is_signed), iterm(value)))
        data.write(off, w, is_signed, value)
    e.contracts = {"flatdata.lib.data_access.write_value": write_value}
    e.zero_buffer = lambda n, kind: GhostBuf(n, kind)
    e.regions = {}

def rec_class(st, name): return type("Rec_" + name, (object,), dict(_SIZE_IN_BYTES=st.size, _SIZE_IN_BITS=st.size * 8, _FIELDS=st.FIELDS, _FIELD_KEYS=KeySet(st), _NAME=name, _SCHEMA="struct"))

class Rec(SymRecord):
    def value(self, k):
        e = E.cur()
        self.st.wf(k)
        v = self.val(iterm(self.ident), iterm(k))
        e.assume(e.inr(self.st.wid(iterm(k)), self.st.sgn(iterm(k)), v))
        return SymInt(it=v)

class FieldsWritten(Cand):
    """After k fields: field j (arbitrary, fixed) holds its value if j < k; the tag byte is as at loop entry."""
    name = "fields before k hold their values"
    def __init__(self, j, rec): self.j, self.rec = j, rec
    def entry_ok(self, loop, v0):
        self.v0 = v0.copy(v0.kind)
        return True
    def make(self, loop, v0, k):
        g = v0.vc_arbitrary()
        want = self.rec.val(iterm(self.rec.ident), iterm(self.j))
        if "j" in g.tracked: g.tracked["j"][3] = z3.If(iterm(self.j) < iterm(k), want, g.tracked["j"][3])
        if "tag" in g.tracked: g.tracked["tag"][3] = self.v0.tracked["tag"][3]
        return g
    def holds(self, loop, v, k):
        e = loop.e
        want = self.rec.val(iterm(self.rec.ident), iterm(self.j))
        r = z3.BoolVal(True)
        if "j" in v.tracked: r = z3.And(r, z3.Implies(iterm(self.j) < iterm(k), v.tracked["j"][3] == want))
        if "tag" in v.tracked: r = z3.And(r, v.tracked["tag"][3] == self.v0.tracked["tag"][3])
        return e.implied(r)

def is_buf(v):
    return isinstance(v, Rope) and v.kind == "bytearray" or isinstance(v, SymBytes) and v.kind == "bytearray"

class Payload(Cand):
    """A byte buffer is base ++ prefix(k);  each iteration appends exactly chunk(k)."""
    def __init__(self, name, prefix, chunk_ok, final=None):
        self.name, self.prefix, self.chunk_ok = name, prefix, chunk_ok
    def entry_ok(self, loop, v0):
        self.base = list(Rope.of(v0).pieces)
        return True
    def make(self, loop, v0, k):
        if isinstance(k, int) and k == 0: return Rope(list(self.base), "bytearray")
        return Rope(self.base + [self.prefix(k)], "bytearray")
    def holds(self, loop, v, k):
        e = loop.e
        r = Rope.of(v)
        if r is None: return False
        want = self.base + [self.prefix(loop.k)]
        a = norm_pieces(r, e)
        w = norm_pieces(Rope(want, "bytes"), e)
        if len(a) < len(w) or not all(piece_eq(x, y, e) for x, y in zip(a, w)): return False
        return self.chunk_ok(loop, a[len(w):], k)

def make_builder(e, resources, name="Arch"):
    cls = type("TestBuilder", (AB.ArchiveBuilder,), dict(_NAME=name, _SCHEMA="archive-schema \u00e4", _RESOURCES=resources))
    rec = Recorder()
    b = cls(RS.ResourceStorage(rec, "/some/path"))
    return b, rec

def sig(container, initializer, schema="schema-of-res \u20ac", opt=False):
    return AB.ResourceSignature(container=container, initializer=initializer, schema=schema, is_optional=opt, doc="")

def check_log(e, rec, want):
    """want: list of (name, rope or None) in any order; every name written exactly once and closed."""
    got = {}
    for r in rec.log:
        e.prove(f"resource stored once", r.name not in got, r.name)
        got[r.name] = r
    e.prove("exactly the expected resources are stored", sorted(got) == sorted(want), f"{sorted(got)} vs {sorted(want)}")
    for n, rope in want.items():
        if n not in got: continue
        e.prove(f"stored data complete", got[n].closed == 1, n)
        ok = rope_eq(got[n].data(), rope, e)
        role = "schema" if n.endswith(".schema") else "index" if n.endswith("_index") else "signature" if n.endswith(".archive") else "resource"
        e.prove(f"{role} bytes are exactly as specified", ok, f"{n}: {got[n].data()} expected {rope}")

def base_want():
    return {"Arch.archive": Rope.of(b"\0" * 16), "Arch.archive.schema": Rope.of("archive-schema \u00e4".encode())}

def framed(payload):
    r = Rope.of(payload)
    n = r.vc_len()
    return le8(n) + r + Rope.of(b"\0" * 8)

# ---------------------------------------------------------------------------------------------------------------------
def vector_case():
    eng = E.Engine("ArchiveBuilder.set[vector]")
    def driver(e):
        setup(e)
        st = SymStruct("S", SymInt.var("size", lo=1, hi=2 ** 30))
        n = SymInt.var("n", lo=0, hi=2 ** 30)
        e.input("n", n); e.input("size", st.size)
        j = SymInt.var("j", lo=0); e.assume(term(j < st.m)); st.wf(j)
        e.regions = {"j": (st.off(j.it), st.wid(j.it), st.sgn(j.it))}
        state = {}
        def at(k):
            r = Rec(st, k); state["rec"] = r
            return r
        vec = SymSeq(n, at, ("vector",))
        def chunk_ok(loop, pieces, k):
            if len(pieces) != 1 or not isinstance(pieces[0], GPiece): return False
            g = pieces[0].g
            return e.implied(z3.And(iterm(g.length) == iterm(st.size), g.tracked["j"][3] == state["rec"].val(iterm(loop.k), j.it)))
        def cands(loop, path, kind, v0):
            t = loop.tag
            if t[0] == "fields" and isinstance(v0, GhostBuf) and "rec" in state: yield FieldsWritten(j, state["rec"])
            if t[0] == "vector" and is_buf(v0):
                yield Payload("payload is the records before k", lambda k: Opaque(("vec", k), mk(SymInt.of(k) * st.size)), chunk_ok)
        e.candidates = cands
        b, rec = make_builder(e, {"Arch.archive": sig(R.RawData, None), "res": sig(R.Vector, rec_class(st, "S")), "other": sig(R.RawData, None)})
        e.reach("pre")
        try: b.set("res", vec)
        except Exception as ex:
            e.fail("no exception for valid data", f"{type(ex).__name__}: {ex}"); return
        want = base_want()
        want["res.schema"] = Rope.of("schema-of-res \u20ac".encode())
        pl = Rope([Opaque(("vec", n), mk(n * st.size))], "bytes")
        want["res"] = framed(pl)
        check_log(e, rec, want)
        e.reach("post")
    eng.explore(driver)
    return eng

def instance_case():
    eng = E.Engine("ArchiveBuilder.set[instance]")
    def driver(e):
        setup(e)
        st = SymStruct("S", SymInt.var("size", lo=1, hi=2 ** 30))
        j = SymInt.var("j", lo=0); e.assume(term(j < st.m)); st.wf(j)
        e.regions = {"j": (st.off(j.it), st.wid(j.it), st.sgn(j.it))}
        r = Rec(st, 0)
        def cands(loop, path, kind, v0):
            if loop.tag[0] == "fields" and isinstance(v0, GhostBuf): yield FieldsWritten(j, r)
        e.candidates = cands
        b, rec = make_builder(e, {"res": sig(R.Instance, rec_class(st, "S")), "other": sig(R.RawData, None)})
        e.reach("pre")
        try: b.set("res", r)
        except Exception as ex:
            e.fail("no exception for valid data", f"{type(ex).__name__}: {ex}"); return
        got = [x for x in rec.log if x.name == "res"]
        if not got: e.fail("resource stored", ""); return
        ps = [p for p in got[0].data().pieces]
        gs = [p for p in ps if isinstance(p, GPiece)]
        e.prove("payload is one record", len(gs) == 1)
        if len(gs) != 1: return
        g = gs[0].g
        e.prove("record has the structure's size", term(SymInt.of(g.length) == st.size))
        e.prove("field j decodes to the given value", g.tracked["j"][3] == r.val(z3.IntVal(0), j.it))
        want = base_want()
        want["res.schema"] = Rope.of("schema-of-res \u20ac".encode())
        want["res"] = le8(st.size) + Rope([gs[0]], "bytes") + Rope.of(b"\0" * 8)
        check_log(e, rec, want)
        e.reach("post")
    eng.explore(driver)
    return eng

def raw_case(kind):
    eng = E.Engine(f"ArchiveBuilder.set[raw data,{kind}]")
    def driver(e):
        setup(e)
        n = SymInt.var("n", lo=0, hi=2 ** 60)
        e.input("n", n)
        data = SymBytes(symbuf("data", n), 0, n, kind)
        b, rec = make_builder(e, {"res": sig(R.RawData, None), "other": sig(R.RawData, None)})
        e.reach("pre")
        try: b.set("res", data)
        except Exception as ex:
            e.fail("no exception for valid data", f"{type(ex).__name__}: {ex}"); return
        want = base_want()
        want["res.schema"] = Rope.of("schema-of-res \u20ac".encode())
        want["res"] = framed(Rope([Piece(data)], "bytes"))
        check_log(e, rec, want)
        e.reach("post")
    eng.explore(driver)
    return eng

def multivector_case(scrutiny, ntypes, idxsize):
    """ntypes element structures; elements of any of the types in scrutiny, mixed freely."""
    eng = E.Engine(f"ArchiveBuilder.set[multivector,{ntypes} types,elements of {scrutiny},index {idxsize}B]")
    def driver(e):
        setup(e)
        sts = {i: SymStruct(f"S{i}", SymInt.var(f"size{i}", lo=1, hi=2 ** 30)) for i in scrutiny}
        names = [f"ns_S{i}" for i in range(ntypes)]
        I = z3.IntSort()
        m = SymInt.var("m", lo=0, hi=2 ** 30)              # items
        cnt = z3.Function("count", I, I)
        TYPE = z3.Function("type", I, I, I)
        OFF = z3.Function("off", I, I)            # offset of item k
        IOFF = z3.Function("ioff", I, I, I)       # bytes of first l elements of item k
        def size_at(k, l):
            r = iterm(sts[scrutiny[-1]].size)
            for i in scrutiny[:-1]: r = z3.If(TYPE(k, l) == i, iterm(sts[i].size), r)
            return r
        e.assume(OFF(z3.IntVal(0)) == 0)
        e.assume(z3.And(OFF(m.it) >= 0, OFF(m.it) < min(2 ** (8 * idxsize), 2 ** 62)))          # >= 0: lemma; precondition: the payload fits the index width
        e.input("items", m)
        js = {i: SymInt.var(f"j{i}", lo=0) for i in scrutiny}
        for i in scrutiny:
            e.assume(term(js[i] < sts[i].m)); sts[i].wf(js[i])
        st0, j0 = sts[scrutiny[0]], js[scrutiny[0]]
        e.regions = {"j": (z3.IntVal(0), z3.IntVal(8), z3.BoolVal(False)), "tag": (z3.IntVal(0), z3.IntVal(8), z3.BoolVal(False))}
        state = {}
        def elem(k, l):
            kk, ll = iterm(k), iterm(l)
            ty = scrutiny[-1]
            for i in scrutiny[:-1]:
                if mkbool(TYPE(kk, ll) == i): ty = i; break
            st, j = sts[ty], js[ty]
            r = Rec(st, "rec")
            r.ident = SymInt(it=z3.Function("recid", I, I, I)(kk, ll))
            e.assume(IOFF(kk, ll + 1) == IOFF(kk, ll) + 1 + size_at(kk, ll))
            e.regions = {"j": (st.off(j.it) + 8, st.wid(j.it), st.sgn(j.it)), "tag": (z3.IntVal(0), z3.IntVal(8), z3.BoolVal(False))}
            state.update(rec=r, st=st, j=j, ty=ty)
            return {"name": names[ty], "attributes": r}
        def item(k):
            ck = SymInt(it=cnt(iterm(k)))
            e.assume(z3.And(ck.it >= 0, ck.it < 2 ** 30))
            e.assume(IOFF(iterm(k), z3.IntVal(0)) == 0)
            e.assume(IOFF(iterm(k), ck.it) >= 0)
            e.assume(OFF(iterm(k) + 1) == OFF(iterm(k)) + IOFF(iterm(k), ck.it))
            e.assume(z3.And(OFF(iterm(k)) >= 0, OFF(iterm(k)) <= OFF(m.it)))       # lemma: OFF is monotone (sum of non-negative terms)
            return SymSeq(ck, lambda l: elem(k, l), ("item", k))
        # the induction steps behind: 0 <= IOFF(k,l), 0 <= OFF(k) <= OFF(m)
        lk, ll = z3.Ints("lk ll")
        step = z3.And(IOFF(lk, ll + 1) == IOFF(lk, ll) + 1 + size_at(lk, ll), OFF(lk + 1) == OFF(lk) + IOFF(lk, cnt(lk)))
        e.prove("lemma: element offsets are non-negative (step)", z3.Implies(z3.And(step, IOFF(lk, ll) >= 0), IOFF(lk, ll + 1) >= 0))
        e.prove("lemma: item offsets are non-negative (step)", z3.Implies(z3.And(step, IOFF(lk, cnt(lk)) >= 0, OFF(lk) >= 0), OFF(lk + 1) >= 0))
        e.prove("lemma: item offsets are at most the total (downward step)", z3.Implies(z3.And(step, IOFF(lk, cnt(lk)) >= 0, OFF(lk + 1) <= OFF(m.it)), OFF(lk) <= OFF(m.it)))
        val = SymSeq(m, item, ("mv",))
        def chunk_elem(loop, pieces, k):
            if len(pieces) != 1 or not isinstance(pieces[0], GPiece): return False
            g = pieces[0].g
            r = state["rec"]
            return e.implied(z3.And(iterm(g.length) == iterm(state["st"].size) + 1, g.tracked["tag"][3] == state["ty"],
                                    g.tracked["j"][3] == r.val(iterm(r.ident), state["j"].it)))
        def chunk_item(loop, pieces, k):
            kk = loop.k
            c = SymInt(it=cnt(iterm(kk)))
            if len(pieces) == 0: return e.implied(IOFF(iterm(kk), c.it) == 0)
            return len(pieces) == 1 and isinstance(pieces[0], Opaque) and tag_eq(pieces[0].tag, ("item", kk, c), e)
        def offs(q):
            e.assume(z3.And(OFF(iterm(q)) >= 0, OFF(iterm(q)) <= OFF(m.it)))       # lemma (above)
            return SymInt(it=OFF(iterm(q)))
        def chunk_idx(loop, pieces, k):
            e.assume(z3.And(OFF(iterm(loop.k)) >= 0, OFF(iterm(loop.k)) <= OFF(m.it)))
            return len(pieces) == 1 and isinstance(pieces[0], LE) and pieces[0].order == "little" and \
                e.implied(z3.And(iterm(pieces[0].length) == idxsize, iterm(pieces[0].x) == OFF(iterm(loop.k))))
        def is_int(v): return isinstance(v, (int, SymInt)) and not isinstance(v, bool)
        def cands(loop, path, kind, v0):
            tg = loop.tag
            if tg[0] == "fields" and isinstance(v0, GhostBuf) and "rec" in state: yield FieldsWritten(state["j"], state["rec"])
            if tg[0] == "mv":
                if is_buf(v0): yield Payload("payload is the items before k", lambda k: Opaque(("mv", k), SymInt(it=OFF(iterm(k)))), chunk_item)
                if is_int(v0): yield IntIs("offset of item k", lambda k: SymInt(it=OFF(iterm(k))))
                if isinstance(v0, TrackedList): yield ListIs("list of the item offsets before k", offs)
            if tg[0] == "item":
                kk = tg[1]
                if is_buf(v0): yield Payload("payload grows by the elements before l", lambda l: Opaque(("item", kk, l), SymInt(it=IOFF(iterm(kk), iterm(l)))), chunk_elem)
                if is_int(v0):
                    yield IntIs("offset of element l", lambda l: SymInt(it=OFF(iterm(kk)) + IOFF(iterm(kk), iterm(l))))
                    yield IntIs("bytes before element l", lambda l: SymInt(it=IOFF(iterm(kk), iterm(l))))
            if has_tag(tg, "offs") and is_buf(v0):
                yield Payload("index payload is the offsets before q", lambda q: Opaque(("idx", q), mk(SymInt.of(q) * idxsize)), chunk_idx)
        e.candidates = cands
        inits = [type("Idx", (object,), dict(_SIZE_IN_BYTES=idxsize, _NAME="idx"))]
        for i in range(ntypes):
            if i in sts: inits.append(rec_class(sts[i], names[i]))
            else: inits.append(type(f"O{i}", (object,), dict(_SIZE_IN_BYTES=1 + i % 7, _NAME=names[i], _FIELDS={}, _FIELD_KEYS=set())))
        b, rec = make_builder(e, {"res": sig(R.Multivector, inits), "other": sig(R.RawData, None)})
        e.reach("pre")
        try: b.set("res", val)
        except Exception as ex:
            e.fail("no exception for valid data", f"{type(ex).__name__}: {ex}"); return
        want = base_want()
        sch = "schema-of-res \u20ac"
        want["res.schema"] = Rope.of(sch.encode())
        want["res_index.schema"] = Rope.of(f"index({sch})".encode())
        want["res"] = framed(Rope([Opaque(("mv", m), SymInt(it=OFF(m.it)))], "bytes"))
        n1 = mk(m + 1)
        want["res_index"] = framed(Rope([Opaque(("idx", n1), mk(SymInt.of(n1) * idxsize))], "bytes"))
        check_log(e, rec, want)
        e.reach("post")
    eng.explore(driver)
    return eng

def has_tag(tg, t):
    return isinstance(tg, tuple) and any(x == t if isinstance(x, str) else has_tag(x, t) for x in tg)

# --- rejection (C05) -------------------------------------------------------------------------------------------------
class BadRec(Rec):
    """A record that misses field i and/or has an extra key x."""

def reject_case(container, fault):
    eng = E.Engine(f"ArchiveBuilder.set[{container} with {fault}]")
    def driver(e):
        setup(e)
        st = SymStruct("S", SymInt.var("size", lo=1, hi=2 ** 30))
        st2 = SymStruct("T", SymInt.var("size2", lo=1, hi=2 ** 30))
        n = SymInt.var("n", lo=0, hi=2 ** 30)
        bad_k = SymInt.var("bad_index", lo=0); bad_l = SymInt.var("bad_elem", lo=0)
        mi = SymInt.var("missing_field", lo=0); e.assume(term(mi < st.m))
        xi = SymInt.var("extra_key", lo=0)
        for a, b2 in (("n", n), ("bad_index", bad_k), ("bad_elem", bad_l)): e.input(a, b2)
        state = {}
        bad = Rec(st, 0, exact=False)
        if fault in ("missing field", "both"): e.assume(z3.Not(bad.has(mi)))
        if fault in ("extra field", "both"): e.assume(z3.And(xi.it < bad.nkeys.it, bad.isextra(xi.it)))
        if fault == "missing field": bad.no_extra = True
        if fault == "extra field": bad.all_given = True
        def rec_at(k, isbad):
            if fault != "unknown structure" and isbad: state["rec"] = bad; return bad
            r = Rec(st, SymInt.var("good")); state["rec"] = r; return r
        def named(k, l):
            isbad = mkbool(z3.And(iterm(k) == bad_k.it, iterm(l) == bad_l.it))
            if isbad:
                if fault == "unknown structure": return {"name": BADNAMES[e.choose(len(BADNAMES))], "attributes": Rec(st, SymInt.var("good"))}
                return {"name": "ns_S", "attributes": rec_at(l, True)}
            if e.choose(2): return {"name": "ns_T", "attributes": Rec(st2, SymInt.var("good"))}
            return {"name": "ns_S", "attributes": rec_at(l, False)}
        if container == "vector":
            e.assume(term(bad_k < n))
            val = SymSeq(n, lambda k: rec_at(k, bool(SymInt.of(k) == bad_k)), ("vector",)); s = sig(R.Vector, rec_class(st, "S"))
        elif container == "instance":
            val = bad; state["rec"] = bad; s = sig(R.Instance, rec_class(st, "S"))
        else:
            e.assume(term(bad_k < n))
            cnt = z3.Function("count", z3.IntSort(), z3.IntSort())
            e.assume(bad_l.it < cnt(bad_k.it))
            def item(k):
                c = SymInt(it=cnt(iterm(k))); e.assume(z3.And(c.it >= 0, c.it < 2 ** 30))
                return SymSeq(c, lambda l: named(k, l), ("item", k))
            val = SymSeq(n, item, ("mv",))
            s = sig(R.Multivector, [type("Idx", (object,), dict(_SIZE_IN_BYTES=4, _NAME="idx")), rec_class(st, "ns_S"), rec_class(st2, "ns_T")])
        def facts(loop):
            t = loop.tag
            if has_tag(t, "vector") or has_tag(t, "mv"): return [Fact("the malformed record is not passed over", lambda k: mkbool(iterm(k) != bad_k.it), [bad_k])]
            if has_tag(t, "item"):
                q = t
                while q[0] != "item": q = q[0] if isinstance(q[0], tuple) else q[1]
                kk = q[1]
                return [Fact("the malformed element is not passed over", lambda l: mkbool(z3.Not(z3.And(iterm(kk) == bad_k.it, iterm(l) == bad_l.it))), [bad_l])]
            r = state.get("rec")
            if r is bad and (has_tag(t, "keys") or has_tag(t, "fields")): return [Fact("fields checked so far are given", lambda k: mkbool(r.has(k)), [mi])]
            if r is bad and has_tag(t, "reckeys"): return [Fact("keys checked so far are fields", lambda k: mkbool(z3.Not(r.isextra(iterm(k)))), [xi])]
            return []
        e.facts = facts
        def instances(t):
            if has_tag(t, "vector") or has_tag(t, "mv"): return [bad_k]
            if has_tag(t, "item"): return [bad_l]
            if has_tag(t, "keys") or has_tag(t, "fields"): return [mi]
            if has_tag(t, "reckeys"): return [xi]
            return []
        install_quantifiers(e, instances)
        b, rec = make_builder(e, {"res": s, "other": sig(R.RawData, None)})
        e.reach("pre")
        ok = {"missing field": ("MissingFieldError",), "extra field": ("UnknownFieldError",), "unknown structure": ("UnknownStructureError",), "both": ("MissingFieldError", "UnknownFieldError")}[fault]
        try: b.set("res", val)
        except Exception as ex:
            nm = type(ex).__name__
            if nm in ok: e.prove("the corresponding error is raised", True); e.reach("post"); return
            e.fail("the corresponding error is raised", f"{nm}: {ex}"); return
        e.fail("malformed data is refused", "set() returned normally")
    eng.explore(driver)
    return eng

BADNAMES = ["", "S", "ns_Q", "ns_S_", "ns_s", "idx"]

def unknown_case():
    """Unknown and repeated resources: error, and nothing stored changes."""
    eng = E.Engine("ArchiveBuilder.set[unknown or repeated resource]")
    def driver(e):
        setup(e)
        n = SymInt.var("n", lo=0, hi=2 ** 40)
        mk_data = lambda nm: SymBytes(symbuf(nm, n), 0, n, "bytes")
        st = SymStruct("S", SymInt.var("size", lo=1, hi=2 ** 30))
        inits = [type("Idx", (object,), dict(_SIZE_IN_BYTES=4, _NAME="idx")), rec_class(st, "ns_S")]
        res = {"Arch.archive": sig(R.RawData, None), "raw": sig(R.RawData, None), "inst": sig(R.Instance, rec_class(st, "S")),
               "vec": sig(R.Vector, rec_class(st, "S")), "mv": sig(R.Multivector, inits)}
        b, rec = make_builder(e, res)
        vals = {"raw": mk_data("d0"), "inst": Rec(st, 0), "vec": [], "mv": []}
        names = list(vals)
        first = names[e.choose(len(names))]
        e.reach("pre")
        try: b.set(first, vals[first])
        except Exception as ex:
            e.fail("first set is accepted", f"{first}: {type(ex).__name__}: {ex}"); return
        other = e.choose(3)
        if other:
            second = [x for x in names if x != first][other - 1]
            try: b.set(second, vals[second])
            except Exception as ex:
                e.fail("first set of another resource is accepted", f"{second}: {type(ex).__name__}: {ex}"); return
        snap = snapshot(rec)
        what = e.choose(2)
        if what == 0:
            try: b.set(first, vals[first]); e.fail("a repeated resource is refused", first); return
            except ERR.ResourceAlreadySetError: e.prove("repeated resource raises ResourceAlreadySetError", True)
            except Exception as ex: e.fail("repeated resource raises ResourceAlreadySetError", f"{type(ex).__name__}: {ex}"); return
        else:
            nm = ("", "nope", "Raw", "raw ", "raw.schema", "mv_index", "Arch", "Arch.archive.schema")[e.choose(8)]
            try: b.set(nm, vals[first]); e.fail("an unknown resource is refused", nm); return
            except ERR.UnknownResourceError: e.prove("unknown resource raises UnknownResourceError", True)
            except Exception as ex: e.fail("unknown resource raises UnknownResourceError", f"{type(ex).__name__}: {ex}"); return
        s2 = snapshot(rec)
        e.prove("nothing stored so far changes", len(s2) == len(snap) and all(a[0] == c[0] and a[1] == c[1] and a[2] == c[2] for a, c in zip(snap, s2)),
                f"{[x[0] for x in snap]} -> {[x[0] for x in s2]}")
        e.reach("post")
    eng.explore(driver)
    return eng

def snapshot(rec): return [(r.name, len(r.chunks), r.closed) for r in rec.log]

class ListIs(Cand):
    """A list holds f(0..k-1)."""
    def __init__(self, name, f): self.name, self.f = name, f
    def entry_ok(self, loop, v0): return v0.sym is None and list.__len__(v0) == 0
    def make(self, loop, v0, k): return SymSeq(k, lambda q: self.f(q), ("offs",))
    def holds(self, loop, v, k):
        if not isinstance(v, TrackedList): return False
        e = loop.e
        items = list(list.__iter__(v))
        if v.sym is None: return e.implied(iterm(k) == len(items)) and all(e.implied(term(SymInt.of(x) == self.f(i))) for i, x in enumerate(items))
        if v.sym.tag != ("offs",) or not e.implied(iterm(v.sym.n) == iterm(loop.k)): return False
        return len(items) == 1 and SymInt.of(items[0]) is not None and e.implied(term(SymInt.of(items[0]) == self.f(loop.k)))


def file_case():
    """FileResourceWriter: the file <path>/<name> receives exactly the bytes handed over, created on open, closed at the end."""
    import flatdata.lib.file_resource_writer as FW
    import os
    eng = E.Engine("FileResourceWriter")
    def driver(e):
        n = SymInt.var("n", lo=0, hi=2 ** 60)
        data = SymBytes(symbuf("data", n), 0, n, "bytearray")
        log = []
        exists = e.choose(2)
        class File:
            def write(self, d): log.append(("write", d.copy("bytes") if isinstance(d, Sym) else bytes(d))); return None
            def flush(self): log.append(("flush",))
            def close(self): log.append(("close",))
            def __enter__(self): return self
            def __exit__(self, *a): self.close()
        def op(name, mode="r", *a, **k):
            log.append(("open", name, mode)); return File()
        e.stubs = {open: op, os.path.exists: lambda p: bool(exists), os.path.isdir: lambda p: bool(exists), os.mkdir: lambda p, *a: log.append(("mkdir", p)),
                   os.makedirs: lambda p, *a, **k: log.append(("mkdir", p))}
        e.reach("pre")
        w = FW.FileResourceWriter().create_instance()
        w.open("res", "/some/path")
        w.write(data)
        w.close()
        opens = [x for x in log if x[0] == "open"]
        e.prove("one file is opened, named after the resource, for binary writing from scratch", len(opens) == 1 and opens[0][1] == "/some/path/res" and opens[0][2] in ("wb", "bw", "w+b", "wb+", "xb"), str(opens))
        e.prove("the directory is created when absent", bool(exists) or ("mkdir", "/some/path") in log)
        r = Rope([], "bytes")
        for x in log:
            if x[0] == "write": r = r + Rope.of(x[1])
        e.prove("the file content is the data handed over", rope_eq(r, Rope([Piece(data)], "bytes"), e))
        e.prove("the file is closed last", log[-1] == ("close",) or log[-1][0] == "close")
        e.reach("post")
    eng.explore(driver)
    return eng
