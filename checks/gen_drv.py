"""Contracts of the generator's schema processing (C10-C15)."""
import pyvc.load as L
import z3
from pyvc import engine as E
from pyvc.sym import *
from pyvc.loops import *
from pyvc.zstr import *
from pyvc.flat import install_quantifiers
L.install()
import flatdata.generator.tree.builder as BLD
import flatdata.generator.tree.nodes.trivial as T
import flatdata.generator.tree.nodes.references as REF
import flatdata.generator.tree.nodes.resources as RES
import flatdata.generator.tree.errors as ERR
from flatdata.generator.tree.nodes.archive import Archive
from flatdata.generator.tree.nodes.explicit_reference import ExplicitReference
from flatdata.generator.tree.nodes.node import Node
from flatdata.generator.tree.helpers.basictype import BasicType
from flatdata.generator.tree.helpers.enumtype import EnumType
import flatdata.generator.tree.traversal as TRV
I, B, Z = z3.IntSort(), z3.BoolSort(), z3.StringSort()
W = {"bool": 1, "u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64}
NAMES = list(W)
signed = lambda t: t[0] == "i"
def fits(t, w, v): return z3.And(v >= -(1 << (w - 1)), v < (1 << (w - 1))) if signed(t) else z3.And(v >= 0, v < (1 << w))

class Num(Sym):
    """Text of an integer literal: int(text, 0) is the number it denotes."""
    __vc_types__ = (str,)
    def __init__(self, v): self.v = v
    def vc_int(self, base=10): return self.v
    def __bool__(self): return True
    def __str__(self): return SymTextNum()
def SymTextNum():
    from pyvc.vc import SymText
    return SymText("<num>")

class Props:
    """Parsed properties of a definition (pyparsing result): attribute access, membership, truth."""
    def __init__(self, **k): self.__dict__.update(k)
    def __contains__(self, n): return n in self.__dict__
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return ""

def guard(e, f, *errs):
    """Run f; (value, None) or (None, error) for the schema errors listed; any other exception fails."""
    try: return f(), None
    except errs as ex: return None, ex
    except (AssertionError, Exception) as ex:
        e.fail("no other error", f"{type(ex).__name__}: {ex}")
        raise E.PathEnd()

class Visited:
    """Ghost record that a loop ran its whole body for an arbitrary (fixed) index."""
    def __init__(self, name): self.f = z3.Function("visited_" + name, I, B); self.i = SymInt.var("any_" + name, lo=0)
    def fact(self, loop): return Fact("an arbitrary element is visited", lambda k: True if k is loop.k else mkbool(self.f(iterm(k))), [self.i])
    def done(self, n): return z3.Implies(self.i.it < iterm(n), self.f(self.i.it))

def func_case(name, driver):
    eng = E.Engine(name)
    eng.explore(driver)
    return eng

class SeqRoot:
    """Root of a schema tree seen through iterate(T): for every T an arbitrary sequence of nodes."""
    def __init__(self, seqs): self.seqs = seqs
    def iterate(self, node_type=None):
        for t, s in self.seqs.items():
            if t is node_type: return s
        raise Unsupported(f"iterate({node_type})")

# --- C11 -------------------------------------------------------------------------------------------------------------
def type_case(t):
    def driver(e):
        w = SymInt.var("width"); e.input("width", w.it)
        e.assume(w.it >= 0)
        explicit = e.choose(2) == 0
        e.reach("pre")
        r, err = guard(e, lambda: BasicType(name=t, width=w) if explicit else BasicType(name=t), ERR.InvalidWidthError)
        if err is not None:
            e.prove("rejected only when wider than the basic type", explicit and w.it > W[t]); return
        if explicit: e.prove("accepted only when it fits the basic type", w.it <= W[t])
        e.prove("width is the stated one, else the type's", SymInt.of(r.width) == (w if explicit else W[t]))
        e.prove("name and signedness", r.name == t and r.is_signed == signed(t))
        e.reach("post")
    return func_case(f"BasicType[{t}]", driver)

def bits_case(t):
    def driver(e):
        v = SymInt.var("value"); e.input("value", v.it)
        bt = BasicType(name=t)
        e.reach("pre")
        r, err = guard(e, lambda: bt.bits_required(v), ERR.InvalidSignError)
        if err is not None:
            e.prove("wrong sign only for a negative unsigned value", z3.And(not signed(t), v.it < 0)); return
        e.prove("unsigned values are not negative", z3.Or(signed(t), v.it >= 0))
        r = SymInt.of(r)
        for w in range(1, W[t] + 1):
            e.prove("bits_required(v) > w exactly when v does not fit w bits", (r.int() > w) == z3.Not(fits(t, w, v.it)), f"w={w}")
        e.reach("post")
    return func_case(f"BasicType.bits_required[{t}]", driver)

def constant_case(t):
    def driver(e):
        v = SymInt.var("value"); e.input("value", v.it)
        e.reach("pre")
        p = Props(name="C", type=t, value=Num(v), doc="")
        c, err = guard(e, lambda: T.Constant.create(properties=p, definition=""), ERR.InvalidConstantValueError, ERR.InvalidSignError)
        if err is not None: e.prove("a constant is rejected only when it does not fit its type", z3.Not(fits(t, W[t], v.it))); return
        e.prove("an accepted constant fits its type", fits(t, W[t], v.it))
        e.prove("value and type are the declared ones", z3.And(term(SymInt.of(c.value) == v), c.type.name == t, c.name == "C"))
        e.reach("post")
    return func_case(f"Constant.create[{t}]", driver)

def field_case(t):
    def driver(e):
        w = SymInt.var("width", lo=0); e.input("width", w.it)
        explicit = e.choose(2) == 0
        p = Props(name="f", type=t, width=Num(w) if explicit else "", doc="")
        e.reach("pre")
        f, err = guard(e, lambda: T.Field.create(properties=p), ERR.InvalidWidthError)
        basic = t in W
        if err is not None: e.prove("a field is rejected only when wider than its basic type", explicit and basic and w.it > W.get(t, 0)); return
        if basic:
            if explicit: e.prove("an accepted field is not wider than its basic type", w.it <= W[t])
            e.prove("field width is the declared one, else the type's", SymInt.of(f.type.width) == (w if explicit else W[t]))
            e.prove("field type", f.type.name == t and f.type.is_signed == signed(t) and f.name == "f")
        else:
            e.prove("type is left to resolution", f.type is None and isinstance(f.type_reference, REF.EnumerationReference) and f.type_reference.target == t)
            e.prove("the reference is a child of the field", any(c is f.type_reference for c in f.children))
            e.prove("the stated width is kept for comparison", (f.type_reference.width is None) if not explicit else f.type_reference.width is not None and SymInt.of(f.type_reference.width) == w)
        e.reach("post")
    return func_case(f"Field.create[{t}]", driver)

class FieldStub(T.Field):
    def __init__(self, k): self.__dict__["k"] = k
    name = property(lambda s: "f")
    path = property(lambda s: ".n.S.f")
    def __repr__(self): return "field"

class TypeStub:
    def __init__(self, name, width, sgn=None, bits=None): self.name, self.width, self.is_signed, self._bits = name, width, sgn, bits
    def bits_required(self, value):
        if self._bits is None: raise Unsupported("bits_required")
        return self._bits(value)

def enum_width_case():
    """_update_field_type_references: enum-typed fields get the enumeration's type; a contradicting width is rejected."""
    def driver(e):
        n = SymInt.var("fields", lo=0)
        TYPED, GIVEN = z3.Function("typed", I, B), z3.Function("width_given", I, B)
        RW, EW = z3.Function("stated", I, I), z3.Function("enumwidth", I, I)
        w = SymInt.var("witness", lo=0)
        bad = lambda k: z3.And(z3.Not(TYPED(iterm(k))), GIVEN(iterm(k)), RW(iterm(k)) != EW(iterm(k)))
        cur = []
        class EnumNode(T.Enumeration):
            def __init__(self, k): self.k = k; self.__dict__["_t"] = None
            @property
            def type(self):
                if self._t is None:
                    nm = NAMES[e.choose(len(NAMES))]
                    e.assume(EW(iterm(self.k)) <= W[nm])
                    self._t = TypeStub(nm, SymInt(it=EW(iterm(self.k)), lo=1, hi=64), signed(nm))
                return self._t
        class Ref(REF.EnumerationReference):
            def __init__(self, k): self.k = k; self._n = EnumNode(k)
            name = property(lambda s: "@@n@E")
            target = property(lambda s: ".n.E")
            node = property(lambda s: s._n)
            @property
            def width(self): return SymInt(it=RW(iterm(self.k)), lo=0) if mkbool(GIVEN(iterm(self.k))) else None
        class F(FieldStub):
            def __init__(self, k): super().__init__(k); self.__dict__.update(_set=[], _r=Ref(k))
            @property
            def type(self):
                if self._set: return self._set[-1]
                return TypeStub("u8", 8) if mkbool(TYPED(iterm(self.k))) else None
            @type.setter
            def type(self, v): self._set.append(v)
            type_reference = property(lambda s: s._r)
        def at(k):
            e.assume(z3.And(EW(iterm(k)) >= 1, EW(iterm(k)) <= 64, RW(iterm(k)) >= 0))
            f = F(k); cur[:] = [f]; return f
        vis = Visited("field")
        e.facts = lambda loop: [vis.fact(loop), Fact("no field passed over states another width than its enumeration", lambda k: mkbool(z3.Not(bad(k))), [w])] if loop.tag == ("fields",) else []
        def end(loop):
            f = cur[0]
            if not mkbool(TYPED(iterm(f.k))):
                t = f._set[-1] if f._set else None
                ok = t is not None and isinstance(t, EnumType)
                e.prove("an enum-typed field has the enumeration's width", ok and SymInt.of(t.width) == SymInt(it=EW(iterm(f.k)), lo=1, hi=64))
                e.prove("an enum-typed field has the enumeration's signedness", ok and t.is_signed == f._r._n.type.is_signed)
            else: e.prove("fields with a basic type are left alone", not f._set)
        e.on_iteration_end = end
        e.reach("pre")
        _, err = guard(e, lambda: BLD._update_field_type_references(SeqRoot({T.Field: SymSeq(n, at, ("fields",))})), ERR.InvalidEnumWidthError)
        if err is not None: e.prove("rejected only when the stated width differs from the enumeration's", bad(cur[0].k)); return
        e.prove("every field is processed", vis.done(n))
        e.prove("accepted only when every stated width is the enumeration's", z3.Implies(w.it < n.it, z3.Not(bad(w))))
        e.reach("post")
    return func_case("_update_field_type_references", driver)

def const_refs_case():
    """_check_const_refs: rejected iff a constant on a field has another type or does not fit, or a field has two invalid values."""
    def driver(e):
        S = z3.StringVal
        n = SymInt.var("fields", lo=0)
        m, inv = z3.Function("refs", I, I), z3.Function("invalids", I, I)
        RT, FT = z3.Function("consttype", I, I, Z), z3.Function("fieldtype", I, Z)
        V, FWD = z3.Function("value", I, I, I), z3.Function("fieldwidth", I, I)
        NEED = z3.Function("bits_required", Z, I, I)       # contract of BasicType.bits_required (see bits_case)
        w, wj = SymInt.var("witness", lo=0), SymInt.var("witness_ref", lo=0)
        last = []
        bits = lambda t, v: SymInt(it=NEED(t, v))
        badtype = lambda k, j: RT(iterm(k), iterm(j)) != FT(iterm(k))
        badfit = lambda k, j: NEED(RT(iterm(k), iterm(j)), V(iterm(k), iterm(j))) > FWD(iterm(k))
        bad = lambda k, j: z3.Or(badtype(k, j), badfit(k, j))
        class CNode(T.Constant):
            def __init__(self, k, j): self.k, self.j = k, j
            name = property(lambda s: "C")
            value = property(lambda s: SymInt(it=V(iterm(s.k), iterm(s.j))))
            type = property(lambda s: TypeStub(ZStr(RT(iterm(s.k), iterm(s.j))), None, None, lambda v: bits(RT(iterm(s.k), iterm(s.j)), iterm(v))))
        def mkref(cls):
            class Ref(cls):
                def __init__(self, k, j): self.k, self.j = k, j
                name = property(lambda s: "@@n@C"); target = property(lambda s: ".n.C")
                node = property(lambda s: CNode(s.k, s.j))
            return Ref
        CR, IR = mkref(REF.ConstantValueReference), mkref(REF.InvalidValueReference)
        class F(FieldStub):
            def children_like(self, T_):
                k = self.k
                if T_ is REF.ConstantReference:
                    def at(j): last[:] = [("ref", k, j)]; return CR(k, j)
                    return SymSeq(SymInt(it=m(iterm(k)), lo=0), at, ("refs", str(iterm(k))))
                if T_ is REF.InvalidValueReference:
                    last[:] = [("inv", k)]
                    return SymSeq(SymInt(it=inv(iterm(k)), lo=0), lambda j: IR(k, j), ("invalids", str(iterm(k))))
                raise Unsupported("children_like")
            type = property(lambda s: TypeStub(ZStr(FT(iterm(s.k))), SymInt(it=FWD(iterm(s.k)), lo=1, hi=64), None, lambda v: bits(FT(iterm(s.k)), iterm(v))))
        def at(k):
            e.assume(z3.And(m(iterm(k)) >= 0, inv(iterm(k)) >= 0, FWD(iterm(k)) >= 1))
            return F(k)
        okfield = lambda k: z3.And(z3.Implies(wj.it < m(iterm(k)), z3.Not(bad(k, wj))), inv(iterm(k)) <= 1)
        def facts(loop):
            if loop.tag == ("fields",): return [Fact("no field passed over has a fault", lambda k: mkbool(okfield(k)), [w])]
            if isinstance(loop.tag, tuple) and loop.tag[0] == "refs":
                kt = z3.Int(loop.tag[1]) if False else loop.seq.at(0).k
                return [Fact("no constant passed over is bad", lambda j: mkbool(z3.Not(bad(kt, j))), [wj])]
            return []
        e.facts = facts
        install_quantifiers(e, lambda tag: [wj] if tag and tag[0] == "refs" else [w])
        e.reach("pre")
        _, err = guard(e, lambda: BLD._check_const_refs(SeqRoot({T.Field: SymSeq(n, at, ("fields",))})), ERR.InvalidConstReference, ERR.InvalidConstValueReference, ERR.DuplicateInvalidValueReference)
        if isinstance(err, ERR.DuplicateInvalidValueReference): e.prove("two invalid-value markers only when the field has two", inv(iterm(last[0][1])) > 1); return
        if isinstance(err, ERR.InvalidConstReference): e.prove("wrong constant type only when types differ", last[0][0] == "ref" and badtype(*last[0][1:])); return
        if err is not None: e.prove("constant does not fit only when it needs more bits than the field has", last[0][0] == "ref" and badfit(*last[0][1:])); return
        e.prove("accepted only when every constant has the field's type and fits it", z3.Implies(z3.And(w.it < n.it, wj.it < m(w.it)), z3.Not(bad(w, wj))))
        e.prove("accepted only when no field has two invalid-value markers", z3.Implies(w.it < n.it, inv(w.it) <= 1))
        e.reach("post")
    return func_case("_check_const_refs", driver)

# --- C12 -------------------------------------------------------------------------------------------------------------
def range_case(t):
    def driver(e):
        e.reach("pre")
        for w in range(1, W[t] + 1):
            r = BasicType(name=t, width=w).value_range()
            lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if signed(t) else (0, 1 << w)
            e.prove("value_range is exactly the representable numbers", isinstance(r, range) and (r.start, r.stop, r.step) == (lo, hi, 1), f"w={w}: {r}")
        e.reach("post")
    return func_case(f"BasicType.value_range[{t}]", driver)

class IntSet(Sym):
    """Set of integers {f(j) : j < k} plus the elements added since."""
    __vc_types__ = (set,)
    def __init__(self, owner, k, extra=()): self.o, self.k, self.extra = owner, k, list(extra)
    def vc_token(self): return (str(iterm(self.k)), tuple(iterm(x).get_id() for x in self.extra))
    def vc_install(self, g): self.k, self.extra = g.k, list(g.extra)
    def vc_arbitrary(self): raise Unsupported("set with no invariant")
    def add(self, x): self.extra.append(x)
    def vc_contains(self, x):
        e, V = E.cur(), self.o["V"]
        for y in self.extra:
            if SymInt.of(y) == x: return True
        if e.choose(2) == 0:
            j = SymInt.var("member", lo=0)
            e.assume(z3.And(j.it < iterm(self.k), V(j.it) == iterm(x)), check=True)
            self.o["wit"] = j
            return True
        for w in self.o["instances"]: e.assume(z3.Implies(z3.And(iterm(w) >= 0, iterm(w) < iterm(self.k)), V(iterm(w)) != iterm(x)))
        return False
    def vc_len(self):
        if self.extra: raise Unsupported("size of a set")
        return self.k
    def vc_seq(self):
        if self.extra: raise Unsupported("iteration over an extended set")
        return SymSeq(self.k, lambda j: self.o["at"](j), ("set",), set)

class SetOfFirst(Cand):
    name = "the set holds the numbers assigned before k"
    def entry_ok(self, loop, v0): return not v0.extra and loop.e.implied(iterm(v0.k) == 0)
    def make(self, loop, v0, k): return IntSet(v0.o, k)
    def holds(self, loop, v, k):
        return len(v.extra) == 1 and loop.e.implied(z3.And(iterm(v.k) == iterm(loop.k), iterm(v.extra[0]) == v.o["V"](iterm(loop.k))))

def enum_case(t):
    """Enumeration.create for any number of values, any explicit numbers, any width."""
    def driver(e):
        n = SymInt.var("values", lo=1)
        explicit = e.choose(2) == 0
        w = SymInt.var("width", lo=1, hi=300) if explicit else W[t]
        if explicit: e.input("width", w.it)
        e.input("values", n.it)
        EX, X, A, V = z3.Function("explicit", I, B), z3.Function("number", I, I), z3.Function("running", I, I), z3.Function("V", I, I)
        P = z3.Int("two_to_width") if explicit else z3.IntVal(1 << W[t])
        lo, hi = z3.Int("lo"), z3.Int("hi")
        e.assume(z3.And(P >= 2, hi - lo == P, lo == -hi if signed(t) else lo == 0, A(0) == 0))
        FITS = lambda v: z3.And(v >= lo, v < hi)
        w1, w2 = SymInt.var("i", lo=0), SymInt.var("j", lo=0)
        def unfold(k):
            k = iterm(k)
            e.assume(z3.And(V(k) == z3.If(EX(k), X(k), A(k)), A(k + 1) == V(k) + 1))
        unfold(w1); unfold(w2)
        last, log = {}, []
        def val_at(k): unfold(k); last["v"] = V(iterm(k)); return SymInt(it=V(iterm(k)))
        own = dict(V=V, instances=[w1, w2], at=val_at, wit=None)
        class Val(Props):
            def __init__(self, k): self.k = k; self.name = f"v"; self.doc = ""
            @property
            def constant(self): return Num(SymInt(it=X(iterm(self.k)))) if mkbool(EX(iterm(self.k))) else ""
        def at(k):
            unfold(k); last["k"] = k; v = Val(k); last["val"] = v; del log[:]; return v
        def pow2(x):
            if isinstance(w, SymInt) and e.implied(iterm(x) == w.it): return SymInt(it=P)
            raise Unsupported("power of two of something else")
        e.pow2 = pow2
        def need(self, value):
            if not signed(t):
                if SymInt.of(value) < 0: raise ERR.InvalidSignError(value=value)
            b = SymInt.var("bits", lo=0)
            e.assume((b.it > iterm(self.width)) == z3.Not(FITS(iterm(value))))
            return b
        def vrange(self):
            def ra(k): last["x"] = lo + iterm(k); del log[:]; return SymInt(it=lo + iterm(k))
            e.prove("value_range of the enumeration's own type", term(SymInt.of(self.width) == w) if isinstance(self, BasicType) else False)
            s = SymSeq(SymInt(it=hi - lo), ra, ("range",), range)
            s.force_cut = True
            return s
        M = "flatdata.generator.tree."
        e.contracts = {M + "nodes.node.Node.insert": lambda self, *ns: (log.extend((self, x) for x in ns), self)[1],
                       M + "helpers.basictype.BasicType.bits_required": need, M + "helpers.basictype.BasicType.value_range": vrange}
        e.set_hook = lambda x=(): IntSet(own, 0) if not isinstance(x, Sym) and not list(x) else unsupported("set of something")
        def unsupported(s): raise Unsupported(s)
        def cands(loop, path, kind, v0):
            if loop.tag == ("values",):
                if isinstance(v0, IntSet): yield SetOfFirst()
                elif isinstance(v0, (int, SymInt)): yield IntIs("the next number is one more than the previous", lambda k: SymInt(it=A(iterm(k))))
        e.candidates = cands
        def facts(loop):
            if loop.tag == ("range",): return [vr.fact(loop)]
            if loop.tag == ("values",): return [vv.fact(loop), Fact("a number assigned differs from all before", lambda k: mkbool(z3.Implies(w1.it < iterm(k), V(w1.it) != V(iterm(k)))), [w2])]
            if loop.tag == ("set",): return [Fact("a number assigned fits", lambda k: mkbool(FITS(V(iterm(k)))), [w1])]
            return []
        e.facts = facts
        vv, vr = Visited("value"), Visited("number")
        def end(loop):
            if loop.tag == ("values",):
                ok = len(log) == 1 and isinstance(log[0][1], T.EnumerationValue) and log[0][1].name == "v"
                e.prove("each declared value is added once, not marked automatic", ok and log[0][1].auto_generated is False)
                e.prove("a declared value has its explicit number or one more than its predecessor", ok and term(SymInt.of(log[0][1].value) == SymInt(it=V(iterm(loop.k)))))
                last["node"] = log[0][0]
            elif loop.tag == ("range",):
                x = last["x"]
                if log:
                    ok = len(log) == 1 and isinstance(log[0][1], T.EnumerationValue)
                    e.prove("an automatic value is a number of the range", ok and log[0][1].auto_generated is True and term(SymInt.of(log[0][1].value) == SymInt(it=x)))
                    e.prove("an automatic value differs from every declared one", z3.Implies(w1.it < n.it, V(w1.it) != x))
                else:
                    j = own["wit"]
                    e.prove("no automatic value only for a declared number", j is not None and z3.And(j.it >= 0, j.it < n.it, V(j.it) == x))
        e.on_iteration_end = end
        p = Props(name="E", type=t, width=Num(w) if explicit else "", enum_values=SymSeq(n, at, ("values",)), doc="")
        e.reach("pre")
        r, err = guard(e, lambda: T.Enumeration.create(properties=p, definition=""), ERR.InvalidWidthError, ERR.DuplicateEnumValueError, ERR.SparseEnumError, ERR.InvalidEnumValueError, ERR.InvalidSignError)
        if isinstance(err, ERR.InvalidWidthError): e.prove("width error only when wider than the basic type", explicit and w.it > W[t]); return
        if isinstance(err, ERR.DuplicateEnumValueError):
            j, k = own["wit"], iterm(last["k"])
            e.prove("duplicate error only for a repeated number", j is not None and z3.And(j.it >= 0, j.it < k, k < n.it, V(j.it) == V(k))); return
        if isinstance(err, ERR.SparseEnumError): e.prove("sparse error only with fewer than (2^width - 256) / 2 values", 256 + 2 * n.it < P); return
        if err is not None: e.prove("value error only for a number that does not fit", z3.Not(FITS(last["v"]))); return
        e.prove("accepted only when not wider than the basic type", term(SymInt.of(w) <= W[t]))
        e.prove("every declared value and every number of the range is visited", z3.And(vv.done(n), vr.done(SymInt(it=hi - lo))))
        e.prove("all numbers of an accepted enumeration differ", z3.Implies(z3.And(w1.it < w2.it, w2.it < n.it), V(w1.it) != V(w2.it)))
        e.prove("all numbers of an accepted enumeration fit", z3.Implies(w1.it < n.it, FITS(V(w1.it))))
        e.prove("an accepted enumeration has enough values for its width", 256 + 2 * n.it >= P)
        e.prove("type and width are the declared ones", r.type.name == t and term(SymInt.of(r.type.width) == w))
        e.reach("post")
    return func_case(f"Enumeration.create[{t}]", driver)

# --- C15 -------------------------------------------------------------------------------------------------------------
class Named:
    def __init__(self, name): self.name = name

def field_decorations_case():
    """Field.__init__: every @const / @optional decoration becomes a reference of the field, nothing else does; Field.range."""
    def driver(e):
        n = SymInt.var("decorations", lo=0)
        KIND, NM = z3.Function("kind", I, I), z3.Function("name", I, Z)
        kinds = ["const_ref", "invalid_value", "range"]
        vis = Visited("decoration")
        w = SymInt.var("witness", lo=0)
        log, last = [], {}
        class Deco(Sym):
            def __init__(self, k): self.k = iterm(k)
            def vc_contains(self, what): return mkbool(KIND(self.k) == kinds.index(what)) if what in kinds else False
            def __getattr__(self, what):
                if what in kinds and e.implied(KIND(self.k) == kinds.index(what)): return Named(ZStr(NM(self.k)))
                raise AttributeError(what)
        def at(k): last["k"] = k; del log[:]; return Deco(k)
        class R:
            def __init__(self, cls, name): self.cls, self.rname = cls, name
        e.stubs = {c: (lambda name, c=c: R(c, name)) for c in (REF.ConstantValueReference, REF.InvalidValueReference)}
        e.contracts = {"flatdata.generator.tree.nodes.node.Node.insert": lambda self, *ns: (log.extend(ns), self)[1]}
        def facts(loop):
            if loop.tag != ("deco",): return []
            return [vis.fact(loop)] + ([Fact("no range passed over", lambda k: mkbool(KIND(iterm(k)) != 2), [w])] if last.get("phase") == "range" else [])
        e.facts = facts
        def end(loop):
            if last.get("phase") == "range": return
            k = iterm(loop.k)
            got = [(x.cls, x.rname) for x in log]
            if not log: e.prove("only decorations without a constant add nothing", z3.And(KIND(k) != 0, KIND(k) != 1))
            else: e.prove("a constant decoration adds exactly its reference", len(got) == 1 and z3.And(KIND(k) == (0 if got[0][0] is REF.ConstantValueReference else 1), zs(got[0][1]) == NM(k)))
        e.on_iteration_end = end
        p = Props(name="f", type="u8", width="", doc="", decorations=SymSeq(n, at, ("deco",)))
        e.reach("pre")
        f = T.Field.create(properties=p)
        e.prove("every decoration is looked at", vis.done(n))
        last["phase"] = "range"
        r = f.range
        if r is None: e.prove("no range name only without a range decoration", z3.Implies(w.it < n.it, KIND(w.it) != 2))
        else: e.prove("range name of the first range decoration", z3.And(KIND(iterm(last["k"])) == 2, zs(r) == NM(iterm(last["k"]))))
        e.reach("post")
    return func_case("Field decorations", driver)

def max_size_case():
    """_compute_max_resource_size: limit of an arbitrary resource R = minimum of 2^width over the references to it narrower than 64 bits."""
    def driver(e):
        n = SymInt.var("references", lo=0)
        R = z3.Int("resource")
        DST, FWD, P2 = z3.Function("destination", I, I), z3.Function("fieldwidth", I, I), z3.Function("pow2", I, I)
        w = SymInt.var("witness", lo=0)
        vis = Visited("reference")
        hit = lambda k: z3.And(DST(iterm(k)) == R, FWD(iterm(k)) != 64)
        e.pow2 = lambda x: SymInt(it=P2(iterm(x)))
        class State(Sym):
            def __init__(self): self.has, self.val = z3.BoolVal(False), z3.IntVal(0)
            def vc_token(self): return (self.has.get_id(), self.val.get_id())
            def vc_install(self, g): self.has, self.val = g.has, g.val
        st = State()
        class Inv(Cand):
            name = "limit so far is the minimum over the references so far"
            def entry_ok(self, loop, v0): return loop.e.implied(z3.Not(v0.has))
            def make(self, loop, v0, k):
                g = State()
                g.has, g.val, j = z3.Bool(E.fresh_name("has")), z3.Int(E.fresh_name("limit")), z3.Int(E.fresh_name("argmin"))
                k = iterm(k)
                e.assume(z3.And(z3.Implies(g.has, z3.And(j >= 0, j < k, hit(j), g.val == P2(FWD(j)))), z3.Implies(z3.And(w.it < k, hit(w)), z3.And(g.has, g.val <= P2(FWD(w.it))))))
                self.j = g.j = j
                return g
            def holds(self, loop, v, k1):
                k = iterm(loop.k)
                g = z3.And(z3.Implies(v.has, z3.Or(z3.And(self.j >= 0, self.j < k, hit(self.j), v.val == P2(FWD(self.j))), z3.And(hit(k), v.val == P2(FWD(k))))),
                           z3.Implies(z3.And(w.it <= k, hit(w)), z3.And(v.has, v.val <= P2(FWD(w.it)))))
                return loop.e.implied(g)
        class Res(RES.Vector):
            def __init__(self, k): self.__dict__["k"] = k
            name = property(lambda s: "r")
            @property
            def max_size(self):
                if mkbool(DST(iterm(self.k)) == R): return SymInt(it=st.val) if mkbool(st.has) else None
                return None if e.choose(2) else SymInt.var("other_limit")
            @max_size.setter
            def max_size(self, v):
                if mkbool(DST(iterm(self.k)) == R):
                    st.has = z3.BoolVal(v is not None)
                    if v is not None: st.val = iterm(v)
        class Ref:
            def __init__(self, node): self.node = node
        class Er(ExplicitReference):
            def __init__(self, k): self.k = k; self.r = Res(k)
            name = property(lambda s: "er")
            destination = property(lambda s: Ref(s.r))
            @property
            def field(self):
                f = Named("f"); f.type = TypeStub("u64", SymInt(it=FWD(iterm(self.k)), lo=1, hi=64))
                return Ref(f)
        class Root(SeqRoot):
            __vc_heap__ = True
        def at(k):
            e.assume(z3.And(FWD(iterm(k)) >= 1, FWD(iterm(k)) <= 64)); return Er(k)
        root = Root({ExplicitReference: SymSeq(n, at, ("refs",))})
        root.limits = st
        last = []
        e.candidates = lambda loop, path, kind, v0: [Inv()] if isinstance(v0, State) else []
        e.facts = lambda loop: [vis.fact(loop)] if loop.tag == ("refs",) else []
        e.reach("pre")
        guard(e, lambda: BLD._compute_max_resource_size(root))
        j = z3.Int("j")
        e.prove("every reference is processed", vis.done(n))
        e.prove("limit is at most 2^width of every narrow reference to the resource", z3.Implies(z3.And(w.it < n.it, hit(w)), z3.And(st.has, st.val <= P2(FWD(w.it)))))
        jj = getattr(st, "j", None)
        e.prove("limit is 2^width of one of them, and absent without any", z3.Implies(st.has, z3.Exists([j], z3.And(j >= 0, j < n.it, hit(j), st.val == P2(FWD(j))))))
        e.reach("post")
    return func_case("_compute_max_resource_size", driver)

def ranges_case():
    """_check_ranges: rejected iff a range name equals a sibling field, a range is optional, or ranges occur outside vectors."""
    def driver(e):
        S = z3.StringVal
        n, nr = SymInt.var("fields", lo=0), SymInt.var("structrefs", lo=0)
        HASR, INV, RN = z3.Function("has_range", I, B), z3.Function("optional", I, B), z3.Function("range_name", I, Z)
        m, SN = z3.Function("siblings", I, I), z3.Function("sibling_name", I, I, Z)
        ISS, HR, PK = z3.Function("is_struct", I, B), z3.Function("struct_has_range", I, B), z3.Function("parent_kind", I, I)
        w, wj, wr = SymInt.var("w", lo=0), SymInt.var("wj", lo=0), SymInt.var("wr", lo=0)
        last = {}
        bad1 = lambda k, j: z3.And(HASR(iterm(k)), SN(iterm(k), iterm(j)) == RN(iterm(k)))
        bad2 = lambda k: z3.And(HASR(iterm(k)), INV(iterm(k)))
        bad3 = lambda r: z3.And(ISS(iterm(r)), HR(iterm(r)), PK(iterm(r)) == 1)      # parent: 0 vector, 1 another resource, 2 no resource
        class Sib(FieldStub):
            def __init__(self, k, j): super().__init__(k); self.__dict__["j"] = j
            name = property(lambda s: ZStr(SN(iterm(s.k), iterm(s.j))))
        class Parent(T.Structure):
            def __init__(self, k): self.__dict__["k"] = k
            name = property(lambda s: "S")
            @property
            def fields(self):
                k = self.k
                def at(j): last["j"] = j; return Sib(k, j)
                return SymSeq(SymInt(it=m(iterm(k)), lo=0), at, ("siblings", Named(k)))
        class F(FieldStub):
            range = property(lambda s: ZStr(RN(iterm(s.k))) if mkbool(HASR(iterm(s.k))) else None)
            parent = property(lambda s: Parent(s.k))
            invalid_value = property(lambda s: Named("iv") if mkbool(INV(iterm(s.k))) else None)
        def fat(k):
            e.assume(z3.And(m(iterm(k)) >= 0, RN(iterm(k)) != S(""))); last["k"] = k
            return F(k)
        class Struct(T.Structure):
            def __init__(self, r): self.__dict__["r"] = r
            name = property(lambda s: "S")
            has_range = property(lambda s: mkbool(HR(iterm(s.r))))
        def plain(cls):
            class X(cls):
                def __init__(self): pass
                name = property(lambda s: "x")
            X.__abstractmethods__ = frozenset()
            return X()
        class Ref(REF.StructureReference):
            def __init__(self, r): self.__dict__["r"] = r
            name = property(lambda s: "@@n@S"); target = property(lambda s: ".n.S")
            node = property(lambda s: Struct(s.r) if mkbool(ISS(iterm(s.r))) else plain(T.Enumeration))
            @property
            def parent(self):
                k = PK(iterm(self.r))
                e.assume(z3.And(k >= 0, k <= 2))
                if mkbool(k == 0): return plain(RES.Vector)
                if mkbool(k == 1): return plain([RES.Instance, RES.Multivector][e.choose(2)])
                return plain(ExplicitReference)
        def rat(r): last["r"] = r; return Ref(r)
        okf = lambda k: z3.And(z3.Implies(wj.it < m(iterm(k)), z3.Not(bad1(k, wj))), z3.Not(bad2(k)))
        def facts(loop):
            if loop.tag == ("fields",): return [Fact("no field passed over has a fault", lambda k: mkbool(okf(k)), [w])]
            if loop.tag == ("structrefs",): return [Fact("no reference passed over has a fault", lambda k: mkbool(z3.Not(bad3(k))), [wr])]
            if isinstance(loop.tag, tuple) and loop.tag[0] == "siblings":
                kk = loop.tag[1].name
                return [Fact("no sibling passed over has the range's name", lambda j: mkbool(z3.Not(bad1(kk, j))), [wj])]
            return []
        e.facts = facts
        install_quantifiers(e, lambda tag: [wj] if "siblings" in str(tag) else [w, wr])
        e.reach("pre")
        _, err = guard(e, lambda: BLD._check_ranges(SeqRoot({T.Field: SymSeq(n, fat, ("fields",)), REF.StructureReference: SymSeq(nr, rat, ("structrefs",))})), ERR.InvalidRangeName, ERR.OptionalRange, ERR.InvalidRangeReference)
        if isinstance(err, ERR.InvalidRangeName): e.prove("range name error only when a field of the structure has that name", bad1(last["k"], last["j"])); return
        if isinstance(err, ERR.OptionalRange): e.prove("optional range error only for an optional range", bad2(last["k"])); return
        if err is not None: e.prove("range reference error only for ranges outside a vector", bad3(last["r"])); return
        e.prove("accepted only when no range name equals a field", z3.Implies(z3.And(w.it < n.it, wj.it < m(w.it)), z3.Not(bad1(w, wj))))
        e.prove("accepted only when no range is optional", z3.Implies(w.it < n.it, z3.Not(bad2(w))))
        e.prove("accepted only when ranges are used in vectors only", z3.Implies(wr.it < nr.it, z3.Not(bad3(wr))))
        e.reach("post")
    return func_case("_check_ranges", driver)

def has_range_case():
    def driver(e):
        n = SymInt.var("fields", lo=0)
        HASR = z3.Function("has_range", I, B)
        w = SymInt.var("w", lo=0)
        last = {}
        class F(FieldStub):
            range = property(lambda s: ZStr(z3.StringVal("r")) if mkbool(HASR(iterm(s.k))) else None)
        def at(k): last["k"] = k; return F(k)
        class Str(T.Structure):
            def __init__(self): pass
            children = property(lambda s: SymSeq(n, at, ("fields",)))
            def children_like(self, T_):
                if T_ is not T.Field: raise Unsupported("children_like")
                return self.children
        install_quantifiers(e, lambda tag: [w])
        e.facts = lambda loop: [Fact("no range passed over", lambda k: mkbool(z3.Not(HASR(iterm(k)))), [w])] if loop.tag == ("fields",) else []
        e.reach("pre")
        if Str().has_range: e.prove("has_range only with a range field", HASR(iterm(last["k"])))
        else: e.prove("has_range whenever a field is a range", z3.Implies(w.it < n.it, z3.Not(HASR(w.it))))
        e.reach("post")
    return func_case("Structure.has_range", driver)

def explicit_case():
    """_check_explicit_references: rejected iff a reference names a structure its resource does not hold."""
    def driver(e):
        n = SymInt.var("references", lo=0)
        r, q = z3.Function("named", I, I), z3.Function("held", I, I)
        TG, PT, SK = z3.Function("target", I, I, Z), z3.Function("heldtarget", I, I, Z), z3.Function("sk", I, I, I)
        w, wj, wi = SymInt.var("w", lo=0), SymInt.var("wj", lo=0), SymInt.var("wi", lo=0)
        last = {}
        class SRef(REF.StructureReference):
            def __init__(self, t): self.__dict__["t"] = t
            name = property(lambda s: "@@n@S"); target = property(lambda s: ZStr(s.t)); node = property(lambda s: Named("S"))
        class Parent(RES.Vector):
            def __init__(self, k): self.__dict__["k"] = k
            name = property(lambda s: "r")
            def children_like(self, T_):
                if T_ not in (REF.StructureReference,): raise Unsupported("children_like")
                k = self.k
                def at(i): last["i"] = i; return SRef(PT(iterm(k), iterm(i)))
                return SymSeq(SymInt(it=q(iterm(k)), lo=0), at, ("held", Named(k)))
            referenced_structures = property(lambda s: s.children_like(REF.StructureReference))
        class Er(ExplicitReference):
            def __init__(self, k): self.__dict__["k"] = k
            name = property(lambda s: "er"); parent = property(lambda s: Parent(s.k))
            def children_like(self, T_):
                if T_ is not REF.StructureReference: raise Unsupported("children_like")
                k = self.k
                def at(j): last["j"] = j; return SRef(TG(iterm(k), iterm(j)))
                return SymSeq(SymInt(it=r(iterm(k)), lo=0), at, ("named", Named(k)))
        def at(k):
            e.assume(z3.And(r(iterm(k)) >= 0, q(iterm(k)) >= 0)); last["k"] = k
            return Er(k)
        held = lambda k, j, i: z3.And(iterm(i) >= 0, iterm(i) < q(iterm(k)), PT(iterm(k), iterm(i)) == TG(iterm(k), iterm(j)))
        def facts(loop):
            if loop.tag == ("refs",): return [Fact("every structure named by a reference passed over is held", lambda k: mkbool(z3.Implies(wj.it < r(iterm(k)), held(k, wj, SK(iterm(k), wj.it)))), [w])]
            if isinstance(loop.tag, tuple) and loop.tag[0] == "named":
                kk = loop.tag[1].name
                def f(j):
                    if j is loop.k: return mkbool(held(kk, j, last["i"])) if "i" in last else False
                    return mkbool(held(kk, j, SK(iterm(kk), iterm(j))))
                return [Fact("every structure passed over is held", f, [wj])]
            return []
        e.facts = facts
        install_quantifiers(e, lambda tag: [wi])
        e.reach("pre")
        _, err = guard(e, lambda: BLD._check_explicit_references(SeqRoot({ExplicitReference: SymSeq(n, at, ("refs",))})), ERR.InvalidStructInExplicitReference)
        if err is not None:
            e.prove("rejected only when no held structure is the named one", z3.Not(held(last["k"], last["j"], wi))); return
        e.prove("accepted only when every named structure is held", z3.Implies(z3.And(w.it < n.it, wj.it < r(w.it)), held(w, wj, SK(w.it, wj.it))))
        e.reach("post")
    return func_case("_check_explicit_references", driver)

# --- C10 -------------------------------------------------------------------------------------------------------------
def layout_case():
    """_compute_structure_sizes for any number of structures and fields."""
    def driver(e):
        n = SymInt.var("nodes", lo=0)
        ISS, NF, FW, PS = z3.Function("is_struct", I, B), z3.Function("fields", I, I), z3.Function("width", I, I, I), z3.Function("prefix", I, I, I)
        vo, vi = Visited("struct"), Visited("field")
        cur = {}
        def unfold(k, j): e.assume(z3.And(FW(iterm(k), iterm(j)) >= 0, PS(iterm(k), 0) == 0, PS(iterm(k), iterm(j) + 1) == PS(iterm(k), iterm(j)) + FW(iterm(k), iterm(j))))
        class F(FieldStub):
            def __init__(self, k, j): self.__dict__.update(k=k, j=j, log=[])
            name = property(lambda s: "f")
            type = property(lambda s: TypeStub("u64", SymInt(it=FW(iterm(s.k), iterm(s.j)))))
            @property
            def offset(self):
                if not self.log: raise Unsupported("offset read before it is set")
                return self.log[-1]
            @offset.setter
            def offset(self, v): self.log.append(v)
        class Str(T.Structure):
            def __init__(self, k): self.__dict__.update(k=k, log=[])
            name = property(lambda s: "S")
            @property
            def children(self):
                k = self.k
                def at(j): unfold(k, j); cur["f"] = F(k, j); return cur["f"]
                return SymSeq(SymInt(it=NF(iterm(k)), lo=0), at, ("fields", Named(k)))
            fields = property(lambda s: s.children)
            def children_like(self, T_):
                if T_ is not T.Field: raise Unsupported("children_like")
                return self.children
            @property
            def size_in_bits(self): return self.log[-1]
            @size_in_bits.setter
            def size_in_bits(self, v): self.log.append(v)
        class Other(T.Enumeration):
            def __init__(self): pass
            name = property(lambda s: "E"); children = property(lambda s: [])
        def node(k):
            e.assume(z3.And(NF(iterm(k)) >= 0, PS(iterm(k), 0) == 0))
            cur.clear()
            cur["k"] = k
            if mkbool(ISS(iterm(k))): cur["s"] = Str(k); return cur["s"]
            return Other()
        isfields = lambda loop: isinstance(loop.tag, tuple) and loop.tag[0] == "fields"
        e.contracts = {"flatdata.generator.tree.traversal.DfsTraversal.dependency_order": lambda self: SymSeq(n, lambda k: (node(k), ()), ("nodes",)),
                       "flatdata.generator.tree.traversal.DfsTraversal.iterate": lambda self: SymSeq(n, lambda k: (node(k), ()), ("nodes",))}
        def cands(loop, path, kind, v0):
            if isfields(loop) and isinstance(v0, (int, SymInt)):
                k = loop.tag[1].name
                yield IntIs("offset is the sum of the widths before", lambda j: SymInt(it=PS(iterm(k), iterm(j))))
        e.candidates = cands
        e.facts = lambda loop: [vi.fact(loop)] if isfields(loop) else [vo.fact(loop)] if loop.tag == ("nodes",) else []
        def sum_hook(x, start):
            s = getattr(x, "seq", None)
            if s is None or x.conds or not (isinstance(s.tag, tuple) and s.tag[0] == "fields"): raise Unsupported("sum")
            k = s.tag[1].name
            j = SymInt.var("any_sum", lo=0); save = dict(cur); v = x.f(s.at(j)); cur.clear(); cur.update(save)
            if not e.implied(z3.Implies(j.it < iterm(s.n), iterm(v) == FW(iterm(k), j.it))): raise Unsupported("sum of something else than the widths")
            return SymInt(it=PS(iterm(k), iterm(s.n))) + start
        e.sum_hook = sum_hook
        def end(loop):
            if isfields(loop):
                f = cur["f"]
                e.prove("a field starts where the fields before it end", bool(f.log) and term(SymInt.of(f.log[-1]) == SymInt(it=PS(iterm(f.k), iterm(f.j)))))
            elif loop.tag == ("nodes",) and "s" in cur:
                s = cur["s"]
                e.prove("every field of a structure is placed", vi.done(SymInt(it=NF(iterm(s.k)))))
                e.prove("structure size is the sum of its field widths", bool(s.log) and term(SymInt.of(s.log[-1]) == SymInt(it=PS(iterm(s.k), NF(iterm(s.k))))))
        e.on_iteration_end = end
        root = SeqRoot({T.Structure: SymSeq(n, node, ("nodes",)), None: SymSeq(n, node, ("nodes",))})
        root.root = root
        e.reach("pre")
        guard(e, lambda: BLD._compute_structure_sizes(root))
        e.prove("every structure is processed", vo.done(n))
        e.reach("post")
    return func_case("_compute_structure_sizes", driver)

def bytes_case():
    def driver(e):
        b = SymInt.var("bits", lo=0); e.input("bits", b.it)
        s = T.Structure(name="S")
        s.size_in_bits = b
        e.reach("pre")
        r = SymInt.of(s.size_in_bytes)
        e.prove("size in bits is kept", s.size_in_bits is b)
        e.prove("size in bytes is the bits divided by 8, rounded up", z3.And(8 * r.int() >= b.it, 8 * r.int() < b.it + 8))
        e.reach("post")
    return func_case("Structure.size_in_bytes", driver)

# --- C13 -------------------------------------------------------------------------------------------------------------
AI, AB = z3.ArraySort(I, I), z3.ArraySort(I, B)
class GNode(T.Structure):
    """Node of an arbitrary graph, known by its identity."""
    def __init__(self, g, i): self.__dict__.update(g=g, i=i)
    name = property(lambda s: "node"); path = property(lambda s: ".n.node")
    def __repr__(self): return "node"
    def __eq__(self, o): return isinstance(o, GNode) and mkbool(self.i == o.i)
    def __hash__(self): raise Unsupported("hash of a symbolic node")
class GSet(Sym):
    __vc_types__ = (set,)
    def __init__(self, a=None): self.a = z3.K(I, z3.BoolVal(False)) if a is None else a
    def vc_token(self): return self.a.get_id()
    def vc_install(self, g): self.a = g.a
    def vc_arbitrary(self): return GSet(z3.Const(E.fresh_name("set"), AB))
    def add(self, n): self.a = z3.Store(self.a, n.i, True)
    def vc_contains(self, n): return mkbool(z3.Select(self.a, n.i))
class GStack(Sym):
    """Stack (or queue) of (node, flag): arrays indexed by position lo <= p < hi."""
    __vc_types__ = (list,)
    def __init__(self, g, N, F, lo, hi): self.g, self.N, self.F, self.lo, self.hi = g, N, F, lo, hi
    def vc_token(self): return (self.N.get_id(), self.F.get_id(), self.lo.get_id(), self.hi.get_id())
    def vc_install(self, x): self.N, self.F, self.lo, self.hi = x.N, x.F, x.lo, x.hi
    def vc_arbitrary(self): return GStack(self.g, z3.Const(E.fresh_name("N"), AI), z3.Const(E.fresh_name("F"), AB), z3.Int(E.fresh_name("lo")), z3.Int(E.fresh_name("hi")))
    def copy(self): return GStack(self.g, self.N, self.F, self.lo, self.hi)
    def __bool__(self): return bool(mkbool(self.hi > self.lo))
    def vc_len(self): return SymInt(it=self.hi - self.lo)
    def _mk(self, p): return self.g.pack(self, p)
    def pop(self, i=-1):
        if i not in (-1, 0): raise Unsupported("pop from the middle")
        if not self: raise IndexError("pop from empty list")
        if i == 0: return self.popleft()
        self.hi = z3.simplify(self.hi - 1)
        return self._mk(self.hi)
    def popleft(self):
        if not self: raise IndexError("pop from an empty deque")
        r = self._mk(self.lo)
        self.lo = z3.simplify(self.lo + 1)
        return r
    def append(self, x):
        n, f = self.g.unpack(x)
        self.N, self.F, self.hi = z3.Store(self.N, self.hi, n), z3.Store(self.F, self.hi, f), z3.simplify(self.hi + 1)

class DfsGraph:
    """Arbitrary finite-degree graph and the loop invariants of DfsTraversal._iterate."""
    def __init__(self, e, root):
        self.e, self.root = e, root
        self.DEG, self.CH = z3.Function("degree", I, I), z3.Function("child", I, I, I)
        self.REACH = z3.Function("reach", I, I, B)
        self.POS, self.WW, self.WT = None, None, None
    def pack(self, st, p): return self.State(GNode(self, z3.Select(st.N, p)), mkbool(z3.Select(st.F, p)))
    def unpack(self, x):
        n, f = x
        if self.State is None: self.State = type(x) if hasattr(type(x), "_fields") else lambda a, b: (a, b)
        return n.i, term(bool(f) if not isinstance(f, SymBool) else f)
    State = None
    def children(self, n):
        self.e.assume(self.DEG(n.i) >= 0)
        return SymSeq(SymInt(it=self.DEG(n.i), lo=0), lambda k: GNode(self, self.CH(n.i, iterm(k))), ("children", n))

def dfs_case(method):
    r = _dfs_case(method, False)
    return _dfs_case(method, True) if r.failures else r      # the other role assignment of the two sets
def _dfs_case(method, swap):
    """DfsTraversal: dependency_order() yields every reachable node exactly once, after all its children; a cycle is an error."""
    eng = E.Engine(f"DfsTraversal.{method}")
    def driver(e):
        root = z3.Int("root")
        g = DfsGraph(e, root)
        R, CH, DEG = g.REACH, g.CH, g.DEG
        S = z3.Select
        G = {}                                     # stack, discovered, processed: the real run-time objects
        def list_hook(x):
            if len(x) == 1 and isinstance(x[0], tuple) and len(x[0]) == 2 and isinstance(x[0][0], GNode):
                st = GStack(g, z3.K(I, z3.IntVal(-1)), z3.K(I, z3.BoolVal(False)), z3.IntVal(0), z3.IntVal(0))
                st.append(x[0]); G["st"] = st
                return st
        e.list_hook = list_hook
        sets = []
        def set_hook(x=()):
            if isinstance(x, Sym) or list(x): raise Unsupported("set of something")
            s = GSet(); sets.append(s); return s
        e.set_hook = set_hook
        e.contracts = {"flatdata.generator.tree.traversal._Traversal.children": lambda n: g.children(n)}
        e.cut_while = lambda site: ("dfs",) if "DfsTraversal" in site else None
        # skolem constants of the universally quantified invariants
        v, i, p, q = z3.Ints("v i p q")
        def instances(c):
            """Assume the invariants of state c = (N, F, L, D, P, POS, W, WR) at the terms of interest."""
            N, F, L, D, P, POS, WW, WR = c
            def at_pos(p):
                inb = z3.And(p >= 0, p < L)
                yield z3.Implies(z3.And(inb, S(F, p)), z3.And(S(D, S(N, p)), z3.Not(S(P, S(N, p)))))
            def at_child(p, i):
                x = S(N, p); c_ = CH(x, i)
                yield z3.Implies(z3.And(p >= 0, p < L, S(F, p), i >= 0, i < DEG(x)), z3.Or(S(P, c_), z3.And(WW(p, i) > p, WW(p, i) < L, S(N, WW(p, i)) == c_)))
            def at_node(v):
                yield z3.Implies(z3.And(S(D, v), z3.Not(S(P, v))), z3.And(POS(v) >= 0, POS(v) < L, S(N, POS(v)) == v, S(F, POS(v))))
                yield z3.Implies(S(P, v), S(D, v))
            def at_closed(v, i): yield z3.Implies(z3.And(S(P, v), i >= 0, i < DEG(v)), S(P, CH(v, i)))
            def at_pair(p, q):
                b = z3.And(p >= 0, p < q, q < L, S(F, p))
                yield z3.Implies(b, S(N, p) != S(N, q))
                yield z3.Implies(b, R(S(N, p), S(N, q)))
            def glob():
                yield L >= 0
                yield z3.Or(S(P, root), z3.And(WR >= 0, WR < L, S(N, WR) == root))
            return dict(pos=at_pos, child=at_child, node=at_node, closed=at_closed, pair=at_pair, glob=glob)
        def assume_all(c, poss, nodes, idx):
            I_ = instances(c)
            for t in I_["glob"](): e.assume(t)
            for a in poss:
                for t in I_["pos"](a): e.assume(t)
                for b in idx:
                    for t in I_["child"](a, b): e.assume(t)
                for b in poss:
                    if b is not a:
                        for t in I_["pair"](a, b): e.assume(t)
            for a in nodes:
                for t in I_["node"](a): e.assume(t)
                for b in idx:
                    for t in I_["closed"](a, b): e.assume(t)
        NAMES_ = dict(pos="a node whose children are being visited is discovered and not processed", child="every child of such a node is processed or waits above it",
                      node="a discovered, unprocessed node is on the stack", closed="children of processed nodes are processed", pair="entries above a node under visit are other nodes, reachable from it", glob="the root is processed or on the stack")
        def prove_all(c, alt_w, alt_pos, alt_root):
            """Prove the invariants of state c; witnesses may be any of the alternatives."""
            N, F, L, D, P = c
            inb = z3.And(p >= 0, p < L, S(F, p))
            e.prove(NAMES_["pos"], z3.Implies(inb, z3.And(S(D, S(N, p)), z3.Not(S(P, S(N, p))))))
            x = S(N, p); c_ = CH(x, i)
            e.prove(NAMES_["child"], z3.Implies(z3.And(inb, i >= 0, i < DEG(x)), z3.Or(S(P, c_), *[z3.And(w > p, w < L, S(N, w) == c_) for w in alt_w])))
            e.prove(NAMES_["node"], z3.And(z3.Implies(z3.And(S(D, v), z3.Not(S(P, v))), z3.Or(*[z3.And(a >= 0, a < L, S(N, a) == v, S(F, a)) for a in alt_pos])), z3.Implies(S(P, v), S(D, v))))
            e.prove(NAMES_["closed"], z3.Implies(z3.And(S(P, v), i >= 0, i < DEG(v)), S(P, CH(v, i))))
            b = z3.And(inb, p < q, q < L)
            e.prove(NAMES_["pair"], z3.Implies(b, z3.And(S(N, p) != S(N, q), R(S(N, p), S(N, q)))))
            e.prove(NAMES_["glob"], z3.And(L >= 0, z3.Or(S(P, root), *[z3.And(a >= 0, a < L, S(N, a) == root) for a in alt_root])))
        def state(): return (G["st"].N, G["st"].F, G["st"].hi, G["D"].a, G["P"].a)
        def edge(a, b_i):      # axioms of reachability: edges, transitivity
            e.assume(z3.Implies(z3.And(b_i >= 0, b_i < DEG(a)), R(a, CH(a, b_i))))
        def trans(a, b, c): e.assume(z3.Implies(z3.And(R(a, b), R(b, c)), R(a, c)))
        class Arb(Cand):
            name = "joint invariant"
            def entry_ok(self, loop, v0): return True
            def make(self, loop, v0, k): return v0.vc_arbitrary()
            def holds(self, loop, v, k): return True
        class InnerStack(Cand):
            """While the children of node x are pushed: below base unchanged; above base unflagged, undiscovered children of x."""
            name = "pushed entries are undiscovered children"
            def entry_ok(self, loop, v0): self.v0 = v0.copy(); return True
            def make(self, loop, v0, k): return v0.vc_arbitrary()
            def holds(self, loop, v, k): return True
        e.candidates = lambda loop, path, kind, v0: [InnerStack() if inner(loop) else Arb()] if isinstance(v0, GStack) else [Arb()] if isinstance(v0, GSet) else []
        inner = lambda loop: "children" in str(loop.tag)
        def find_children(tag):
            if isinstance(tag, tuple):
                if tag and tag[0] == "children": return tag[1]
                for t in tag:
                    r = find_children(t)
                    if r is not None: return r
        O = {}
        def identify():
            """discovered / processed: told apart by what the code does with them (the one whose members are all processed)."""
            if len(sets) != 2: raise Unsupported("traversal state is not two sets")
            a, b = sets
            G["D"], G["P"] = (a, b) if not G.get("swap") else (b, a)
        def on_havoc(loop):
            if loop.tag == ("dfs",):
                if "st" not in G: raise Unsupported("traversal stack not found")
                G["swap"] = swap
                identify()
                mods = loop.info["mods"]
                # initial state satisfies the invariants
                e.prove("invariants hold initially", z3.And(loop_init["hi"] == 1, loop_init["lo"] == 0, S(loop_init["N"], 0) == root, z3.Not(S(loop_init["F"], 0)), *[a == z3.K(I, z3.BoolVal(False)) for a in loop_init["sets"]]))
                st = G["st"]
                st.lo = z3.IntVal(0)
                c = (st.N, st.F, st.hi, G["D"].a, G["P"].a, z3.Function("POS", I, I), z3.Function("WW", I, I, I), z3.Int("WR"))
                O["c"] = c
                t = st.hi - 1
                x = S(st.N, t)
                O["x"], O["t"] = x, t
                POS, WW, WR = c[5], c[6], c[7]
                assume_all(c, [p, q, t, WW(p, i), POS(v), POS(x)], [v, x, root, CH(x, i)], [i])
                for t_ in instances(c)["child"](t, i): e.assume(t_)
                edge(x, i)
                trans(S(st.N, p), x, CH(x, i))
            elif inner(loop):
                ch = find_children(loop.tag)
                st = G["st"]; base = O["base"] = loop_base["hi"]
                x = ch.i
                k = iterm(loop.k)
                PP, IX = z3.Function("PP", I, I), z3.Function("IX", I, I)
                O["PP"], O["IX"] = PP, IX
                item = lambda j: loop.seq.at(SymInt(it=j)).i
                O["item"] = item
                e.prove("inner loop starts from its base", z3.BoolVal(True))
                D, P = G["D"].a, G["P"].a
                st.lo = z3.IntVal(0)
                e.assume(st.hi >= base)
                for a in (p, q, O["t"], O["c"][6](p, i), O["c"][5](v), O["c"][5](x), O["c"][7], base - 1):
                    e.assume(z3.Implies(z3.And(a >= 0, a < base), z3.And(S(st.N, a) == S(loop_base["N"], a), S(st.F, a) == S(loop_base["F"], a))))
                for a in (p, q):
                    y = S(st.N, a)
                    e.assume(z3.Implies(z3.And(a >= base, a < st.hi), z3.And(z3.Not(S(st.F, a)), z3.Not(S(D, y)), IX(a) >= 0, IX(a) < DEG(x), y == CH(x, IX(a)))))
                    edge(x, IX(a))
                trans(S(st.N, p), x, S(st.N, q))
                for j in (i, DEG(x) - 1 - i, k):
                    e.assume(z3.Implies(z3.And(j >= 0, j < k), z3.Or(S(P, item(j)), z3.And(PP(j) >= base, PP(j) < st.hi, S(st.N, PP(j)) == item(j)))))
                O["mid"] = (st.N, st.F, st.hi)
        loop_init, loop_base = {}, {}
        def on_loop(loop):
            st = G.get("st")
            if st is None: return
            d = dict(N=st.N, F=st.F, hi=st.hi, lo=st.lo, sets=[s.a for s in sets])
            (loop_init if loop.tag == ("dfs",) else loop_base).update(d)
        e.on_loop, e.on_havoc = on_loop, on_havoc
        def end(loop):
            st = G["st"]
            if loop.tag == ("dfs",):
                c = state()
                x, t = O["x"], O["t"]
                POS, WW, WR = O["c"][5:8]
                alt_w = [WW(p, i), t]
                if "PP" in O: alt_w += [O["PP"](i), O["PP"](DEG(x) - 1 - i)]
                prove_all(c, alt_w, [POS(v), t], [WR, t])
                em, vi = O.get("emitted"), O.get("visited")
                if method == "dependency_order": e.prove("processed nodes are exactly the emitted ones", S(c[4], v) == z3.Or(S(O["c"][4], v), *([v == em] if em is not None else [])))
                else: e.prove("discovered nodes are exactly the visited ones", S(c[3], v) == z3.Or(S(O["c"][3], v), *([v == vi] if vi is not None else [])))
            elif inner(loop):
                base, PP, IX, item = O["base"], O["PP"], O["IX"], O["item"]
                x = find_children(loop.tag).i
                D, P = G["D"].a, G["P"].a
                N0, F0, L0 = O["mid"]
                k = iterm(loop.k)
                e.prove("discovered and processed nodes do not change while children are pushed", D.eq(loop_base["sets"][sets.index(G["D"])]) and P.eq(loop_base["sets"][sets.index(G["P"])]))
                e.prove("entries below the children are untouched", z3.And(st.hi >= base, z3.Implies(z3.And(p >= 0, p < base), z3.And(S(st.N, p) == S(loop_base["N"], p), S(st.F, p) == S(loop_base["F"], p)))))
                y = S(st.N, p)
                e.prove("pushed entries are undiscovered children of the node", z3.Implies(z3.And(p >= base, p < st.hi), z3.And(z3.Not(S(st.F, p)), z3.Not(S(D, y)), z3.Or(y == item(k), z3.And(IX(p) >= 0, IX(p) < DEG(x), y == CH(x, IX(p)))))))
                j = i
                e.prove("children looked at are processed or pushed", z3.Implies(z3.And(j >= 0, j <= k), z3.Or(S(P, item(j)), *[z3.And(a >= base, a < st.hi, S(st.N, a) == item(j)) for a in (PP(j), L0)])))
        e.on_iteration_end = end
        e.assume(DEG(root) >= 0)
        class Tree: pass
        tree = Tree(); tree.root = GNode(g, root)
        e.reach("pre")
        from flatdata.generator.tree.traversal import DfsTraversal
        tr = DfsTraversal(tree)
        count = 0
        try:
            for node, attr in getattr(tr, method)():
                count += 1
                if count > 1: e.fail("at most one node per step", ""); return
                x = node.i
                P = G["P"].a if "P" in G else None
                if P is None: e.fail("nodes are yielded from within the traversal loop", ""); return
                Pn = O["c"][4]
                if method == "dependency_order":
                    e.prove("a node is emitted at most once", z3.Not(S(Pn, x)))
                    e.prove("all children of a node are emitted before it", z3.Implies(z3.And(i >= 0, i < DEG(x)), S(Pn, CH(x, i))))
                    O["emitted"] = x
                else:
                    e.prove("a node is visited at most once", z3.Not(S(O["c"][3], x)))
                    O["visited"] = x
        except ERR.CircularReferencing:
            x = O["x"]
            N, F, L, D, P, POS, WW, WR = O["c"]
            ch = O["item"](iterm(last_k(e)))
            for t in instances(O["c"])["node"](ch): e.assume(t)
            pc = POS(ch)
            for t in instances(O["c"])["pair"](pc, O["t"]): e.assume(t)
            trans(ch, x, ch)
            e.assume(R(x, ch))      # ch is a child of x
            e.prove("a cycle error only when a node reaches itself", z3.Or(ch == x, R(ch, ch))); return
        except ERR.FlatdataSyntaxError as ex: e.fail("no other error", str(type(ex))); return
        e.prove("at the end the root is emitted", S(G["P"].a, root))
        e.prove("at the end the children of every emitted node are emitted", z3.Implies(z3.And(S(G["P"].a, v), i >= 0, i < DEG(v)), S(G["P"].a, CH(v, i))))
        e.prove("at the end nothing is discovered but not emitted", z3.Implies(S(G["D"].a, v), S(G["P"].a, v)))
        e.reach("post")
    def last_k(e): return e.loopstack[-1].k if e.loopstack else Unsupported
    eng.explore(driver)
    return eng
