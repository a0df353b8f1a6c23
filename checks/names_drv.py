"""Contracts of name lookup, insertion, resolution and references (C14)."""
from checks.gen_drv import *
import flatdata.generator.tree.resolver as RSV
from flatdata.generator.tree.nodes.root import Root
K = I        # keys (identifiers) are atoms

class Key(SymStrBase):
    def __init__(self, t): self.t = t
    def __eq__(self, o): return mkbool(self.t == o.t) if isinstance(o, Key) else False
    def __ne__(self, o): return not_(self == o)
    def __hash__(self): raise Unsupported("hash of a symbolic name")
    def __bool__(self): return True
    def __add__(self, o): return PathText(1, lambda k: self) + o
    def __radd__(self, o): return PathText(0, None) + o + self
    def __format__(self, s): return "<name>"
    def __str__(self): return SymTextNum()
    def split(self, sep=None, *a): return PathText(1, lambda k: self).split(sep, *a)

class PathText(SymStrBase):
    """Text made of m >= 0 names joined by dots (names contain no dot); dot: a trailing dot follows."""
    def __init__(self, m, at, dot=False): self.m, self.at, self.dot = m, at, dot
    def empty(self): return isinstance(self.m, int) and self.m == 0
    def __add__(self, o):
        if isinstance(o, str):
            if o == "": return self
            if o == "." and not self.dot: return PathText(self.m, self.at, True)
            raise Unsupported("path text")
        if isinstance(o, Key): o = PathText(1, lambda k, q=o: q)
        if not isinstance(o, PathText): return NotImplemented
        if not self.dot and not self.empty(): raise Unsupported("names joined without a separator")
        n, a, b = self.m, self.at, o.at
        if self.empty(): return o
        return PathText(mk(SymInt.of(n) + o.m), lambda k: Key(z3.If(iterm(k) < iterm(n), a(k).t, b(SymInt.of(k) - n).t)), o.dot)
    def __radd__(self, o):
        if o == "": return self
        raise Unsupported("path text")
    def split(self, sep=None, *a):
        if sep != "." or a or self.dot: raise Unsupported("split of a path")
        at = self.at
        return SymSeq(self.m, lambda k: at(SymInt.of(k)), ("keys",))
    def __eq__(self, o): raise Unsupported("comparison of paths")
    __hash__ = None
    def __bool__(self): return True
    def __format__(self, s): return "<path>"
    def __str__(self): return SymTextNum()

class StoreMap(Sym):
    """The children of a node: an arbitrary map from names to nodes, kept as updates over unknown contents."""
    __vc_types__ = (dict,)
    def __init__(self, has, val): self.has, self.val, self.upd = has, val, []
    def look(self, k):
        """(present term, [(condition, node)]) newest first"""
        return z3.Or(self.has(k.t), *[k.t == u.t for u, _ in self.upd])
    def vc_contains(self, k):
        if not isinstance(k, Key): raise Unsupported("child name")
        return mkbool(self.look(k))
    def __getitem__(self, k):
        if not isinstance(k, Key): raise Unsupported("child name")
        for u, n in reversed(self.upd):
            if mkbool(k.t == u.t): return n
        if not mkbool(self.has(k.t)): raise KeyError("name")
        return self.val(k.t)
    def get(self, k, d=None): return self[k] if self.vc_contains(k) else d
    def __setitem__(self, k, n):
        if not isinstance(k, Key): raise Unsupported("child name")
        self.upd.append((k, n))

HAS, CHD, NAME = z3.Function("has", I, K, B), z3.Function("child", I, K, I), z3.Function("name", I, K)
class GN(Node):
    """A node of an arbitrary tree."""
    def __init__(self, i): self.i = i
    @property
    def name(self): return Key(NAME(self.i))
    _name = name
    @property
    def _children(self): return StoreMap(lambda k: HAS(self.i, k), lambda k: GN(CHD(self.i, k)))
    def symbols(self, *a): return ()
    def __bool__(self): return True

def find_case(method):
    """Node.find / find_last / get_relative / get: the node reached by following the names one child at a time, else an error / the last existing one / the default."""
    def driver(e):
        me = z3.Int("me")
        m = SymInt.var("names", lo=1)
        KEY = z3.Function("key", I, K)
        rel = method in ("get_relative", "find_relative")
        key = (lambda j: KEY(j)) if rel else (lambda j: KEY(j + 1))         # the j-th step goes to this child
        steps = m if rel else m - 1
        N = z3.Function("reached", I, I)
        e.assume(N(0) == me)
        e.assume(steps >= 0)
        w = SymInt.var("step", lo=0)
        class Follow(Cand):
            name = "the node reached after the names so far"
            def entry_ok(self, loop, v0): return isinstance(v0, GN) and loop.e.implied(v0.i == N(0))
            def make(self, loop, v0, k):
                return GN(N(iterm(k)))
            def holds(self, loop, v, k):
                return isinstance(v, GN) and loop.e.implied(v.i == N(iterm(k)))
        def on_havoc(loop):
            k = iterm(loop.k)
            e.assume(N(k + 1) == CHD(N(k), key(k)))
        e.on_havoc = on_havoc
        e.candidates = lambda loop, path, kind, v0: [Follow()] if isinstance(v0, GN) else []
        e.facts = lambda loop: [Fact("every name followed names a child", lambda k: mkbool(HAS(N(iterm(k)), key(iterm(k)))), [w])]
        p = PathText(m, lambda k: Key(KEY(iterm(k))))
        node = GN(me)
        here = lambda: e.loopstack[-1].k if e.loopstack else None
        last = {}
        e.on_loop = lambda loop: last.update(k=loop.k, fin=loop.finished)
        DEF = object()
        e.reach("pre")
        f = getattr(node, method)
        res, err = guard(e, lambda: f(p, DEF) if method.startswith("get") else f(p), RuntimeError)
        matches = z3.BoolVal(True) if rel else NAME(me) == KEY(0)
        missing = lambda: z3.And(last["fin"] is False, matches, iterm(last["k"]) < iterm(steps), z3.Not(HAS(N(iterm(last["k"])), key(iterm(last["k"]))))) if last else z3.BoolVal(False)
        if err is not None or res is DEF:
            if err is not None and method not in ("find", "find_relative"): e.fail("no error", str(err)); return
            if err is None and method in ("find", "find_relative"): e.fail("an error for a missing path", ""); return
            e.prove("refused only when a name on the path does not exist", z3.Or(z3.Not(matches), missing())); return
        if res is None:
            e.prove("nothing only when the first name differs", z3.And(method == "find_last", z3.Not(matches))); return
        if not isinstance(res, GN): e.fail("a node is returned", repr(res)); return
        e.prove("the first name is the node's own", matches)
        if method == "find_last" and last and not last["fin"]:
            k = iterm(last["k"])
            e.prove("the last existing node", z3.And(res.i == N(k), z3.Not(HAS(N(k), key(k))))); return
        e.prove("the node at the end of the path", res.i == N(iterm(steps)))
        e.prove("every name on the path names a child of the node before it", z3.Implies(w.it < iterm(steps), HAS(N(w.it), key(w.it))))
        e.reach("post")
    return func_case(f"Node.{method}", driver)

def insert_case():
    """Node.insert: all names become children, unless one is already a child (SymbolRedefinition) or has a parent (RuntimeError)."""
    def driver(e):
        has, val = z3.Function("haschild", K, B), z3.Function("childat", K, I)
        cnt = e.choose(2) + 1
        class Par(Node):
            def __init__(self): self._children = StoreMap(lambda k: has(k), lambda k: ("old", k)); self._parent = None
            name = property(lambda s: "parent")
        class Child(Node):
            def __init__(self, i): self.i = i; self.__dict__["_parent"] = Named("other") if e.branch(z3.Bool(f"hasparent{i}")) else None
            name = property(lambda s: Key(z3.Int(f"name{s.i}"))); _name = name
            path = property(lambda s: "p")
        p = Par(); cs = [Child(i) for i in range(cnt)]
        before = [c._parent for c in cs]
        m0 = p._children
        probe = Key(z3.Int("probe"))
        e.reach("pre")
        _, err = guard(e, lambda: p.insert(*cs), ERR.SymbolRedefinition, RuntimeError)
        m = p._children
        if m is not m0: raise Unsupported("children replaced")
        nm = [c.name.t for c in cs]
        dup = [z3.Or(has(nm[i]), *[nm[i] == nm[j] for j in range(i)]) for i in range(cnt)]
        if isinstance(err, ERR.SymbolRedefinition): e.prove("a redefinition only when the name exists in the scope", z3.Or(*dup)); return
        if err is not None: e.prove("reparenting refused only when a node has a parent", any(b is not None for b in before)); return
        for i in range(cnt): e.prove("a name that exists in the scope is never accepted", z3.Not(dup[i]))
        e.prove("a node of another tree is never accepted", all(b is None for b in before))
        e.prove("the nodes are children under their names", all(m[c.name] is c and c._parent is p for c in cs))
        e.prove("exactly the new names are added", m.look(probe) == z3.Or(has(probe.t), *[probe.t == x for x in nm]))
        e.prove("other children are kept", z3.Implies(z3.And(has(probe.t), *[probe.t != x for x in nm]), isinstance(m[probe], tuple)) if e.branch(z3.And(has(probe.t), *[probe.t != x for x in nm])) else True)
        e.reach("post")
    return func_case("Node.insert", driver)

def path_case():
    """Node.path: the parent's path, a dot and the name (the root's is its name); root, parents: see resolver."""
    def driver(e):
        m = SymInt.var("depth", lo=1)
        PK = z3.Function("parentkey", I, K)
        class Pn:
            path = PathText(m, lambda k: Key(PK(iterm(k))))
        class Ch(Node):
            def __init__(self, p): self._parent = p
            name = property(lambda s: Key(z3.Int("own"))); _name = name
        e.reach("pre")
        r = Ch(Pn()).path
        if not isinstance(r, PathText) or r.dot: e.fail("a path", repr(r)); return
        j = SymInt.var("j", lo=0)
        e.prove("one name longer than the parent's path", mkbool(iterm(r.m) == m.it + 1))
        e.prove("the parent's names, then the node's own", z3.Implies(j.it <= m.it, r.at(j).t == z3.If(j.it < m.it, PK(j.it), z3.Int("own"))))
        top = Ch(None).path
        e.prove("a node without parent is its own path", isinstance(top, Key) and top.t.eq(z3.Int("own")))
        e.reach("post")
    return func_case("Node.path", driver)

# --- references: names to text and back ---------------------------------------------------------------------------------
class CText(SymStrBase):
    """Text as a sequence of character codes: length and at(i)."""
    def __init__(self, n, at): self.n, self.at = n, at          # n: z3 Int term
    @staticmethod
    def of(o):
        if isinstance(o, CText): return o
        if isinstance(o, str):
            def at(i):
                r = z3.IntVal(-1)
                for j, c in reversed(list(enumerate(o))): r = z3.If(i == j, z3.IntVal(ord(c)), r)
                return r
            return CText(z3.IntVal(len(o)), at)
        return None
    def __add__(self, o):
        o = CText.of(o)
        if o is None: return NotImplemented
        n, a, b = self.n, self.at, o.at
        return CText(n + o.n, lambda i: z3.If(i < n, a(i), b(i - n)))
    def __radd__(self, o):
        o = CText.of(o)
        return NotImplemented if o is None else o + self
    def vc_len(self): return SymInt(it=self.n)
    def __bool__(self): return bool(mkbool(self.n != 0))
    def replace(self, a, b, *r):
        if r or not (isinstance(a, str) and isinstance(b, str) and len(a) == len(b) == 1): raise Unsupported("replace")
        at = self.at
        return CText(self.n, lambda i: z3.If(at(i) == ord(a), z3.IntVal(ord(b)), at(i)))
    def translate(self, m):
        if not isinstance(m, dict): raise Unsupported("translate")
        at, n = self.at, self.n
        if not all(isinstance(v, int) or isinstance(v, str) and len(v) == 1 for v in m.values()): raise Unsupported("translate")
        def f(i):
            r = at(i)
            for k, v in m.items(): r = z3.If(at(i) == k, z3.IntVal(v if isinstance(v, int) else ord(v)), r)
            return r
        return CText(n, f)
    def __getitem__(self, k):
        n, at = self.n, self.at
        if isinstance(k, slice) and k.step in (None, 1):
            def c(v, d):
                if v is None: return d
                v = iterm(v)
                v = z3.If(v < 0, z3.If(v + n < 0, z3.IntVal(0), v + n), v)
                return z3.If(v > n, n, v)
            a, b = z3.simplify(c(k.start, z3.IntVal(0))), c(k.stop, n)
            return CText(z3.simplify(z3.If(b > a, b - a, z3.IntVal(0))), lambda i: at(i + a))
        if isinstance(k, (int, SymInt)):
            i = iterm(k)
            if mkbool(z3.Or(i >= n, i < -n)): raise IndexError("string index out of range")
            j = z3.If(i < 0, i + n, i)
            return CText(z3.IntVal(1), lambda x: at(j + x))
        raise Unsupported("string index")
    def _short(self, o): return z3.And(self.n == o.n, *[self.at(z3.IntVal(i)) == o.at(z3.IntVal(i)) for i in range(o.n.as_long())])
    def __eq__(self, o):
        p = CText.of(o)
        if p is None: return False
        if z3.is_int_value(z3.simplify(p.n)): return mkbool(self._short(p))
        d = z3.Int(E.fresh_name("differs"))
        b = z3.Bool(E.fresh_name("same"))
        e = E.cur()
        e.assume(z3.Implies(z3.Not(b), z3.Or(self.n != p.n, z3.And(d >= 0, d < self.n, self.at(d) != p.at(d)))))
        for i in getattr(e, "probes", []): e.assume(z3.Implies(b, z3.And(self.n == p.n, z3.Implies(z3.And(i >= 0, i < self.n), self.at(i) == p.at(i)))))
        return mkbool(b)
    def __ne__(self, o): return not_(self == o)
    def __hash__(self): raise Unsupported("hash of symbolic text")
    def startswith(self, o, *a):
        p = CText.of(o)
        if a or p is None or not z3.is_int_value(p.n): raise Unsupported("startswith")
        return mkbool(z3.And(self.n >= p.n, self[:p.n.as_long()]._short(p)))
    def endswith(self, o, *a):
        p = CText.of(o)
        if a or p is None: raise Unsupported("endswith")
        d = z3.Int(E.fresh_name("i"))
        for x in getattr(E.cur(), "no_at", []): E.cur().assume(x(d))
        if not E.cur().implied(z3.And(self.n >= p.n, z3.Implies(z3.And(d >= 0, d < p.n), self.at(self.n - p.n + d) == p.at(d)))): raise Unsupported("endswith undecided")
        return True
    def vc_contains(self, c):
        if not isinstance(c, str) or len(c) != 1: raise Unsupported("text in text")
        d = z3.Int(E.fresh_name("i"))
        e = E.cur()
        for x in getattr(e, "no_at", []): e.assume(x(d))
        if e.implied(z3.Implies(z3.And(d >= 0, d < self.n), self.at(d) != ord(c))): return False
        raise Unsupported("text containment undecided")
    def __str__(self): return SymTextNum()
    def __format__(self, s): return "<text>"

def reference_case():
    """Reference: target is the text it was made from, is_qualified iff that starts with a dot; update_reference sets the target."""
    def driver(e):
        n, ln = z3.Int("len"), z3.Int("len_prefix")
        C, P = z3.Function("char", I, I), z3.Function("prefixchar", I, I)
        e.assume(n >= 1); e.assume(ln >= 0)
        x = CText(n, C)
        i = z3.Int("probe"); j = z3.Int("probe2")
        e.probes = [i, i - 1, i + 1]
        clean = lambda d: z3.And(C(d) != ord("@"), P(d) != ord("@"))       # names come from the grammar: no '@'
        e.no_at = [clean, lambda d: z3.And(clean(d - 1), clean(d + 1))]
        for d in (i, i - 1, i + 1, z3.IntVal(0), z3.IntVal(1), i - ln, i - ln - 1, i - ln - 2): e.assume(clean(d))
        same = lambda a, b: z3.And(a.n == b.n, z3.Implies(z3.And(i >= 0, i < b.n), a.at(i) == b.at(i)))
        e.reach("pre")
        for cls in (REF.StructureReference, REF.EnumerationReference):
            r, err = guard(e, lambda: cls(x))
            t = r.target
            if not isinstance(t, CText): e.fail("target is text", repr(t)); return
            e.prove("the target is the name the reference was made from", same(t, x))
            q = r.is_qualified
            e.prove("qualified iff the name starts with a dot", term(q) == (C(0) == ord(".")))
            full = CText(ln, P) + "." + x
            guard(e, lambda: r.update_reference(full))
            e.prove("an updated reference targets the given path", same(r.target, full))
        e.reach("post")
    return func_case("Reference", driver)

# --- resolver ----------------------------------------------------------------------------------------------------------
def chain(e):
    """ref -> scope 0 (its parent) -> scope 1 -> ... -> scope D (root); scope NK is the innermost namespace above scope 0."""
    D, NK = z3.Int("depth"), z3.Int("innermost_namespace")
    NS, FOUND = z3.Function("is_namespace", I, B), z3.Function("found_in_scope", I, B)
    e.assume(z3.And(D >= 2, NK >= 1, NK < D, NS(NK), z3.Not(NS(0)), z3.Not(NS(D))))
    def inst(j): e.assume(z3.Implies(z3.And(j >= 0, j < NK), z3.Not(NS(j))))
    class Scope:
        """k-th enclosing node; class Namespace or not is decided when looked at."""
        __vc_types__ = ()
        def get_relative(s, path, default=None): return look(s, path, default)
        def find_relative(s, path):
            r = look(s, path, None)
            if r is None: raise RuntimeError("not found")
            return r
    def parent_of(k):
        inst(k + 1)
        if e.branch(k + 1 > D): return None
        if e.branch(NS(k + 1)): return mkscope(NsScope, k + 1)
        return mkscope(OtherScope, k + 1)
    class OtherScope(Scope, RES.Vector):
        name = property(lambda s: "scope")
        parent = property(lambda s: parent_of(s.k)); _parent = parent
        first_parent_like = Node.first_parent_like
    class NsScope(Scope, T.Namespace):
        name = property(lambda s: "scope")
        parent = property(lambda s: parent_of(s.k)); _parent = parent
        first_parent_like = Node.first_parent_like
    def mkscope(cls, k):
        s = cls.__new__(cls); s.__dict__["k"] = z3.simplify(k); return s
    asked = []
    TARGET = "target-token"
    def look(s, path, default=None):
        if path != TARGET: e.fail("the reference's own target is looked up", repr(path)); raise E.PathEnd()
        asked.append(s.k)
        return Named(("sym", s.k)) if e.branch(FOUND(s.k)) else default
    class Ref(REF.StructureReference):
        def __init__(self): self.updates = []
        name = property(lambda s: "@" + TARGET); target = property(lambda s: TARGET)
        parent = property(lambda s: mkscope(OtherScope, z3.IntVal(0))); _parent = parent
        def update_reference(self, p): self.updates.append(p)
        root = property(lambda s: Unsupported)
    Named.path = property(lambda s: ("path", s.name))
    class ScopeCand(Cand):
        name = "the enclosing scope walked to"
        def entry_ok(self, loop, v0): self.k0 = v0.k if hasattr(v0, "k") and not isinstance(v0, Ref) else z3.IntVal(-1); self.ref = v0; return True
        def make(self, loop, v0, k):
            kk = self.k0 + iterm(k)
            if z3.is_int_value(z3.simplify(kk)) and z3.simplify(kk).as_long() == -1: return v0
            if isinstance(v0, Ref):
                if e.branch(iterm(k) == 0): return v0
            inst(kk)
            e.assume(z3.And(kk >= 0, kk < NK))
            return mkscope(OtherScope, kk)
        def holds(self, loop, v, k):
            if isinstance(v, Ref): return loop.e.implied(self.k0 + iterm(k) == -1)
            return isinstance(v, OtherScope) and loop.e.implied(z3.And(v.k == self.k0 + iterm(k), v.k < NK))
    j = z3.Int("any_scope")
    def on_havoc(loop):
        c = [c for c in loop.cands.values() if isinstance(c, ScopeCand)]
        if not c or not isinstance(loop, WhileLoop): return
        loop.base = c[0].k0
        n = loop.base + iterm(loop.k)
        if getattr(loop, "looks", None) is None: loop.looks = True
        if e.walk == "search": e.assume(z3.Implies(z3.And(j >= 1, j <= n), z3.Not(FOUND(j))))
        if e.walk == "search":      # initially: nothing skipped yet
            e.prove("no scope is skipped at the start", z3.Implies(z3.And(j >= 1, j <= loop.base), z3.Not(FOUND(j))))
    def end(loop):
        if isinstance(loop, WhileLoop) and e.walk == "search":
            n = loop.base + iterm(loop.k) + 1
            e.prove("no enclosing scope walked past contains the name", z3.Implies(z3.And(j >= 1, j <= n), z3.Not(FOUND(j))))
    e.on_havoc, e.on_iteration_end = on_havoc, end
    e.candidates = lambda loop, path, kind, v0: [ScopeCand()] if isinstance(v0, (Scope, Ref)) else []
    e.cut_while = lambda site: ("chain",) if any(x in site for x in ("resolver", "_resolve", "first_parent_like", "parents")) else None
    class C_: pass
    c = C_(); c.__dict__.update(D=D, NK=NK, NS=NS, FOUND=FOUND, Ref=Ref, asked=asked, j=j, mkscope=mkscope, OtherScope=OtherScope, NsScope=NsScope)
    return c

def scope_case():
    """_resolve_in_parent_scope: the nearest scope between the item and its namespace that contains the name, else nothing changes."""
    def driver(e):
        e.walk = "search"
        c = chain(e)
        r = c.Ref()
        e.reach("pre")
        res, err = guard(e, lambda: RSV._resolve_in_parent_scope(r))
        if res:
            if len(r.updates) != 1: e.fail("the reference is updated once", repr(r.updates)); return
            k = r.updates[0][1][1]
            e.prove("the reference becomes the path of what was found in a scope", c.FOUND(k))
            e.prove("that scope encloses the item and lies inside its namespace", z3.And(k >= 1, k < c.NK))
            e.prove("no nearer scope contains the name", z3.Implies(z3.And(c.j >= 1, c.j < k), z3.Not(c.FOUND(c.j))))
        else:
            e.prove("unresolved references are left alone", not r.updates)
            e.prove("unresolved only when no scope inside the namespace contains the name", z3.Implies(z3.And(c.j >= 1, c.j < c.NK), z3.Not(c.FOUND(c.j))))
        e.reach("post")
    return func_case("_resolve_in_parent_scope", driver)

def namespace_case():
    """_resolve_in_parent_namespace: what the innermost namespace contains under the name, else nothing changes."""
    def driver(e):
        e.walk = "first_parent"
        c = chain(e)
        r = c.Ref()
        e.reach("pre")
        res, err = guard(e, lambda: RSV._resolve_in_parent_namespace(r))
        if res:
            if len(r.updates) != 1: e.fail("the reference is updated once", repr(r.updates)); return
            k = r.updates[0][1][1]
            e.prove("the reference becomes the path of what the innermost namespace contains", z3.And(k == c.NK, c.FOUND(k)))
        else:
            e.prove("unresolved references are left alone", not r.updates)
            e.prove("unresolved only when the innermost namespace lacks the name", z3.Not(c.FOUND(c.NK)))
        e.reach("post")
    return func_case("_resolve_in_parent_namespace", driver)

EXPECT = {"StructureReference": "Structure", "ArchiveReference": "Archive", "VectorReference": "Vector", "FieldReference": "Field", "ResourceReference": "ResourceBase",
          "BuiltinStructureReference": "Structure", "ConstantValueReference": "Constant", "InvalidValueReference": "Constant", "EnumerationReference": "Enumeration"}
CLASSES = {"Structure": T.Structure, "Archive": Archive, "Vector": RES.Vector, "Field": T.Field, "Constant": T.Constant, "Enumeration": T.Enumeration,
           "Multivector": RES.Multivector, "Namespace": T.Namespace, "EnumerationValue": T.EnumerationValue, "RawData": RES.RawData, "Instance": RES.Instance}
class Tok:
    """Name of a reference: qualified or not, and its target."""
    def __init__(self, q, tgt): self.q, self.tgt = q, tgt
    def __getitem__(self, k):
        if k == slice(None, 2): return Eq(self.q, "@@")
        if k == slice(1, None): return Rep(self.tgt)
        raise Unsupported("reference name")
    def startswith(self, p): return self.q if p == "@@" else Unsupported
class Eq(Sym):
    def __init__(self, q, s): self.q, self.s = q, s
    def __eq__(self, o):
        if o != self.s: raise Unsupported("reference name")
        return self.q
    __hash__ = None
class Rep:
    def __init__(self, t): self.t = t
    def replace(self, a, b): return self.t

def resolve_case(kind):
    """resolve_references: accepted iff every reference resolves (dot names only absolutely, others by scope, then namespace) to a definition of the right kind."""
    def driver(e):
        n = SymInt.var("nodes", lo=0)
        w = SymInt.var("w", lo=0)
        cls = getattr(REF, kind)
        ISREF, QUAL = z3.Function("isref", I, B), z3.Function("qualified", I, B)
        INSC, INNS, ABS, OK = [z3.Function(x, I, B) for x in ("in_scope", "in_namespace", "absolute", "kind_ok")]
        log = []
        ok = lambda k: z3.Implies(ISREF(k), z3.And(z3.If(QUAL(k), ABS(k), z3.Or(INSC(k), INNS(k))), OK(k)))
        def at(k):
            k = iterm(k)
            log.append(k)
            if not e.branch(ISREF(k)):
                s = T.Structure.__new__(T.Structure); s.__dict__["_name"] = "S"; s.__dict__["_parent"] = None; s.__dict__["_children"] = {}; return s
            r = cls.__new__(cls)
            r.__dict__.update(_name=Tok(mkbool(QUAL(k)), ("target", k)), _parent=None, _children={}, k=k)
            return r
        class Rt(Root):
            def __init__(self): self.__dict__.update(_name="", _parent=None, _children={})
            def iterate(self, t=None): return SymSeq(n, at, ("nodes",)) if t is None else e.fail("all nodes are visited", repr(t))
            def symbols(self, *a): return ()
            root = property(lambda s: s)
            def find(self, p):
                if not (isinstance(p, tuple) and p[0] == "target"): e.fail("the reference's target is looked up", repr(p)); raise E.PathEnd()
                names = list(CLASSES)
                good = [x for x in names if issubclass(CLASSES[x], CLASSES.get(EXPECT[kind], RES.ResourceBase))]
                pick = names[e.choose(len(names))]
                e.assume(OK(p[1]) == (pick in good), check=True)
                c = CLASSES[pick]; o = c.__new__(c); o.__dict__.update(_name="x", _parent=None, _children={}); return o
            def find_relative(self, p): raise Unsupported("find_relative")
        M = "flatdata.generator.tree.resolver."
        e.contracts = {M + "_resolve_in_parent_scope": lambda r: mkbool(INSC(r.k)), M + "_resolve_in_parent_namespace": lambda r: mkbool(INNS(r.k)),
                       M + "_resolve_as_fully_qualified_reference": lambda r: mkbool(ABS(r.k)), M + "_filter_references": lambda x: []}
        e.facts = lambda loop: [Fact("every reference passed over resolves to the right kind", lambda k: mkbool(ok(iterm(k))), [w])]
        class Tree: root = Rt()
        Tree.symbols = lambda s: ()
        e.reach("pre")
        _, err = guard(e, lambda: RSV.resolve_references(Tree()), ERR.MissingSymbol, ERR.IncorrectReferenceType)
        if err is not None:
            k = log[-1]
            un = z3.Not(z3.If(QUAL(k), ABS(k), z3.Or(INSC(k), INNS(k))))
            e.prove("missing symbol only when nothing matches; wrong kind only when the kind is wrong", z3.And(ISREF(k), un if isinstance(err, ERR.MissingSymbol) else z3.And(z3.Not(un), z3.Not(OK(k))))); return
        e.prove("accepted only when every reference resolves to a definition of the right kind", z3.Implies(w.it < n.it, ok(w.it)))
        e.reach("post")
    return func_case(f"resolve_references[{kind}]", driver)

def absolute_case():
    """_resolve_as_fully_qualified_reference: exactly the absolute path, from the root."""
    def driver(e):
        F = z3.Bool("exists")
        class Rt:
            def find(self, p):
                if p != "abs-target": e.fail("the absolute path is looked up from the root", repr(p))
                if not e.branch(F): raise RuntimeError("no")
                return Named("x")
            def get(self, p, d=None):
                try: return self.find(p)
                except RuntimeError: return d
        class R:
            root = Rt(); target = "abs-target"; parent = None
            def update_reference(self, p): e.fail("an absolute reference is not changed", repr(p))
        e.reach("pre")
        res, err = guard(e, lambda: RSV._resolve_as_fully_qualified_reference(R()))
        e.prove("resolved iff the path exists", term(mkbool(F)) == bool(res))
        e.reach("post")
    return func_case("_resolve_as_fully_qualified_reference", driver)

def merge_case():
    """_merge_roots: every definition of every namespace block is inserted (insert refuses duplicates) into the namespace of that path."""
    def driver(e):
        n = SymInt.var("blocks", lo=0)
        M_, PATH = z3.Function("definitions", I, I), z3.Function("path", I, I)
        INS = z3.Function("inserted", I, I, B)      # ghost: (block, definition) went into its namespace
        w, wj = SymInt.var("w", lo=0), SymInt.var("wj", lo=0)
        done = []
        class Ns:
            def __init__(self, k): self.k = k
            @property
            def children(self):
                e.assume(M_(self.k) >= 0)
                return SymSeq(SymInt(it=M_(self.k), lo=0), lambda j: Def(self.k, iterm(j)), ("defs", self.k))
            @property
            def path(self): return PathId(self.k)
        class PathId(SymStrBase):
            def __init__(self, k, abs_=False): self.k, self.abs_ = k, abs_
            def __radd__(self, o):
                if o != "." or self.abs_: raise Unsupported("path")
                return PathId(self.k, True)
        class Def:
            def __init__(self, k, j): self.k, self.j, self.free = k, j, False
            def detach(self): self.free = True; return self
        class Target:
            def __init__(self, k): self.k = k
            def insert(self, d):
                e.prove("a definition goes into the namespace of its own path", PATH(d.k) == PATH(self.k))
                e.prove("a definition is detached before it moves", d.free)
                done.append((d.k, d.j)); return self
        G = "flatdata.generator.tree.builder."
        e.contracts = {G + "_innermost_namespace": lambda r: Ns(r.k), G + "_ensure_namespace": lambda root, p: Target(p.k) if isinstance(p, PathId) and p.abs_ else e.fail("absolute path", "")}
        class Blk:
            def __init__(self, k): self.k = iterm(k)
        def facts(loop):
            if loop.tag == ("blocks",):
                return [Fact("every definition of a block passed over is inserted", lambda k: mkbool(z3.Implies(wj.it < M_(iterm(k)), INS(iterm(k), wj.it))), [w])]
            if loop.tag[0] == "defs":
                kk = loop.tag[1]
                def f(j):
                    if j is loop.k: return any(a.eq(kk) and b.eq(iterm(j)) for a, b in done)
                    return mkbool(INS(kk, iterm(j)))
                return [Fact("a definition passed over is inserted", f, [wj])]
            return []
        e.facts = facts
        e.reach("pre")
        res, err = guard(e, lambda: BLD._merge_roots(SymSeq(n, Blk, ("blocks",))))
        e.prove("every definition of every block is inserted", z3.Implies(z3.And(w.it < n.it, wj.it < M_(w.it)), INS(w.it, wj.it)))
        e.reach("post")
    return func_case("_merge_roots", driver)
