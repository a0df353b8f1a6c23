"""Symbolic sequences and loop cutting.

for-loop over a sequence of symbolic length n: the loop is cut.  Either (a) it is finished: the state is the generic
state at k = n, or (b) an arbitrary iteration k (0 <= k < n) runs from the generic state at k and must re-establish
the generic state at k+1; then the path ends.  Which locations the body modifies is *discovered* (heap comparison at
the end of the iteration, exploration restarted when a new one shows up), so nothing modified escapes.  The value of a
modified location in the generic state comes from candidate invariants supplied by the contract (matched by role, not by
variable name; entry and preservation are checked, failing candidates are dropped), else it is arbitrary.
"""
import sys, types
import z3
from . import engine as E
from .engine import Unsupported, PathEnd, Restart
from .sym import *

MAXUNROLL = 300

class SymSeq(Sym):
    """Sequence of n elements; at(k) is the k-th."""
    def __init__(self, n, at, tag=None, pytype=list):
        self.n, self.at, self.tag, self.pytype = n, at, tag, pytype
    @property
    def __vc_types__(self): return (self.pytype,)
    def vc_len(self): return self.n
    def __len__(self): return SymInt.of(self.n).__index__()
    def __bool__(self): return bool(SymInt.of(self.n) != 0)
    def __iter__(self):
        c = SymInt.of(self.n).concrete()
        if c is None: raise Unsupported("native iteration over a sequence of symbolic length")
        return iter([self.at(i) for i in range(c)])
    def __getitem__(self, k):
        if isinstance(k, slice):
            a = 0 if k.start is None else k.start
            b = self.n if k.stop is None else k.stop
            if k.step is not None: raise Unsupported("slice step of a symbolic sequence")
            n = self.n
            def clamp(v):
                if SymInt.of(v) < 0:
                    v = v + n
                    if SymInt.of(v) < 0: return 0
                return n if SymInt.of(v) > n else v
            a, b = clamp(a), clamp(b)
            if SymInt.of(b) < a: b = a
            return SymSeq(mk(SymInt.of(b) - a), lambda j: self.at(a + j), (self.tag, "slice"), self.pytype)
        si = SymInt.of(k)
        if si < 0:
            k = k + self.n
            if SymInt.of(k) < 0: raise IndexError("list index out of range")
        if not (SymInt.of(k) < self.n): raise IndexError("list index out of range")
        return self.at(k)

def mk(x):
    return mkint(x) if isinstance(x, SymInt) else x

class SymRange(SymSeq):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        st = SymInt.of(step)
        if st == 0: raise ValueError("range() arg 3 must not be zero")
        d = SymInt.of(stop) - start if st > 0 else SymInt.of(start) - stop
        a = abs(st)
        ac = SymInt.of(a).concrete()
        if ac == 1: n = d if d > 0 else 0
        elif not (SymInt.of(d) > 0): n = 0
        elif ac is not None: n = (d + (ac - 1)) // ac
        else:
            e = E.cur()
            nn = SymInt.var("rangelen", lo=1)
            e.assume(z3.And((nn.it - 1) * iterm(a) < iterm(d), iterm(d) <= nn.it * iterm(a)))
            n = nn
        super().__init__(mk(n) if isinstance(n, SymInt) else n, lambda k: mk(SymInt.of(start) + SymInt.of(step) * k), ("range", str(iterm(start)), str(iterm(stop)), str(iterm(step))), range)
    def vc_contains(self, x):
        if SymInt.of(self.step).concrete() == 1:
            return mkbool(z3.And(term(SymInt.of(x) >= self.start), term(SymInt.of(x) < self.stop)))
        raise Unsupported("in range with step")

class Poison(Sym):
    """Value of a location whose content at this point is not determined by any invariant."""
    def __init__(self, why): object.__setattr__(self, "_why", why)
    def __getattribute__(self, n):
        if n == "__class__": return Poison
        raise Unsupported("undetermined value used: " + object.__getattribute__(self, "_why"))
    def __setattr__(self, n, v): raise Unsupported("undetermined value used")
    def _bad(self, *a): raise Unsupported("undetermined value used: " + object.__getattribute__(self, "_why"))
    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __getitem__ = __iter__ = __len__ = __call__ = __hash__ = __sub__ = __and__ = __or__ = _bad

class TrackedList(list):
    """list whose content may be abstract: sym (a SymSeq) followed by the native items."""
    sym = None
    def vc_len(self):
        n = list.__len__(self)
        return n if self.sym is None else mk(SymInt.of(self.sym.n) + n)
    def as_seq(self):
        if self.sym is None: return None
        s, items = self.sym, list.copy(self)
        if not items: return s
        def at(k):
            if SymInt.of(k) < s.n: return s.at(k)
            j = SymInt.of(k) - s.n
            return items[SymInt.of(j).__index__()]
        return SymSeq(self.vc_len(), at, (s.tag, "ext"))
    def _abs(self):
        if self.sym is not None: raise Unsupported("list operation on an abstract list")
    def __getitem__(self, k):
        if self.sym is not None: return self.as_seq()[k]
        return list.__getitem__(self, k)
    def __iter__(self):
        if self.sym is not None: return iter(self.as_seq())
        return list.__iter__(self)
    def __len__(self):
        if self.sym is not None: return SymInt.of(self.vc_len()).__index__()
        return list.__len__(self)
    def __bool__(self):
        return bool(SymInt.of(self.vc_len()) != 0)
    def extend(self, o):
        if isinstance(o, TrackedList) and o.sym is not None or isinstance(o, SymSeq):
            s = o.as_seq() if isinstance(o, TrackedList) else o
            if self.sym is None and list.__len__(self) == 0: self.sym = s; return
            raise Unsupported("extending a list with an abstract list")
        list.extend(self, o)
    def __iadd__(self, o):
        self.extend(o); return self
    def __add__(self, o):
        r = TrackedList(list.copy(self)); r.sym = self.sym
        r.extend(o)
        return r
    def __setitem__(self, k, v): self._abs(); list.__setitem__(self, k, v)
    def pop(self, *a):
        if self.sym is not None and not (list.__len__(self) and not a): self._abs()
        return list.pop(self, *a)
    def insert(self, *a): self._abs(); list.insert(self, *a)
    def remove(self, *a): self._abs(); list.remove(self, *a)
    def sort(self, *a, **k): self._abs(); list.sort(self, *a, **k)
    def reverse(self): self._abs(); list.reverse(self)
    def __eq__(self, o):
        self._abs()
        return list.__eq__(self, o)
    __hash__ = None
    def count(self, x):
        self._abs()
        n = 0
        for y in list.__iter__(self):
            if y == x: n += 1
        return n
    def __contains__(self, x):
        self._abs()
        return list.__contains__(self, x)

# --- heap ------------------------------------------------------------------------------------------------------------
def _own(o):
    m = getattr(type(o), "__module__", "") or ""
    return m.startswith("flatdata") or getattr(type(o), "__vc_heap__", False)

def heap(frame_locals):
    """Ordered {location: (holder, kind, value-token, value)} reachable from a frame."""
    out, seen = {}, {}
    keep = []
    def content(path, o):
        if isinstance(o, SymBytes) and o.kind == "bytearray":
            b = o.buf
            tok = (tuple(c.get_id() for c in b.cells) if b.cells is not None else b.arr.get_id(), o.length if isinstance(o.length, int) else id(o.length))
            keep.append(list(b.cells) if b.cells is not None else b.arr)
            out[path + "{}"] = (o, "content", tok)
        elif isinstance(o, SymBytes) and o.kind == "memoryview":
            b = o.buf
            tok = tuple(c.get_id() for c in b.cells) if b.cells is not None else b.arr.get_id()
            keep.append(list(b.cells) if b.cells is not None else b.arr)
            out[path + "{}"] = (o, "content", tok)
        elif isinstance(o, Rope) and o.kind == "bytearray":
            out[path + "{}"] = (o, "content", tuple(id(p) for p in o.pieces)); keep.append(list(o.pieces))
        elif isinstance(o, TrackedList):
            out[path + "{}"] = (o, "content", (id(o.sym), tuple(id(x) for x in list.__iter__(o)))); keep.append(list(list.__iter__(o)))
        elif isinstance(o, dict):
            out[path + "{}"] = (o, "content", tuple((id(k), id(v)) for k, v in o.items())); keep.append(dict(o))
        elif isinstance(o, (list, set)):
            out[path + "{}"] = (o, "content", tuple(id(x) for x in o)); keep.append(list(o))
        elif hasattr(type(o), "vc_token"):
            out[path + "{}"] = (o, "content", o.vc_token())
    def visit(path, o, depth):
        if o is None or isinstance(o, (int, str, bytes, float, SymInt, SymBool, type, types.ModuleType, Poison)): return
        if id(o) in seen or depth > 7: return
        seen[id(o)] = o
        content(path, o)
        if isinstance(o, (list, tuple)):
            for i, x in enumerate(list.__iter__(o) if isinstance(o, list) else o): visit(f"{path}[{i}]", x, depth + 1)
        elif isinstance(o, dict):
            for i, (k, v) in enumerate(list(o.items())): visit(f"{path}[{i}]", v, depth + 1)
        elif isinstance(o, types.FunctionType):
            for i, c in enumerate(o.__closure__ or ()):
                try: visit(f"{path}.cell{i}", c.cell_contents, depth + 1)
                except ValueError: pass
        elif isinstance(o, types.MethodType): visit(path + ".self", o.__self__, depth)
        elif _own(o) and hasattr(o, "__dict__"):
            for k, v in list(o.__dict__.items()):
                out[f"{path}.{k}"] = (o, ("attr", k), id(v)); keep.append(v)
                visit(f"{path}.{k}", v, depth + 1)
    for k, v in frame_locals.items():
        if k.startswith("__vch") or k.startswith("__vco") or k.startswith("__vck"): continue
        out["L:" + k] = (None, ("local", k), id(v)); keep.append(v)
        visit("L:" + k, v, 0)
    return out, keep, seen

_UNB = object()

class Loop:
    """Common part of cut for- and while-loops.  self.k is the ghost iteration counter."""
    cut = True
    def __init__(self, site, names, frame, n, tag):
        e = self.e = E.cur()
        self.site, self.names, self.n, self.tag = site, names, n, tag
        self.key = (site, tuple(l.key[0] for l in e.loopstack))
        self.info = e.loopinfo.setdefault(self.key, dict(mods={}, dropped=set()))
        loc = dict(frame.f_locals)
        self.h0, self.keep0, _ = heap(loc)
        self.loc0 = loc
        self.vals = {}
        self.installed = set()
        self.started = False
        self.cands = {}
        self.parent_hook = getattr(e, "on_loop", None)
        prov = getattr(e, "candidates", None)
        self.first_iter = None
        # generic state
        if n is None:
            k = SymInt.var("k", lo=0)
            self.finished = False
        elif e.choose(2) == 0:
            k = SymInt.var("k", lo=0)
            e.assume(term(SymInt.of(k) < n), check=True)
            self.finished = False
        else:
            k = n
            self.finished = True
        self.k = k
        if self.parent_hook: self.parent_hook(self)
        for path, kindinfo in self.info["mods"].items():
            ent = self.h0.get(path)
            if ent is None:            # local unbound before the loop
                if path.startswith("L:") and not path.endswith("}"):
                    self.vals[path[2:]] = Poison(f"{path} (unbound before the loop)")
                continue
            holder, kind, tok = ent
            v0 = loc[kind[1]] if kind[0] == "local" else holder.__dict__[kind[1]] if kind[0] == "attr" else holder
            g = None
            cs = list(prov(self, path, kind if isinstance(kind, str) else kind[0], v0)) if prov else []
            if isinstance(v0, (int, SymInt)) and not isinstance(v0, bool) and kind != "content": cs += [Unchanged()]
            for c in cs:
                cid = (path, c.name)
                if cid in self.info["dropped"]: continue
                if not c.entry_ok(self, v0):
                    self.info["dropped"].add(cid)
                    continue
                self.cands[path] = c
                g = c.make(self, v0, k)
                break
            else:
                g = arbitrary(v0, path)
            self._install(path, holder, kind, v0, g)
        oh = getattr(e, "on_havoc", None)
        if oh: oh(self)
        # facts about single iterations: proved at the end of an arbitrary iteration, assumed for chosen k after the loop
        fp = getattr(e, "facts", None)
        self.facts = [f for f in (fp(self) if fp else []) if f.name not in self.info["dropped"]]
        if self.finished:
            for f in self.facts:
                for j in f.instances:
                    e.assume(z3.Implies(z3.And(iterm(j) >= 0, iterm(j) < iterm(n)), term(f.f(j))))
        # exits of iteration: state right after havoc, for comparison
        cur_loc = dict(loc)
        cur_loc.update(self.vals)
        self.h1, self.keep1, _ = heap({k2: v for k2, v in cur_loc.items()})
        e.loopstack.append(self)
        if self.finished: e.loopstack.pop()

    def _install(self, path, holder, kind, v0, g):
        if path in self.cands: self.installed.add(id(v0 if kind == "content" else g))
        if kind == "content":
            install_content(v0, g)
        elif kind[0] == "local": self.vals[kind[1]] = g
        else: holder.__dict__[kind[1]] = g
    def has(self, n): return n in self.vals
    def get(self, n): return self.vals[n]

    def iteration_end(self, frame):
        """Arrived at the loop head again: check that the generic state at k+1 holds, then end the path."""
        e = self.e
        if e.loopstack and e.loopstack[-1] is self: e.loopstack.pop()
        else:
            while e.loopstack and e.loopstack[-1] is not self: e.loopstack.pop()
            if e.loopstack: e.loopstack.pop()
        loc = dict(frame.f_locals)
        h2, keep2, _ = heap(loc)
        k1 = mk(SymInt.of(self.k) + 1)
        new = {}
        for path, ent in self.h1.items():
            holder, kind, tok = ent
            # re-read the same holder
            if kind == "content" and isinstance(holder, SymBytes) and isinstance(holder.length, Dead): cur_tok = tok
            elif kind == "content": cur_tok = retoken(holder)
            elif kind[0] == "attr":
                cur_tok = id(holder.__dict__.get(kind[1], _UNB))
            else:
                cur_tok = id(loc.get(kind[1], _UNB))
            if kind == "content" and id(holder) in self.installed: continue      # covered by its candidate
            if kind == "content" and isinstance(holder, SymBytes) and isinstance(holder.length, Dead): continue   # unobservable from here on
            if cur_tok != tok and path not in self.info["mods"]:
                new[path] = True
        for n in self.names:
            if "L:" + n not in self.info["mods"] and "L:" + n not in self.h1 and n in loc:
                new["L:" + n] = True
        if new:
            self.info["mods"].update(new)
            for i in e.loopinfo.values(): i["dropped"].clear()      # dropped while the havocked state was incomplete
            raise Restart()
        for path, c in self.cands.items():
            holder, kind, tok = self.h0[path]
            v = holder if kind == "content" else loc.get(kind[1], _UNB) if kind[0] == "local" else holder.__dict__.get(kind[1], _UNB)
            ok = v is not _UNB and c.holds(self, v, k1)
            if not ok:
                self.info["dropped"].add((path, c.name))
                raise Restart()
            E.STATS["obligations"] += 1
            E.STATS["discharged"] += 1
            E.STATS["by"]["z3"] += 1
            e.proved_names[f"{e.name}::inv[{c.name}]"] = e.proved_names.get(f"{e.name}::inv[{c.name}]", 0) + 1
        for f in self.facts:
            if not e.implied(term(f.f(self.k))):
                self.info["dropped"].add(f.name)
                raise Restart()
            e.proved_names[f"{e.name}::fact[{f.name}]"] = e.proved_names.get(f"{e.name}::fact[{f.name}]", 0) + 1
            E.STATS["obligations"] += 1; E.STATS["discharged"] += 1; E.STATS["by"]["z3"] += 1
        h = getattr(e, "on_iteration_end", None)
        if h: h(self)
        raise PathEnd()

def retoken(o):
    if isinstance(o, SymBytes) and o.kind == "bytearray":
        b = o.buf
        return (tuple(c.get_id() for c in b.cells) if b.cells is not None else b.arr.get_id(), o.length if isinstance(o.length, int) else id(o.length))
    if isinstance(o, SymBytes):
        b = o.buf
        return tuple(c.get_id() for c in b.cells) if b.cells is not None else b.arr.get_id()
    if isinstance(o, Rope): return tuple(id(p) for p in o.pieces)
    if isinstance(o, TrackedList): return (id(o.sym), tuple(id(x) for x in list.__iter__(o)))
    if isinstance(o, dict): return tuple((id(k), id(v)) for k, v in o.items())
    if isinstance(o, (list, set)): return tuple(id(x) for x in o)
    if hasattr(type(o), "vc_token"): return o.vc_token()
    raise Unsupported("heap token")

def install_content(obj, g):
    if isinstance(obj, Poison): return
    if isinstance(obj, TrackedList):
        list.clear(obj)
        if isinstance(g, SymSeq): obj.sym = g
        elif isinstance(g, list): obj.sym = None; list.extend(obj, g)
        else: obj.sym = SymSeq(Poison("list"), None)
        return
    if isinstance(obj, SymBytes):
        if isinstance(g, SymBytes):
            obj.buf.cells, obj.buf.arr, obj.buf.length = g.buf.cells, g.buf.arr, g.buf.length
            obj.length = g.length
            if g.buf.tag is not None: obj.buf.tag = g.buf.tag
            for a in ("ghost",):
                if hasattr(g.buf, a): setattr(obj.buf, a, getattr(g.buf, a))
            return
        raise Unsupported("abstract content for a byte buffer")
    if isinstance(obj, Rope) and isinstance(g, Rope):
        obj.pieces = g.pieces
        return
    if hasattr(type(obj), "vc_install"):
        obj.vc_install(g)
        return
    raise Unsupported(f"loop modifies a {type(obj).__name__} and no invariant describes it")

def arbitrary(v0, path):
    if isinstance(v0, (bool, SymBool)): return SymBool(z3.Bool(E.fresh_name("b")))
    if isinstance(v0, (int, SymInt)): return SymInt.var("any")
    if isinstance(v0, SymBytes) and v0.kind == "bytearray" and v0.buf.cells is not None:
        n = len(v0.buf.cells)
        return SymBytes(Buf(cells=[z3.BitVec(E.fresh_name("anyb"), 8) for _ in range(n)]), 0, n, "bytearray")
    if hasattr(type(v0), "vc_arbitrary"): return v0.vc_arbitrary()
    return Poison(path)

class Cand:
    """A candidate invariant for one modified location."""
    name = "cand"
    def entry_ok(self, loop, v0): raise NotImplementedError
    def make(self, loop, v0, k): raise NotImplementedError
    def holds(self, loop, v, k): raise NotImplementedError

class Unchanged(Cand):
    """The location keeps the value it had when the loop was entered."""
    name = "unchanged"
    def entry_ok(self, loop, v0): self.v0 = v0; return True
    def make(self, loop, v0, k): return v0
    def holds(self, loop, v, k):
        r = SymInt.of(v)
        return r is not None and loop.e.implied(term(r == self.v0))

class Fact:
    """f(k) holds after iteration k; instances: the k for which it is used after the loop."""
    def __init__(self, name, f, instances): self.name, self.f, self.instances = name, f, instances

class IntIs(Cand):
    """An integer location equals a ghost function of the iteration counter."""
    def __init__(self, name, f): self.name, self.f = name, f
    def entry_ok(self, loop, v0):
        s = SymInt.of(v0)
        return s is not None and loop.e.implied(term(s == self.f(0)))
    def make(self, loop, v0, k): return self.f(k)
    def holds(self, loop, v, k):
        s = SymInt.of(v)
        return s is not None and loop.e.implied(term(s == self.f(k)))

class ForLoop(Loop):
    def __init__(self, site, names, frame, seq):
        self.seq = seq
        super().__init__(site, names, frame, seq.n, seq.tag)
    def __iter__(self): return self
    def __next__(self):
        if self.finished: raise StopIteration
        if not self.started:
            self.started = True
            self.item = self.seq.at(self.k)
            return self.item
        self.iteration_end(sys._getframe(1))

class WhileLoop(Loop):
    def __init__(self, site, names, frame, tag):
        super().__init__(site, names, frame, None, tag)
    def head(self):
        if not self.started:
            self.started = True
            return True
        self.iteration_end(sys._getframe(1))

class PlainWhile:
    cut = False
    def __init__(self): self.i = 0
    def has(self, n): return False
    def head(self):
        self.i += 1
        if self.i > MAXUNROLL and E.CUR is not None: raise Unsupported("loop without invariant not finished after unrolling")
        return True

class PlainFor:
    cut = False
    def __init__(self, it): self.it = iter(it)
    def has(self, n): return False
    def __iter__(self): return self
    def __next__(self): return next(self.it)
