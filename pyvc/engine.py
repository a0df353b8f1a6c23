"""Core of pyvc: path exploration by re-execution, path conditions, proof obligations.

A *driver* (a Python callable) runs the instrumented real code on symbolic values.  Every branch on a symbolic
condition asks Engine.branch(); the driver is re-executed until every feasible combination of branch outcomes has been
explored.  Engine.prove() is a proof obligation: path-condition => term, discharged by z3 (cvc5 on unknown).
Loops over unbounded data are cut at an invariant (see loops.py), so a path is always finite.
"""
import time, os, sys, subprocess, tempfile
import z3

class PathEnd(BaseException):
    """The current path is complete (loop cut, infeasible assumption)."""

class Unsupported(BaseException):
    """The code used a construct the symbolic semantics does not cover: the obligation stays undischarged."""

class Restart(BaseException):
    """Loop discovery changed (more modified locations / dropped candidate): start the exploration again."""

class Failure:
    def __init__(self, name, kind, detail, model=None, inputs=None):
        self.name, self.kind, self.detail, self.model, self.inputs = name, kind, detail, model, inputs
    def __repr__(self):
        return f"{self.name}: {self.kind}: {self.detail}"

STATS = dict(obligations=0, discharged=0, paths=0, solver_s=0.0, queries=0, by={"z3": 0, "cvc5": 0, "eval": 0},
             drivers=0, reach=0)

CUR = None      # the current Engine

def cur():
    if CUR is None:
        raise RuntimeError("no engine")
    return CUR

_ctr = [0]
def fresh_name(base):
    e = CUR
    if e is None:
        _ctr[0] += 1
        return f"{base}!{_ctr[0]}"
    e.counter += 1
    return f"{base}!{e.counter}"

def abstract_unsat(cons, ms=5000):
    """Second attempt for bit-vector goals: products are replaced by fresh variables (a weaker theory, so unsat is sound)
    after bringing sums into normal form.  c*x becomes (c/g)*v with one v (= g*x) per x, g the common divisor of the c."""
    import math
    cons = [z3.simplify(c, som=True) for c in cons]
    seen, coefs, terms, todo = set(), {}, {}, list(cons)
    def split(t):
        cs = t.children()
        c = cs[0].as_signed_long() if z3.is_bv_value(cs[0]) else 1
        rest = cs[1:] if z3.is_bv_value(cs[0]) else cs
        key = (t.size(),) + tuple(sorted(x.get_id() for x in rest))
        terms[key] = rest
        return c, key
    while todo:
        t = todo.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        todo.extend(t.children())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BMUL:
            c, k = split(t)
            coefs[k] = math.gcd(coefs.get(k, 0), c)
    memo, names = {}, {}
    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BMUL:
            c, key = split(t)
            v = names.setdefault(key, z3.BitVec(f"mul!{len(names)}", t.size()))
            r = v * (c // coefs[key]) if c != coefs[key] else v
        elif z3.is_app(t) and t.num_args():
            r = z3.substitute(t, *[(c, go(c)) for c in t.children()])
        else:
            r = t
        memo[k] = (t, r)
        return r
    s = z3.Solver()
    s.set("timeout", ms)
    for c in cons:
        s.add(go(c))
    done = set()
    while set(names) - done:                # what the abstraction may keep: low bits, bounds, truncations of one product
        key = next(k for k in names if k not in done)
        done.add(key)
        v, x = names[key], terms[key]
        if len(x) != 1 or not coefs[key]:
            continue
        x, g, w = go(x[0]), coefs[key], v.size()
        if 0 < g < 2 ** (w - 2):
            small = z3.ULE(x, (2 ** w - 1) // g)
            s.add(z3.Implies(small, z3.And(z3.UGE(v, x), *[z3.Implies(z3.UGE(x, k), z3.UGE(v, k * g)) for k in (1, 2)])))
            s.add(z3.Implies(x == 0, v == 0))
            s.add(*[z3.Implies(z3.ULE(x, 1 << k), z3.ULE(v, g << k)) for k in range(8, w, 8) if g << k < 1 << w])
        if v.size() > 4:
            s.add(z3.Extract(3, 0, v) == z3.Extract(3, 0, x) * g)
        for key2, v2 in list(names.items()):
            y = terms[key2]
            if len(y) == 1 and coefs[key2] == g and v2.size() < v.size() and z3.is_true(z3.simplify(z3.Extract(v2.size() - 1, 0, terms[key][0]) == y[0])):
                s.add(z3.Extract(v2.size() - 1, 0, v) == v2)
    return s.check() == z3.unsat

class Engine:
    def __init__(self, name, timeout_ms=20000, max_paths=20000, max_branches=4000):
        self.name = name
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.max_branches = max_branches
        self.failures = []
        self.loopinfo = {}      # discovery state kept over restarts
        self.counter = 0
        self.inputs = []        # (label, term) for counterexamples
        self.reached = set()
        self.proved_names = {}
        self.stop_on_failure = True
        self.heavy = ()         # names of constants whose assumptions are left out of a first attempt at every query
        self.quick_ms = None    # when set: short z3 attempts, then cvc5's integer encoding of bit vectors, then the full budget

    # --- exploration -----------------------------------------------------
    def explore(self, driver):
        """Run driver on every feasible path."""
        global CUR
        prev, CUR = CUR, self
        STATS["drivers"] += 1
        restarts = 0
        try:
            while True:
                try:
                    self._explore(driver)
                    return self
                except Restart:
                    restarts += 1
                    if restarts > 200:
                        self.failures.append(Failure(self.name, "unsupported", "loop discovery did not converge"))
                        return self
        finally:
            CUR = prev

    def _explore(self, driver):
        self.failures = []
        self.proved_names = {}
        pending = [[]]
        npaths = 0
        while pending:
            self.prefix = pending.pop()
            self.decisions = []
            self.pc = []
            self.solver = z3.Solver()
            self.solver.set("timeout", self.quick_ms or self.timeout_ms)
            self.light = z3.Solver()
            self.light.set("timeout", self.quick_ms or self.timeout_ms)
            self.counter = 0
            self.inputs = []
            self.pending = pending
            self.loopstack = []
            self.objtag = {}
            npaths += 1
            STATS["paths"] += 1
            if npaths > self.max_paths:
                self.failures.append(Failure(self.name, "unsupported", "too many paths"))
                return
            try:
                driver(self)
            except PathEnd:
                pass
            except Unsupported as u:
                self.failures.append(Failure(self.name, "unsupported", str(u)))
                if self.stop_on_failure:
                    return
            if self.failures and self.stop_on_failure:
                return

    # --- path condition --------------------------------------------------
    def assume(self, term, check=False, heavy=False):
        if isinstance(term, bool):
            if not term:
                raise PathEnd()
            return
        term = getattr(term, "t", term)
        t = z3.simplify(term)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathEnd()
        self.pc.append(term)
        self.solver.add(term)
        if self.heavy and not heavy and not self._mentions(term):
            self.light.add(term)
        if check and self._check() == z3.unsat:
            raise PathEnd()

    def _mentions(self, term):
        todo, seen = [term], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in self.heavy:
                return True
            todo += x.children()
        return False

    def _check(self, *extra, may_sat=False):
        t0 = time.time()
        if self.heavy and extra and not self._mentions(extra[0]):
            # first without the assumptions on the named constants: fewer assumptions, so unsat stays unsat
            r = self.light.check(*extra)
            if r == z3.unsat or (may_sat and r == z3.sat):
                STATS["solver_s"] += time.time() - t0
                STATS["queries"] += 1
                return r
        r = self.solver.check(*extra)
        STATS["solver_s"] += time.time() - t0
        STATS["queries"] += 1
        return r

    def feasible(self, term):
        return self._check(term) != z3.unsat

    def branch(self, term):
        """Truth of a symbolic condition on this path (forks the path when both are possible)."""
        t = z3.simplify(term)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        i = len(self.decisions)
        if i > self.max_branches:
            raise Unsupported("too many branches on one path")
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self.assume(t if d[0] else z3.Not(t))
            return d[0]
        can_t = self._check(t, may_sat=True)
        can_f = self._check(z3.Not(t), may_sat=True) if can_t != z3.unsat else z3.sat
        if can_t != z3.unsat and can_f != z3.unsat:
            self.pending.append(self.decisions + [(False,)])
            self.decisions.append((True,))
            self.assume(t)
            return True
        v = can_t != z3.unsat
        self.decisions.append((v,))
        # implied by the path condition: adding it keeps later queries cheap
        self.assume(t if v else z3.Not(t))
        return v

    def choose(self, n, label="choice"):
        """Nondeterministic choice among n alternatives (all explored)."""
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            return d[0]
        for k in range(n - 1, 0, -1):
            self.pending.append(self.decisions + [(k,)])
        self.decisions.append((0,))
        return 0

    def implied(self, term):
        t = z3.simplify(term)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        r = self._check(z3.Not(t))
        if r == z3.unknown and self.quick_ms:
            return cvc5_unsat(list(self.pc) + [z3.Not(t)], timeout_s=5, opts=[["--solve-bv-as-int=sum"]])
        return r == z3.unsat

    def concretize(self, term):
        """The unique integer value of term under the path condition, or None."""
        t = z3.simplify(term)
        if z3.is_int_value(t) or z3.is_bv_value(t):
            return t.as_long()
        r = self._check()
        if r != z3.sat:
            if r == z3.unsat:
                raise PathEnd()
            return None
        v = self.solver.model().eval(t, model_completion=True)
        if self._check(t != v) == z3.unsat:
            return v.as_long()
        return None

    # --- obligations -----------------------------------------------------
    def reach(self, name):
        """Vacuity guard: this program point is reached on a feasible path."""
        if name in self.reached:
            return
        if self._check() == z3.sat:
            self.reached.add(name)
            STATS["reach"] += 1

    def prove(self, name, term, detail=""):
        STATS["obligations"] += 1
        full = f"{self.name}::{name}"
        self.proved_names[full] = self.proved_names.get(full, 0) + 1
        if isinstance(term, bool):
            if term:
                STATS["discharged"] += 1
                STATS["by"]["eval"] += 1
                return True
            # concrete falsity is a violation only if the path is feasible
            r = self._check()
            if r == z3.unknown and self.quick_ms:
                if cvc5_unsat(list(self.pc), timeout_s=10):
                    STATS["discharged"] += 1
                    STATS["by"]["cvc5"] += 1
                    return True
                self.solver.set("timeout", self.timeout_ms)
                r = self._check()
                self.solver.set("timeout", self.quick_ms)
            if r == z3.unsat:
                STATS["discharged"] += 1
                STATS["by"]["z3"] += 1
                return True
            self._fail(full, "refuted" if r == z3.sat else "unknown", detail, r)
            return False
        term = getattr(term, "t", term)
        t = z3.simplify(term)
        if z3.is_true(t):
            STATS["discharged"] += 1
            STATS["by"]["eval"] += 1
            return True
        r = self._check(z3.Not(t))
        if r == z3.unsat:
            STATS["discharged"] += 1
            STATS["by"]["z3"] += 1
            return True
        if r == z3.unknown and self.quick_ms and abstract_unsat(list(self.pc) + [z3.Not(t)]):
            STATS["discharged"] += 1
            STATS["by"]["z3"] += 1
            return True
        if r == z3.unknown:
            v = cvc5_unsat(list(self.pc) + [z3.Not(term)], opts=([["--solve-bv-as-int=sum"]] if self.quick_ms else None), timeout_s=(10 if self.quick_ms else 30))
            if not v and self.quick_ms:         # a model, or a second chance with the full budget
                self.solver.set("timeout", self.timeout_ms)
                r = self._check(z3.Not(t))
                if r == z3.sat:
                    self._fail(full, "refuted", detail, r)
                    self.solver.set("timeout", self.quick_ms)
                    return False
                self.solver.set("timeout", self.quick_ms)
                v = r == z3.unsat
            if v or cvc5_unsat(list(self.pc) + [z3.Not(term)]):
                STATS["discharged"] += 1
                STATS["by"]["cvc5"] += 1
                return True
            self._fail(full, "unknown", detail, None)
            return False
        self._fail(full, "refuted", detail, r)
        return False

    def _fail(self, name, kind, detail, r):
        m, ins = None, {}
        if r == z3.sat:
            m = self.solver.model()
            for label, term in self.inputs:
                try:
                    v = m.eval(term, model_completion=True)
                    ins[label] = v.as_long() if (z3.is_int_value(v) or z3.is_bv_value(v)) else str(v)[:300]
                except Exception as e:      # pragma: no cover
                    ins[label] = repr(e)
        self.failures.append(Failure(name, kind, detail, m, ins))
        if self.stop_on_failure:
            raise PathEnd()

    def fail(self, name, detail):
        """Obligation 'this point is unreachable'."""
        return self.prove(name, False, detail)

    def input(self, label, term):
        self.inputs.append((label, getattr(term, "t", term)))


def cvc5_unsat(assertions, timeout_s=30, opts=None):
    s = z3.Solver()
    s.add(*assertions)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    t0 = time.time()
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        for opt in (opts or ([["--solve-bv-as-int=sum"], []] if "BitVec" in txt else [[]])):
            out = subprocess.run(["cvc5", f"--tlimit={timeout_s*1000}"] + opt + [f.name], capture_output=True, text=True,
                                 timeout=timeout_s + 10).stdout
            if out.strip().startswith("unsat"):
                return True
            if out.strip().startswith("sat"):
                return False
        return False
    except Exception:
        return False
    finally:
        STATS["solver_s"] += time.time() - t0
        try:
            os.unlink(f.name)
        except OSError:
            pass
