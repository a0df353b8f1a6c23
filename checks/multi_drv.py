"""C18: contracts on the real MultiArrayView item iteration (any number of elements per item), LLVM IR with a loop invariant."""
import z3
from pyvc import engine as E
from pyvc.engine import Unsupported, PathEnd
from llvc import sem
from llvc.sem import bv, Val, Ptr
from checks.vec_drv import ELEM, mod, LIMIT

SIZES = (5, 1, 12)
SRC = r'''
template < template < typename, int, int, int > class Member > union IdxT
{
    using StreamType = typename Member< uint32_t, 0, 0, 0 >::StreamType;
    using MutatorType = IdxT< flatdata::Writer >;
    using AccessorType = IdxT< flatdata::Reader >;
    IdxT( ) : _data( Member< uint32_t, 0, 0, 0 >{ nullptr } ) {}
    explicit IdxT( StreamType data ) : _data( Member< uint32_t, 0, 0, 0 >{ data } ) {}
    StreamType data( ) const { return _data.data; }
    static constexpr size_t size_in_bytes( ) { return %(W)d / 8; }
    static constexpr bool IS_OVERLAPPING_WITH_NEXT = true;
    Member< uint32_t, 0, 0, 0 > _data;
    Member< uint64_t, 0, %(W)d, %(W)d / 8 > value;
    Member< std::pair< uint64_t, uint64_t >, 0, %(W)d, %(W)d / 8 > range;
};
using Idx = IdxT< flatdata::Reader >;
using A = El< 5, false >; using B = El< 1, false >; using C = El< 12, false >;
using M = flatdata::MultiArrayView< Idx, A, B, C >;
extern "C" void fdvc_visit( int type, const uc* data );
struct All { void operator( )( A x ) const { fdvc_visit( 0, x.data( ) ); } void operator( )( B x ) const { fdvc_visit( 1, x.data( ) ); } void operator( )( C x ) const { fdvc_visit( 2, x.data( ) ); } };
#define X extern "C"
#define IN const uc* b, const uc* e, const uc* d
static M view( IN ) { return M( flatdata::ArrayView< Idx >( b, e ), d ); }
X size_t m_size( IN ) { return view( b, e, d ).size( ); }
X bool m_bool( IN ) { return static_cast< bool >( view( b, e, d ) ); }
X void m_all( IN, size_t i ) { view( b, e, d ).for_each( i, All( ) ); }
X void m_one( IN, size_t i ) { view( b, e, d ).for_each< C >( i, []( C x ) { fdvc_visit( 2, x.data( ) ); } ); }
X void m_two( IN, size_t i ) { view( b, e, d ).for_each( i, flatdata::make_overload( []( A x ) { fdvc_visit( 0, x.data( ) ); }, []( C x ) { fdvc_visit( 2, x.data( ) ); } ) ); }
template < typename T > void first( IN, size_t i, const uc** r, bool* ok )
{
    auto it = view( b, e, d ).template iterator< T >( i );
    *ok = it.valid( );
    if ( *ok ) *r = ( *it ).data( );
}
X void m_first0( IN, size_t i, const uc** r, bool* ok ) { first< A >( b, e, d, i, r, ok ); }
X void m_first1( IN, size_t i, const uc** r, bool* ok ) { first< B >( b, e, d, i, r, ok ); }
X void m_first2( IN, size_t i, const uc** r, bool* ok ) { first< C >( b, e, d, i, r, ok ); }
template < typename T > void next( IN, size_t i, const uc** r, bool* ok, bool post )
{
    auto it = view( b, e, d ).template iterator< T >( i );
    *ok = it.valid( );
    fdvc_visit( 100, nullptr );
    if ( post ) it++; else ++it;
    *ok = it.valid( );
    if ( *ok ) *r = ( *it ).data( );
}
X void m_next0( IN, size_t i, const uc** r, bool* ok, bool post ) { next< A >( b, e, d, i, r, ok, post ); }
X void m_next1( IN, size_t i, const uc** r, bool* ok, bool post ) { next< B >( b, e, d, i, r, ok, post ); }
X void m_next2( IN, size_t i, const uc** r, bool* ok, bool post ) { next< C >( b, e, d, i, r, ok, post ); }
'''
class Item:
    """Ghost layout of one item: element k has its type byte at P(k), its data behind, and P(k + 1) follows."""
    def __init__(self, e, ex, r, a, b):
        self.e, self.ex, self.r, self.a, self.b = e, ex, r, a, b
        self.P = z3.Function(E.fresh_name("P"), z3.BitVecSort(64), z3.BitVecSort(64))
        self.arr0 = r.arr
        self.cnt = z3.BitVec("elements", 64)
        e.assume(z3.And(z3.ULE(self.cnt, bv(1 << 60)), self.P(bv(0)) == a, self.P(self.cnt) == b))
        e.input("elements", self.cnt)
        self.at(bv(0))
    def t(self, k):
        return z3.Select(self.arr0, self.P(k))
    def size(self, k):
        x = bv(0)
        for i, s in enumerate(SIZES):
            x = z3.If(self.t(k) == i, bv(s), x)
        return x
    def at(self, k):
        """Well-formedness at k (k < cnt), and the monotonicity that follows from it by induction."""
        P, b = self.P, self.b
        self.e.assume(z3.Implies(z3.ULE(k, self.cnt), z3.And(z3.ULE(self.a, P(k)), z3.ULE(P(k), b))))
        self.e.assume(z3.Implies(z3.ULT(k, self.cnt), z3.And(z3.ULT(self.t(k), bv(len(SIZES), 8)), P(k + 1) == P(k) + 1 + self.size(k), z3.ULE(P(k + 1), b), z3.ULT(P(k), b), z3.ULT(P(k), P(k + 1)))))

class Rule:
    """Invariant of a loop over the elements of an item: every loop-carried pointer is at element k."""
    def __init__(self, knowledge):
        self.kn = knowledge             # shared between attempts: varying memory cells, phis without candidate, non-strict loops
        self.item = None
        self.k = None
        self.on_iter = None             # callable(k): what one iteration must have done
        self.inv = None                 # callable(k) -> term, further invariant
        self.k0s = [bv(0)]              # candidates for the element a loop starts at
        self.k0 = bv(0)
        self.loops = 0
        self.visits = []
    def __call__(self, ex, f, header, fr, n):
        if self.item is None or not any(b in f.loops[header] for b in f.loops[header]):
            return None
        return self
    def slots(self, ex, fr, phis):
        out = [(("phi", d), fr[d]) for d, _ in phis]
        for r in ex.regions:
            if r is self.item.r: continue
            for o, v in r.ptrs.items():
                out.append((("mem", r, o), v))
        return out
    def cands(self, v):
        it = self.item
        if isinstance(v, Ptr):
            return [("at k", lambda k: Ptr(it.r, it.P(k)))]
        if isinstance(v, Val) and v.t.size() == 64:
            return [("P(k)", lambda k: Val(it.P(k))), ("P(k) - a", lambda k: Val(it.P(k) - it.a)), ("b - P(k)", lambda k: Val(it.b - it.P(k))), ("k", lambda k: Val(k)), ("cnt - k", lambda k: Val(it.cnt - k))]
        return []
    def same(self, v, w):
        if isinstance(v, Ptr):
            return isinstance(w, Ptr) and v.r is w.r and v.o == w.o
        return isinstance(w, Val) and v.t.size() == w.t.size() and v.t == w.t
    def choose(self, e, slots, k0):
        kn, chosen = self.kn, {}
        for key, v in slots:
            kk = (key[0], key[1] if key[0] == "phi" else key[1].name, key[2] if key[0] == "mem" else 0)
            if key[0] == "mem" and kk not in kn:
                continue            # taken to be unchanged by the loop, checked at the back edge
            for nm, c in self.cands(v) + ([("unchanged", lambda k, v=v: v)] if isinstance(v, Val) else []):
                s = self.same(v, c(k0))
                if (kk, nm) not in kn and s is not False and e.implied(s):
                    chosen[kk] = (key, nm, c)
                    break
            else:
                if key[0] == "phi" and isinstance(v, Val):
                    chosen[kk] = (key, "any", None)
                else:
                    return chosen, kk
        return chosen, None
    def at_header(self, ex, f, header, fr, phis, n):
        e, it, kn = ex.e, self.item, self.kn
        if getattr(self, "header", None) not in (None, (f, header)) and self.busy:
            raise Unsupported("nested loop")
        if n == 1:
            self.header, self.busy = (f, header), True
            k = z3.BitVec(E.fresh_name("k"), 64)
            self.loops += 1
            slots = self.slots(ex, fr, phis)
            why = None
            for k0 in self.k0s:
                chosen, why = self.choose(e, slots, k0)
                if why is None: break
            else:
                raise Unsupported(f"no invariant candidate for {why}")
            self.k0 = k0
            strict = ("nonstrict", header) not in kn and e.implied(z3.ULT(k0, it.cnt))
            e.assume(z3.And(z3.UGE(k, k0), z3.ULT(k, it.cnt) if strict else z3.ULE(k, it.cnt)))
            it.at(k); it.at(k + 1)
            if self.inv is not None:
                e.assume(self.inv(k))
            for kk, (key, nm, c) in chosen.items():
                old = fr[key[1]] if key[0] == "phi" else key[1].ptrs[key[2]]
                v = c(k) if c is not None else Val(z3.BitVec(E.fresh_name("any"), old.t.size()))
                if key[0] == "phi": fr[key[1]] = v
                else: key[1].ptrs[key[2]] = v
            self.chosen, self.strict, self.k = chosen, strict, k
            self.snap = {id(r): (r.arr, dict(r.ptrs)) for r in ex.regions}
            self.visits = []
            return
        k = self.k
        nk = k + 1
        it.at(nk + 1)
        retry = False
        for r in ex.regions:
            if id(r) not in self.snap: continue
            arr, ptrs = self.snap[id(r)]
            for o, v in r.ptrs.items():
                kk = ("mem", r.name, o)
                if kk in self.chosen: continue
                if o not in ptrs or self.same(ptrs[o], v) is False or not e.implied(self.same(ptrs[o], v)):
                    kn.add(kk); retry = True
            if r.arr is not arr and not r.name.startswith("local"):
                e.prove("the loop changes no memory but its own state", False, r.name)
        if retry:
            raise PathEnd()
        if self.strict and not e.implied(z3.ULT(nk, it.cnt)):
            kn.add(("nonstrict", header))
            raise PathEnd()
        e.prove("the loop goes on only while elements remain", z3.ULT(nk, it.cnt) if self.strict else z3.ULE(nk, it.cnt))
        for kk, (key, nm, c) in self.chosen.items():
            if c is None: continue
            v = fr[key[1]] if key[0] == "phi" else key[1].ptrs.get(key[2])
            s = self.same(v, c(nk))
            if nm != "at k" and (s is False or not e.implied(s)):
                kn.add((kk, nm)); retry = True
            else:
                e.prove("iteration moves to the next element", s)
        if retry:
            raise PathEnd()
        self.on_iter(k)
        if self.inv is not None:
            e.prove("loop invariant is kept", self.inv(nk))
        raise PathEnd()

def attempt(name, go):
    kn = set()
    for i in range(8):
        before = set(kn)
        stats = {k: (dict(v) if isinstance(v, dict) else v) for k, v in E.STATS.items()}
        e = E.Engine(name, timeout_ms=20000)
        e.quick_ms = 4000
        e.heavy = ("items", "item")
        e.explore(lambda e: go(e, Rule(kn)))
        if kn == before:
            return e
        E.STATS.update(stats)
    e.fail("loop invariant inference", "no fixed point")
    return e

_lemmas = set()
def setup(e, m, W, rule, div=False):
    n = W // 8
    def visit(x, a, dn):
        if x.conc(a[0].t) == 100:       # between two steps of an iterator: it is at the element it found, or at the end
            rule.k0s = [rule.k + 1, rule.k, it.cnt] if rule.k is not None else [it.cnt]
            ok = x.load(("int", 8), Ptr(rule.out, bv(8))).t
            rule.found1 = e.branch(ok == 1)
            rule.phase1 = rule.k
            rule.loops = 0
            rule.k = None
        else:
            rule.visits.append((a[0].t, a[1]))
    ex = sem.Exec(m, e, [(r"^fdvc_visit$", visit)])
    if n & (n - 1) and div: sem.div_lemma(e, n)
    items = z3.BitVec("items", 64)
    e.input("items", items)
    e.assume(z3.And(z3.UGT(items, 0), z3.ULE(items, bv(LIMIT // n - 1))))
    ir = ex.region("index", (items + 1) * n + 8)
    ir.const = True
    ir.addr()
    size = z3.BitVec("data size", 64)
    e.assume(z3.ULE(size, bv(LIMIT)))
    dr = ex.region("data", size + 8)
    dr.const = True
    dr.addr()
    ex.div_hints = [(items + 1, bv(0))] if n & (n - 1) else []
    i = z3.BitVec("item", 64)
    e.input("item", i)
    e.assume(z3.ULT(i, items))
    if n & (n - 1):
        # lemma (proved on its own): the entries of the item lie within the index
        x, y = z3.BitVecs("x y", 64)
        def lemma(x, y): return z3.Implies(z3.And(z3.ULT(x, y), z3.ULE(y, bv(LIMIT // n - 1))), z3.And(z3.ULE(x * n + n, y * n), z3.ULE(y * n, bv(LIMIT)), z3.ULE(x * n, bv(LIMIT))))
        if n not in _lemmas and e.prove("index entries of an item lie within the index", lemma(x, y)):
            _lemmas.add(n)
        e.assume(lemma(i, items))
    # arbitrary contents, with names for the bytes of the two index entries that delimit the item
    cells = [z3.BitVec(f"index{j}", 8) for j in range(2 * n)]
    def cell(d):
        c = ex.conc(d)
        if c is not None: return cells[c] if c < 2 * n else bv(0, 8)
        x = cells[0]
        for j in range(1, 2 * n): x = z3.If(d == j, cells[j], x)
        return x
    ir.arr = sem.Mem(ir.arr, i * n, bv(2 * n), cell)
    def word(k):
        x = z3.Concat(*reversed(cells[k * n:k * n + n])) if n > 1 else cells[k]
        return z3.ZeroExt(64 - W, x) if W < 64 else x
    a, b = word(0), word(1)
    e.assume(z3.And(z3.ULE(a, b), z3.ULE(b, size)))
    it = Item(e, ex, dr, a, b)
    rule.item = it
    ex.loop_rule = rule
    args = [Ptr(ir, bv(0)), Ptr(ir, (items + 1) * n), Ptr(dr, bv(0))]
    return ex, it, args, i, items, dr

def multi_case(W, part):
    m = mod(ELEM % dict(pre="") + SRC % dict(W=W), ("multi", W))
    nm = f"MultiArrayView<{W}-bit index>"
    def size(e, rule):
        ex, it, args, i, items, dr = setup(e, m, W, rule, True)
        e.reach("start")
        e.prove("one item less than index entries", ex.run("@m_size", args).t == items)
        e.prove("a view of data is valid", ex.run("@m_bool", args).t == 1)
        z = Ptr(None, bv(0))
        e.prove("a null view is invalid", ex.run("@m_bool", [z, z, z]).t == 0)
    if part == "size": return [attempt(f"C18.{nm}.size", size)]
    def each(fn, accepted):
        def go(e, rule):
            ex, it, args, i, items, dr = setup(e, m, W, rule)
            def done(k):
                vs, t = rule.visits, it.t(k)
                acc = z3.Or(*[t == x for x in accepted])
                e.prove("an element is passed to the callback exactly if its type is accepted", z3.BoolVal(len(vs) == 1) == acc if len(vs) < 2 else False)
                for ty, p in vs:
                    e.prove("the callback gets the type stored", ty == z3.ZeroExt(24, t))
                    e.prove("the callback gets the element's data", p.r is dr and p.o == it.P(k) + 1)
            rule.on_iter = done
            e.reach("start")
            rule.visits = []
            try:
                ex.run("@m_" + fn, args + [Val(i)])
            except sem.CppThrow:
                e.prove("well-formed data is accepted", False)
                return
            if rule.k is None:
                e.prove("only an empty item has no iteration", it.cnt == 0)
                e.prove("no callback for an empty item", len(rule.visits) == 0)
            elif rule.strict:
                done(rule.k)            # the last iteration leaves from inside the loop
                e.prove("every element was visited", rule.k + 1 == it.cnt)
            else:
                e.prove("no callback after the last element", len(rule.visits) == 0)
                e.prove("every element was visited", rule.k == it.cnt)
        return go
    acc = dict(all=(0, 1, 2), one=(2,), two=(0, 2))
    if part in acc: return [attempt(f"C18.{nm}.for_each({part})", each(part, acc[part]))]
    def first(ty, fn):
        def go(e, rule):
            ex, it, args, i, items, dr = setup(e, m, W, rule)
            q = z3.BitVec("skipped", 64)
            it.at(q)
            rule.inv = lambda k: z3.Implies(z3.And(z3.UGE(q, rule.k0), z3.ULT(q, k)), it.t(q) != ty)
            rule.on_iter = lambda k: None
            o = rule.out = ex.region("out", 16)
            e.reach("start")
            args += [Val(i), Ptr(o, bv(0)), Ptr(o, bv(8))]
            if fn == "next": args.append(Val(z3.BitVec("post", 1)))
            try:
                ex.run(f"@m_{fn}{ty}", args)
            except sem.CppThrow:
                e.prove("well-formed data is accepted", False)
                return
            ok = ex.load(("int", 8), Ptr(o, bv(8))).t
            k = rule.k
            end = it.cnt
            start = rule.k0 if k is not None else None
            if e.branch(ok == 1):
                p = ex.load(("ptr",), Ptr(o, bv(0)))
                if k is None:
                    e.prove("a valid iterator has searched the item", False)
                    return
                # the element found: the one the loop was left at, or the one before
                which = k if e.implied(p.o == it.P(k) + 1) else k - 1
                e.prove("the iterator refers to an element of the item", p.r is dr and z3.And(p.o == it.P(which) + 1, z3.ULT(which, it.cnt)))
                e.prove("the element has the requested type", it.t(which) == ty)
                end = which
            else:
                e.prove("valid is a truth value", ok == 0)
            if fn == "next":
                if k is None:
                    if rule.phase1 is None:
                        start = bv(0)
                    else:
                        start = rule.phase1 + 1 if rule.found1 else it.cnt
                else:
                    # the second search starts right behind the element found first
                    e.prove("the next search starts behind the element found", z3.Or(start == it.cnt, z3.And(start != 0, it.t(start - 1) == ty)) if rule.found1 else start == it.cnt)
            elif start is None:
                start = bv(0)
            e.prove("no element of the type was skipped", z3.Implies(z3.And(z3.UGE(q, start), z3.ULT(q, end)), it.t(q) != ty))
        return go
    ty = int(part[-1])
    return [attempt(f"C18.{nm}.iterator<{ty}>", first(ty, part[:-1]))]
PARTS = ("size", "all", "one", "two", "first0", "first1", "first2", "next0", "next1", "next2")
