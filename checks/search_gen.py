"""Native search for C10-C15 (generator) with independent expectations."""
import warnings; warnings.filterwarnings("ignore")
from nat import *
req = request()
what, rounds = req.get("what", "C10"), req.get("rounds", 60)
from flatdata.generator.tree.builder import build_ast
from flatdata.generator.engine import Engine
from flatdata.generator.tree.traversal import DfsTraversal, BfsTraversal
import flatdata.generator.tree.nodes.trivial as T
from flatdata.generator.tree.nodes.archive import Archive
from flatdata.generator.tree.nodes.resources import ResourceBase
W = {"bool": 1, "u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64}
DT = {"bool": "?", "i8": "b", "u8": "B", "u16": "u2", "i16": "i2", "u32": "u4", "i32": "i4", "u64": "u8", "i64": "i8"}
def bad(text, **k): done(found=True, schema=text, **k)
def signed(t): return t[0] == "i"
def fits(t, w, v): return -(1 << (w - 1)) <= v < (1 << (w - 1)) if signed(t) else 0 <= v < (1 << w)
def build(text):
    try: return build_ast(text), None
    except Exception as ex: return None, type(ex).__name__
def lit(v):
    if rng.random() < .4: return ("-" if v < 0 else "") + hex(abs(v))
    return str(v)
def expect(text, ok, why="", names=None):
    case()
    tree, err = build(text)
    if ok and err: bad(text, expected="accepted", got=err, why=why)
    if not ok and not err: bad(text, expected="rejected" + (": " + why if why else ""), got="accepted")
    if not ok and names and err not in names: bad(text, expected=f"rejected with {names}", got=err)
    return tree

def enum(name, big=False):
    """random valid enumeration: (text, type, width, {name: value})"""
    t = rng.choice([x for x in W if x != "bool"] if rng.random() < .9 else ["bool"])
    w = rng.randint(2 if signed(t) else 1, min(W[t], 8))
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed(t) else (0, (1 << w) - 1)
    n = rng.randint(1, min(hi - max(lo, 0) + 1, 5))
    vals, cur, used, items = {}, 0, set(), []
    for i in range(n):
        nm = f"V{i}"
        if cur in used or not lo <= cur <= hi or rng.random() < .5:
            c = [x for x in {lo, hi, 0, rng.randint(lo, hi), rng.randint(lo, hi)} if x not in used]
            if not c: break
            cur = rng.choice(c); items.append(f"{nm} = {lit(cur)}")
        else: items.append(nm)
        vals[nm] = cur; used.add(cur); cur += 1
    explicit = w != W[t] or rng.random() < .5
    return f"enum {name} : {t}{f' : {w}' if explicit else ''} {{ {', '.join(items)}{rng.choice(['', ','])} }}\n", t, w, vals

DOCS = ["", "", "/** doc */\n", "// line\n", '/** "q" \\ \u00e9 */\n', "/* a\n * b\n */\n", '/** ends in quote" */\n', "// b\\s\n"]
def struct(name, enums=(), consts=()):
    fs = []
    for i in range(rng.choice([1, 2, 3, 5, 9, 9, 40])):
        nm = f"f{i}" if rng.random() < .7 else rng.choice("abcxyz") + str(i)
        if enums and rng.random() < .35:
            en, et, ew = rng.choice(enums)
            wt = f" : {ew}" if rng.random() < .4 else ""
            fs.append((nm, en + wt, et, ew))
        else:
            t = rng.choice(list(W)); w = W[t] if rng.random() < .3 else rng.randint(1, W[t])
            fs.append((nm, t + (f" : {w}" if w != W[t] or rng.random() < .3 else ""), t, w))
    return f"struct {name} {{ " + "".join(rng.choice(DOCS) + f"{nm} : {tx};\n" for nm, tx, _, _ in fs) + "}\n", [(nm, t, w) for nm, _, t, w in fs]

def c10():
    ns = rng.choice(["n", "a.b", "n_1"])
    ens = [("E%d" % i,) + enum("E%d" % i)[0:0] for i in range(0)]
    defs, es, ss = [], [], {}
    for i in range(rng.randint(0, 3)):
        tx, t, w, _ = enum(f"E{i}"); defs.append(tx); es.append((rng.choice([f"E{i}", f".{ns}.E{i}"]), t, w))
    for i in range(rng.randint(1, 4)):
        tx, fs = struct(f"S{i}", es); defs.append(rng.choice(DOCS) + tx); ss[f"S{i}"] = fs
    defs.append("archive A { " + "".join(f"r{i} : vector< S{i} >; " for i in range(len(ss))) + "}\n")
    rng.shuffle(defs)
    text = f"namespace {ns} {{\n" + "".join(defs) + "}\n"
    tree = expect(text, True)
    try: m = Engine(text).render_python_module()
    except Exception as ex: bad(text, expected="generated Python module loads", got=repr(ex))
    for s, fs in ss.items():
        node = tree.find(f".{ns}.{s}")
        off, want = 0, []
        for nm, t, w in fs: want.append((nm, off, w, signed(t))); off += w
        got = [(f.name, f.offset, f.type.width, f.type.is_signed) for f in node.fields]
        if got != want: bad(text, structure=s, expected=want, got=got)
        if (node.size_in_bits, node.size_in_bytes) != (off, (off + 7) // 8): bad(text, structure=s, expected=(off, (off + 7) // 8), got=(node.size_in_bits, node.size_in_bytes))
        c = getattr(m, f"{ns.replace('.', '_')}_{s}")
        wantp = [(nm, o, w, sg, DT[t]) for (nm, o, w, sg), (_, t, _) in zip(want, fs)]
        gotp = [(k, f.offset, f.width, f.is_signed, f.dtype) for k, f in c._FIELDS.items()]
        if gotp != wantp: bad(text, python=s, expected=wantp, got=gotp)
        if (c._SIZE_IN_BITS, c._SIZE_IN_BYTES) != (off, (off + 7) // 8): bad(text, python=s, expected=(off, (off + 7) // 8), got=(c._SIZE_IN_BITS, c._SIZE_IN_BYTES))
        if set(c._FIELD_KEYS) != {x[0] for x in want}: bad(text, python=s, expected="field keys", got=sorted(c._FIELD_KEYS))

def near(t, w=None):
    w = w or W[t]
    b = [0, 1, -1, 1 << w, (1 << w) - 1, (1 << w) + 1, -(1 << w), 1 << (w - 1), (1 << (w - 1)) - 1, -(1 << (w - 1)), -(1 << (w - 1)) - 1, 255, 256, 127, 128, -128, -129, 1 << 64, (1 << 64) - 1, -(1 << 63), -(1 << 63) - 1, 1 << 70]
    return rng.choice(b) if rng.random() < .8 else rng.randint(-(1 << w), 1 << w)
def c11():
    k = rng.randint(0, 6)
    t = rng.choice(list(W))
    if k == 0:
        w = rng.choice([1, W[t] - 1, W[t], W[t] + 1, W[t] + 8, 64, 65, 200, rng.randint(1, 80)]) or 1
        expect(f"namespace n {{ struct S {{ x : u8; f : {t} : {w}; }} }}", w <= W[t], f"width {w} of {t}")
    elif k == 1:
        w = rng.choice([1, 2, 7, 8, 9, W[t], W[t] + 1, 65])
        if w <= W[t] and (1 << w) > 258: return
        expect(f"namespace n {{ enum E : {t} : {w} {{ A }} }}", w <= W[t] and fits(t, w, 0), f"enum width {w} of {t}")
    elif k == 2:
        _, et, ew, vals = enum("E")
        tx = f"enum E : {et} : {ew} {{ {', '.join(f'{a} = {b}' for a, b in vals.items())} }}"
        w = rng.choice([ew, ew, ew + 1, max(ew - 1, 1), 1, 64, W[et], 0])
        d = [tx, f"struct S {{ a : u8 : 3; f : {rng.choice(['E', '.n.E'])} : {w}; g : E; }}"]; rng.shuffle(d)
        expect("namespace n { " + " ".join(d) + " }", w == ew, f"enumeration has {ew} bits, field states {w}")
    elif k == 3:
        v = near(t)
        expect(f"namespace n {{ const {t} C = {lit(v)}; }}", fits(t, W[t], v), f"constant {v} of {t}")
    else:
        t2 = t if rng.random() < .8 else rng.choice(list(W))
        w = rng.randint(1, W[t2])
        v = near(t, min(w, W[t]))
        if not fits(t, W[t], v): v = rng.choice([0, 1, (1 << (w - 1)) - 1, (1 << min(w, W[t]) - 1) if not signed(t) else -1])
        if not fits(t, W[t], v): return
        dec = rng.choice(["@const", "@optional"]); ref = rng.choice(["C", ".n.C"])
        others = "".join(f"const {rng.choice(list(W))} D{i} = {i}; " for i in range(rng.randint(0, 2)))
        more = rng.random() < .3
        ok2 = True
        xt = ""
        if more and dec == "@const":
            v2 = rng.choice([0, 1, v]); ok2 = fits(t2, w, v2); xt = f"const {t2} X = {v2}; "
            if not fits(t2, W[t2], v2): return
        if more and dec == "@optional":
            v2 = near(t2, w); ok2 = fits(t2, w, v2); xt = f"const {t2} X = {lit(v2)}; "
            if not fits(t2, W[t2], v2): return
        dd = [f"{dec}({ref})"] + (["@const(X)"] if xt else [])
        rng.shuffle(dd)
        parts = [f"const {t} C = {lit(v)}; ", others, xt, f"struct S {{ q : u8; {' '.join(dd)} f : {t2} : {w}; }} "]; rng.shuffle(parts)
        expect("namespace n { " + "".join(parts) + "}", t == t2 and fits(t2, w, v) and ok2, f"constant {v} of {t} on a field {t2}:{w}")

def c12():
    t = rng.choice([x for x in W])
    w = rng.choice([1, 2, 3, 7, 8, 8, 9, 9, 10, 11]); w = min(w, W[t])
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed(t) else (0, (1 << w) - 1)
    n = rng.choice([1, 2, 3, 5, 17, ((1 << w) - 256) // 2 + rng.choice([-1, 0, 1])]) if w <= 11 else 1
    n = max(1, n)
    items, vals, cur, dup = [], [], 0, False
    small = n <= 17
    for i in range(n):
        ex = None
        if small and rng.random() < .35: ex = rng.choice([lo, hi, 0, lo - 1, hi + 1, rng.randint(lo, hi), rng.randint(lo, hi), 5, -1, max(hi - 1, 0)])
        if not small and i == 0: ex = lo
        if not small and rng.random() < .01: ex = cur + rng.randint(0, 1)
        if ex is not None and ex < 0 and not signed(t) and rng.random() < .5: ex = -ex
        if ex is not None: cur = ex; items.append(f"V{i} = {lit(ex)}")
        else: items.append(f"V{i}")
        vals.append(cur); cur += 1
    uniq = len(set(vals)) == len(vals)
    fit = all(fits(t, w, v) for v in vals)
    dense = 256 + 2 * n >= 1 << w
    text = f"namespace n {{ enum E : {t}{f' : {w}' if w != W[t] or rng.random() < .5 else ''} {{ {', '.join(items)} }} struct S {{ e : E; }} }}"
    ok = uniq and fit and dense
    tree = expect(text, ok, f"unique={uniq} fit={fit} dense={dense}")
    if not ok: return
    e = tree.find(".n.E")
    got = [(v.name, v.value, v.auto_generated) for v in e.values]
    decl = [(n, v) for n, v, a in got if not a]
    if decl != [(f"V{i}", v) for i, v in enumerate(vals)]: bad(text, expected=[(f"V{i}", v) for i, v in enumerate(vals)], got=decl)
    allv = sorted(v for _, v, _ in got)
    if allv != list(range(lo, hi + 1)): bad(text, expected=f"every value {lo}..{hi} once", got=allv[:40])

def c13():
    nn = rng.choice([["n"], ["n", "m"], ["m", "n", "n.k"]])
    N = rng.randint(1, 4)
    defs, deps = {}, {}
    def q(p): return p
    order = []
    ens, cs, ss, ars = [], [], [], []
    for i in range(rng.randint(0, 3)): ens.append((rng.choice(nn), f"E{i}"))
    for i in range(rng.randint(0, 3)): cs.append((rng.choice(nn), f"C{i}"))
    for i in range(rng.randint(1, 5)): ss.append((rng.choice(nn), f"S{i}"))
    for i in range(rng.randint(1, 6)): ars.append((rng.choice(nn), f"A{i}"))
    path = lambda d: f".{d[0]}.{d[1]}"
    body = {}
    for d in ens: body[d] = f"enum {d[1]} : u8 : 2 {{ X, Y }}\n"; deps[path(d)] = set()
    for d in cs: body[d] = f"const u8 {d[1]} = 1;\n"; deps[path(d)] = set()
    for d in ss:
        fs, dp = [], set()
        for i in range(rng.randint(1, 4)):
            if ens and rng.random() < .5: e = rng.choice(ens); fs.append(f"f{i} : {path(e)};"); dp.add(path(e))
            elif cs and rng.random() < .6:
                c = rng.choice(cs); fs.append(f"@{rng.choice(['const', 'optional'])}({path(c)}) f{i} : u8;"); dp.add(path(c))
            else: fs.append(f"f{i} : u16 : 9;")
        body[d] = f"struct {d[1]} {{ {' '.join(fs)} }}\n"; deps[path(d)] = dp
    cyc = rng.random() < .4
    rank = list(ars); rng.shuffle(rank)
    g = {}
    for d in ars:
        rs, dp = [], set()
        for i in range(rng.randint(1, 4)):
            r = rng.random()
            if r < .5:
                c = ars if cyc else [x for x in ars if rank.index(x) < rank.index(d)]
                if c: x = rng.choice(c); rs.append(f"r{i} : archive {path(x)};"); dp.add(path(x)); continue
            if r < .8: s = rng.choice(ss); rs.append(rng.choice(["r%d : vector< %s >;", "r%d : %s;", "r%d : multivector< 33, %s >;"]) % (i, path(s))); dp.add(path(s))
            else: rs.append(f"r{i} : raw_data;")
        body[d] = f"archive {d[1]} {{ {' '.join(rs)} }}\n"; deps[path(d)] = dp
    state = {}
    def visit(x):
        if state.get(x) == 2: return False
        if state.get(x) == 1: return True
        state[x] = 1
        r = any([visit(y) for y in sorted(deps[x])])
        state[x] = 2
        return r
    cyclic = any([visit(x) for x in sorted(deps)])
    ds = list(body); rng.shuffle(ds)
    text, i = "", 0
    while i < len(ds):
        j = i
        while j < len(ds) and ds[j][0] == ds[i][0]: j += 1
        text += f"namespace {ds[i][0]} {{\n" + "".join(body[x] for x in ds[i:j]) + "}\n"; i = j
    tree = expect(text, not cyclic, "cyclic references" if cyclic else "", {"CircularReferencing"})
    if cyclic: return
    got = [n.path for n, _ in DfsTraversal(tree).dependency_order() if isinstance(n, (T.Structure, T.Enumeration, T.Constant, Archive)) and "_builtin" not in n.path]
    if sorted(got) != sorted(deps): bad(text, expected=sorted(deps), got=got, note="each definition exactly once")
    pos = {p: i for i, p in enumerate(got)}
    for p, dp in deps.items():
        for x in dp:
            if pos[x] > pos[p]: bad(text, expected=f"{x} before {p}", got=got)
    import re
    py = Engine(text).render("py")
    where = {}
    for p in deps:
        m = re.search(r"^class %s\(" % p[1:].replace(".", "_"), py, re.M)
        if m: where[p] = m.start()
    for p, dp in deps.items():
        if p.split(".")[-1][0] in "SA" and p not in where: bad(text, expected=f"{p} emitted", got="not in the generated Python")
        for x in dp:
            if p in where and x in where and where[x] > where[p]: bad(text, expected=f"Python: {x} before {p}", got="after")
    cpp = Engine(text).render("cpp")
    for p, dp in deps.items():
        n = p.split(".")[-1]
        pat = {"S": r"^(union|struct|class) %sTemplate\b", "E": r"^enum class %s\b", "C": r"\b%s =", "A": r"^class %s :"}[n[0]] % n
        ms = list(re.finditer(pat, cpp, re.M))
        where["c" + p] = ms[0].start() if ms else None
    for p, dp in deps.items():
        for x in dp:
            a, b = where["c" + x], where["c" + p]
            if a is not None and b is not None and a > b: bad(text, expected=f"C++: {x} before {p}", got="after")

def c14():
    k = rng.randint(0, 5)
    if k == 0:      # duplicates in one scope
        kind = rng.choice(["struct", "enum", "const", "archive", "field", "resource", "value"])
        mk = {"struct": "struct %s { a : u8; }", "enum": "enum %s : u8 : 1 { A }", "const": "const u8 %s = 1;", "archive": "archive %s { r : raw_data; }"}
        dup = rng.random() < .6
        n2 = "X" if dup else "Y"
        if kind in mk:
            other = rng.choice(list(mk))
            a, b = mk[kind] % "X", mk[other] % n2
            if rng.random() < .5: tx = f"namespace n {{ {a} {b} }}"
            elif rng.random() < .5: tx = f"namespace n {{ {a} }} namespace n {{ {b} }}"
            else:
                tx = f"namespace n {{ {a} }} namespace m {{ {b} }}"; dup = False
        elif kind == "field": tx = f"namespace n {{ struct S {{ X : u8; z : u8; {n2} : u16; }} }}"
        elif kind == "resource": tx = f"namespace n {{ archive A {{ X : raw_data; z : raw_data; {n2} : raw_data; }} }}"
        else: tx = f"namespace n {{ enum E : u8 : 2 {{ X, z, {n2} = 3 }} }}"
        expect(tx, not dup, "duplicate name")
        return
    # scopes: archive resources / structure fields are the inner scope, the namespace the outer one
    nss = ["n", "m"]
    have = {ns: rng.sample(["P", "Q", "R"], rng.randint(1, 3)) for ns in nss}
    kinds = {}
    tx = {ns: "" for ns in nss}
    for ns in nss:
        for d in have[ns]:
            kd = rng.choice(["struct", "struct", "enum", "archive", "const"])
            kinds[f".{ns}.{d}"] = kd
            tx[ns] += {"struct": "struct %s { pf : u8; }\n", "enum": "enum %s : u8 : 1 { A }\n", "const": "const u8 %s = 1;\n", "archive": "archive %s { r : raw_data; }\n"}[kd] % d
    use = rng.choice(["vector", "archive", "field", "const", "instance", "multivector"])
    want_kind = {"vector": "struct", "instance": "struct", "multivector": "struct", "archive": "archive", "field": "enum", "const": "const"}[use]
    d = rng.choice(["P", "Q", "R"])
    form = rng.choice(["rel", "rel", "abs", "absother", "path", "root"])
    ref = {"rel": d, "abs": f".n.{d}", "absother": f".m.{d}", "path": f"n.{d}", "root": f".{d}"}[form]
    shadow = rng.random() < .25 and use in ("vector", "archive", "instance", "multivector", "field", "const")
    sib = f"{d} : {'u8' if use in ('field', 'const') else 'raw_data'}; " if shadow else ""
    inner = {"vector": f"archive Z {{ {sib}z : vector< {ref} >; }}", "instance": f"archive Z {{ {sib}z : {ref}; }}", "multivector": f"archive Z {{ {sib}z : multivector< 32, {ref} >; }}",
             "archive": f"archive Z {{ {sib}z : archive {ref}; }}", "field": f"struct Z {{ {sib}z : {ref}; }}", "const": f"struct Z {{ {sib}@const({ref}) z : u8; }}"}[use]
    blocks = [f"namespace n {{ {tx['n']} }}", f"namespace m {{ {tx['m']} }}", f"namespace n {{ {inner} }}"]
    rng.shuffle(blocks)
    if form == "rel": target = ".n.Z." + d if shadow else (".n." + d if d in have["n"] else None)
    elif form == "abs": target = ".n." + d if d in have["n"] else None
    elif form == "absother": target = ".m." + d if d in have["m"] else None
    else: target = None
    ok = target is not None and kinds.get(target) == want_kind
    text = "\n".join(blocks)
    tree = expect(text, ok, f"{ref} -> {target}, needs {want_kind}", {"MissingSymbol"} if target is None else {"IncorrectReferenceType"})
    if ok:
        from flatdata.generator.tree.nodes.references import TypeReference, BuiltinStructureReference, ConstantReference
        z = tree.find(".n.Z.z")
        rs = [r for r in z.iterate(TypeReference) if not isinstance(r, BuiltinStructureReference)]
        if len(rs) != 1 or rs[0].target != target or rs[0].node.path != target: bad(text, expected=target, got=[r.target for r in rs])

def c15():
    n = rng.randint(2, 4)
    cs = "const u32 NO = 7; const u32 NO2 = 8;\n"
    faults, ss, rs = [], [], []
    fields = {}
    rng_s = set()
    for i in range(n):
        fs = []
        has = False
        for j in range(rng.randint(1, 4)):
            w = rng.choice([1, 4, 8, 31, 32, 33, 63, 64, rng.randint(4, 64)])
            dec = ""
            if rng.random() < .2:
                nm = f"rg{j}"
                if rng.random() < .15: nm = f"f{rng.randint(0, j)}"; faults.append("range name equals a field")
                if rng.random() < .1 and w >= 4: dec += "@optional(NO) "; faults.append("optional range")
                dec += f"@range({nm}) "; has = True
                t = "u32" if w <= 32 and "optional" in dec else "u64"
                if "optional" in dec and w > 32: w = 20
            elif rng.random() < .2:
                w = max(4, min(w, 32)); t = "u32"; dec = "@optional(NO) "
                if rng.random() < .2: dec += "@optional(NO2) "; faults.append("two invalid values")
            else: t = "u64" if w > 32 else rng.choice(["u64", "u32"])
            fs.append((f"f{j}", t, w, dec))
        if has: rng_s.add(f"S{i}")
        fields[f"S{i}"] = fs
        ss.append(f"struct S{i} {{ " + " ".join(f"{d}{a} : {t} : {w};" for a, t, w, d in fs) + " }\n")
    m = rng.randint(1, 5)
    names = [f"r{i}" for i in range(m)]
    limits = {}
    for r in names:
        kind = rng.choice(["vector", "vector", "multivector", "instance", "raw"])
        c = list(fields) if rng.random() < .1 else [s for s in fields if s not in rng_s]
        if kind == "vector": held = [rng.choice(list(fields))]
        elif kind == "raw" or not c: kind, held = "raw", []
        elif kind == "instance": held = [rng.choice(c)]
        else: held = rng.sample(c, rng.randint(1, len(c)))
        if kind in ("multivector", "instance") and any(s in rng_s for s in held): faults.append("range outside vector")
        decs = set()
        if held:
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                s = rng.choice(held) if rng.random() < .92 else rng.choice(list(fields))
                f = rng.choice(fields[s]); dst = rng.choice(names)
                if (s, f[0], dst) in decs: continue
                decs.add((s, f[0], dst))
                if s not in held: faults.append("reference to a structure not held")
                if f[2] < 64: limits[dst] = min(limits.get(dst, 1 << 70), 1 << f[2])
        ty = {"vector": lambda: f"vector< {held[0]} >", "instance": lambda: held[0], "raw": lambda: "raw_data", "multivector": lambda: f"multivector< 32, {', '.join(held)} >"}[kind]()
        q = lambda s: rng.choice([s, ".n." + s])
        rs.append("".join(f"@explicit_reference( {q(s)}.{f}, {d} )\n" for s, f, d in sorted(decs)) + (rng.choice(["", "@optional\n"])) + f"{r} : {ty};\n")
    other = rng.random() < .2 and len(fields) > 0
    if other:       # a structure of the same name elsewhere, named by a reference of a resource that does not hold it
        s = rng.choice(list(fields)); f = fields[s][0]
        if f[0][0] == "f":
            faults.append("reference to a structure of the same name in another namespace")
            rs.append(f"@explicit_reference( .m.{s}.g, q )\nq : vector< {s} >;\n")
        else: other = False
    ds = [cs] + ss + ["archive A {\n" + "".join(rs) + "}\n"]
    rng.shuffle(ds)
    text = "namespace n {\n" + "".join(ds) + "}\n"
    if other: text += f"namespace m {{ struct {s} {{ g : u32 : 9; }} }}\n"
    tree = expect(text, not faults, ", ".join(faults))
    if faults: return
    for r in names:
        g = tree.find(f".n.A.{r}").max_size
        if g != limits.get(r): bad(text, resource=r, expected=limits.get(r), got=g)

f = dict(C10=c10, C11=c11, C12=c12, C13=c13, C14=c14, C15=c15)[what]
for _ in range(rounds): f()
done(found=False)
