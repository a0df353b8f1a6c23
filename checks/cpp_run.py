"""Runner shared by the C++ checks on bit fields (C16, C17)."""
import re, time, ast
from checks import common as C
CLANG_TRUST = ["llvc: LLVM IR parser and symbolic semantics (/verif/llvc)", "clang 18.1 front end and its -O1 pipeline, with the checks of -fsanitize=undefined turned into obligations",
               "z3 5.3 / cvc5 1.1"]
def case_list(fails, what):
    """Native cases for the failed obligations: the failing instantiation, or the group whose obligations could not be generated."""
    out, seen = [], set()
    def add(c):
        k = (c["kind"], c["tag"], c["o"], c["w"], c.get("inv"), c.get("sz"))
        if k in seen: return
        seen.add(k); out.append(c)
    for f in fails:
        t = f["task"]
        if not t or len(t) < 2: continue
        fn = t[0]
        tag, args = t[1][0], [ast.literal_eval(x) for x in t[1][1:]]
        m = re.search(r"<(?:.*>)?,?(\d+),(\d+)(?:,(\d+))?>", f["name"])
        ins = f["inputs"]
        hb = [[ins.get(f"byte{i}", 0) for i in range(24)]] if "byte0" in ins else []
        hv = [ins["value"]] if isinstance(ins.get("value"), int) else []
        if fn in ("read_group", "write_group"):
            kind = "rd" if fn == "read_group" else "wr"
            m = re.search(r"<[^,]*,(\d+),(\d+)>", f["name"])
            if m: add(dict(kind=kind, tag=tag, o=int(m[1]), w=int(m[2]), bytes=hb, values=hv))
            for w in args[0]:
                for o in args[1]: add(dict(kind=kind, tag=tag, o=o, w=w))
        elif fn.startswith("tagged"):
            for o, w, inv in args[0]: add(dict(kind="tr" if fn == "tagged_read_group" else "tw", tag=tag, o=o, w=w, inv=inv))
        elif fn == "range_group":
            for o, w, sz in args[0]: add(dict(kind="rp", tag=tag, o=o, w=w, sz=sz))
    return out
def search(what):
    def go(fails):
        cases = case_list(fails, what)
        for i in range(0, min(len(cases), 1200), 150):
            r = C.native("search_cpp.py", dict(cases=cases[i:i + 150], rounds=200), 200)
            if r.get("found") or r.get("crashed"): return r
        return r if cases else dict(found=False)
    return go
def sample(what):
    """Bounded cross-check of the compiled code itself (gcc-independent, sanitizers on) for a few instantiations."""
    k = ("rd", "tr") if what == "r" else ("wr", "tw")
    cs = [dict(kind=k[0], tag=t, o=o, w=w) for t in ("u8", "i16", "Ei32", "u64", "i64") for o in (0, 3, 7, 13) for w in (1, 5, 8)] + \
         [dict(kind=k[0], tag=t, o=o, w=w) for t in ("u64", "i64") for o in (1, 7) for w in (33, 57, 63, 64)] + [dict(kind=k[0], tag="bool", o=5, w=1)] + \
         [dict(kind=k[1], tag="i16", o=3, w=11, inv=-5), dict(kind=k[1], tag="u32", o=7, w=31, inv=0)]
    if what == "r": cs += [dict(kind="rp", tag="u32", o=3, w=29, sz=9)]
    return cs
def run(pid, what, funcs):
    from checks import cpp_drv
    t0 = time.time()
    res = C.Result()
    C.run_tasks(cpp_drv.tasks(what, C.TIER == "thorough"), res, 800 if C.TIER == "quick" else 3000)
    C.standin(res, "search_cpp.py", dict(cases=sample(what), rounds=100 if C.TIER == "quick" else 5000), "45 instantiations run natively under address/undefined sanitizers against a bit oracle (bounded; cross-check of the IR semantics)", timeout=300)
    return C.finish(pid, res, t0, funcs,
                    ["template instantiations are enumerated: every type (bool, 8-64 bit integers, enumerations of each), every width, every bit offset 0-7; byte offsets other than 0 for a sample",
                     "invalid values of optional fields: 0, smallest and largest", "storage is addressable for 8 bytes after the field (documented padding)",
                     "a little-endian target (x86-64)"], search(what), technique="llvc", trusted=CLANG_TRUST)
