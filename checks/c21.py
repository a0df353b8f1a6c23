"""C21: Rust field macros."""
import re, time
from checks import common as C, rs_drv
TRUST = ["llvc: LLVM IR parser and symbolic semantics (/verif/llvc)", "rustc's front end and its opt-level-1 pipeline, with debug assertions and overflow checks turned into obligations", "z3 5.3 / cvc5 1.1"]
def search(fails):
    cases, seen = [], set()
    def add(*c):
        if c not in seen: seen.add(c); cases.append(list(c))
    for f in fails:
        m = re.search(r"<(\w+),bit (\d+),width (\d+)>", f["name"])
        if m: add(m[1], int(m[3]), int(m[2]))
    for f in fails:
        t = f["task"]
        if t and len(t) > 1 and t[0] == "group":
            import ast
            for w in ast.literal_eval(t[1][1]):
                for k in range(8): add(t[1][0], w, k)
    r = dict(found=False)
    for i in range(0, min(len(cases), 800), 100):
        r = C.native("search_rs.py", dict(cases=cases[i:i + 100], rounds=96), 200)
        if r.get("found") or r.get("crashed"): return r
    return r
def main():
    t0 = time.time(); res = C.Result()
    C.run_tasks(rs_drv.tasks(C.TIER == "thorough"), res, 800 if C.TIER == "quick" else 3000)
    cs = [["bool", 1, 5]] + [[t, w, k] for t in ("u8", "i16", "u64", "i64") for w in (1, 5, 8) for k in (0, 3, 7)] + [[t, w, k] for t in ("u64", "i64") for w in (33, 57, 63, 64) for k in (1, 7)]
    C.standin(res, "search_rs.py", dict(cases=cs, rounds=100 if C.TIER == "quick" else 3000), "53 instantiations run natively against a bit oracle, buffers ending at an inaccessible page (bounded; cross-check of the IR semantics)", timeout=300)
    return C.finish("C21", res, t0, ["flatdata_read_bytes! (bytereader.rs)", "flatdata_write_bytes! (bytewriter.rs)", "helper::Int"],
                    ["macro instantiations are enumerated: every type (bool, 8-64 bit integers), every width and every bit offset 0-7; the byte offset is arbitrary below 2^48",
                     "values are in range for the width", "a one-bit signed field holds 0 or 1", "a little-endian target (x86-64)"], search, technique="llvc", trusted=TRUST)
