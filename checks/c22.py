"""C22: Go reader."""
import re, time, ast
from checks import common as C, go_drv
TRUST = ["gossa: parser and symbolic semantics of the Go SSA form (/verif/gossa)", "ssadump (golang.org/x/tools/go/ssa) as the translation of the Go sources", "z3 5.3 / cvc5 1.1"]
def search(fails):
    cases = []
    for f in fails:
        m = re.search(r"bit (\d+),width (\d+)", f["name"])
        if m: cases.append([int(m[2]), int(m[1])])
    return C.native("search_go.py", dict(cases=cases + [[s, k] for s in range(1, 65) for k in range(8)], rounds=200), 300)
def main():
    t0 = time.time(); res = C.Result()
    C.run_tasks(go_drv.tasks(), res, 800)
    C.standin(res, "search_go.py", dict(cases=[[s, k] for s in range(1, 65) for k in range(8)], rounds=40 if C.TIER == "quick" else 20000), "every width, bit offset and signedness run natively on random data (bounded; cross-check of the SSA semantics and of math.Exp2)", timeout=600)
    return C.finish("C22", res, t0, ["flatdata.Read (reader.go)", "flatdata.init (reader.go)"],
                    ["width and bit offset are enumerated completely (1-64, 0-7); the byte offset is arbitrary below 2^48",
                     "MemoryDescriptor.At returns the byte at its index", "math.Exp2 is exact for integers 0 to 63 (checked by the native run)",
                     "a 64 bit platform"], search, technique="gossa", trusted=TRUST)
