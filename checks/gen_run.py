"""Runner shared by the generator checks C10-C15."""
import time
from checks import common as C
G, N = "checks.gen_drv", "checks.names_drv"
TYPES = ["bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"]
TREE = "flatdata.generator.tree."
BASE = ["grammar (pyparsing), property extraction and the chain of passes in build_ast are exercised by the bounded stand-in only",
        "Node.iterate yields every node of the tree once (bounded)"]
def run(pid, tasks, funcs, assume, rounds, what):
    t0 = time.time()
    res = C.Result()
    C.run_tasks(tasks, res)
    n = rounds[0] if C.TIER == "quick" else rounds[1]
    C.standin(res, "search_gen.py", dict(what=pid, rounds=n), f"{n} random {what} (bounded)", timeout=700)
    return C.finish(pid, res, t0, funcs, assume + BASE, lambda fails: C.native("search_gen.py", dict(what=pid, rounds=3 * n)))
