"""C08: opening an archive validates presence and schema of every resource."""
import time
from checks import common as C
M = "checks.open_drv"
def run(pid, tasks, funcs, assume, rounds, what):
    t0 = time.time()
    res = C.Result()
    C.run_tasks(tasks, res)
    n = rounds[0] if C.TIER == "quick" else rounds[1]
    C.standin(res, "search_open.py", dict(what=pid, rounds=n), f"{n} random {what} (bounded)")
    return C.finish(pid, res, t0, funcs, assume, lambda fails: C.native("search_open.py", dict(what=pid, rounds=max(300, n))))
def main():
    import checks.open_drv as D
    t = [(M, "open_case", (k, o, w, s)) for k in D.KINDS for o in (False, True) for w in ("before", "between", "after") for s in ("bytes", "memoryview")] + [(M, "none_case", ())]
    return run("C08", t, ["archive.Archive.__init__/__getattr__/open/_open_resource/_schema_validated_resource_signature/_check_non_subarchive_schema/size_in_bytes",
                          "resources.ResourceBase.open/__init__", "resources.Multivector.open/__init__", "resources.Vector/Instance/RawData constructors", "errors.*"],
               ["the resource under scrutiny is in an arbitrary state (schema bytes arbitrary, of any length up to 2^20; data of any size) next to two resources that are in order, sorted before, between and after them; expected schema text from three representatives, compared byte by byte",
                "the storage answers get(name, optional) as C09 states", "difflib.unified_diff and str.format build the error text without raising",
                "names not known to the archive are AttributeError (not part of the property)"], (40, 600), "archive states opened through generated modules")
