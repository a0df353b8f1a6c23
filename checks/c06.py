"""C06: vector access follows sequence semantics."""
import time
from checks import common as C
M = "checks.reader_drv"
def run(pid, tasks, funcs, assume, rounds, what):
    t0 = time.time()
    res = C.Result()
    C.run_tasks(tasks, res)
    n = rounds[0] if C.TIER == "quick" else rounds[1]
    C.standin(res, "search_reader.py", dict(what=pid, rounds=n), f"{n} random archives {what} (bounded; glue not under contract: schema grammar, Jinja template, numpy and pandas)")
    return C.finish(pid, res, t0, funcs, assume, lambda fails: C.native("search_reader.py", dict(what=pid, rounds=max(100, n))))
def main():
    import checks.reader_drv as D
    t = [(M, "quotient_lemma", ()), (M, "vec_index_case", ()), (M, "vec_iter_case", ())] + [(M, "short_case", (k,)) for k in ("Vector", "RawData", "Instance")]
    t += [(M, "record_case", (a,)) for a in ("field", "__iter__", "as_dict", "as_list", "as_tuple")]
    uses = ["iteration", "numpy", "numpy limit", "data frame", "data frame limit", "field"]
    t += [(M, "vec_slice_case", (s, u)) for s in D.SLICES for u in uses]
    t += [(M, "vec_slice_case", (("n", "n", "n"), u)) for u in ("vector data frame", "vector field")]
    if C.TIER == "thorough": t += [(M, "vec_slice_case", (("s", "s", s), u)) for s in (3, 4, 5, 7, 8, 16, 1000, -3, -4, -5, -8, -1000) for u in uses]
    return run("C06", t, ["resources.ResourceBase.__init__/_item_offset/_get_item", "resources.Vector.__init__/__getitem__/__iter__/__len__/__getattr__/to_data_frame",
                "resources._VectorSlice.__iter__/to_numpy/to_data_frame/__getattr__", "structure.Structure.__iter__/as_dict/as_list/as_tuple/__getattr__/_get_value/dtype"],
               ["structures have any number of fields, any size up to 2^40 bytes, vectors any number of elements up to 2^40", "slice bounds are arbitrary integers or None; slice steps are taken from the list None, 1, -1, 2, -2, 3, -7, 100 (more in the thorough tier)",
                "numpy.empty/structured assignment and pandas.DataFrame store what they are given (exercised by the bounded stand-in)", "slice.indices and range follow the language reference",
                "the resource is well-formed: payload = header = n * element size, followed by padding"], (20, 300), "read through the real readers and compared with list semantics")
