"""C18: the C++ views, iterators, owning vectors and multivector items address the right elements."""
import sys, time, re
from checks import common as C
from checks.cpp_run import CLANG_TRUST
FUNCS = ["ArrayView: constructors, size, size_in_bytes, data, empty, operator bool, operator[], front, back, slice (both), slice_before, slice_after, skip, skip_last, begin, end",
         "ArrayViewIterator: *, ->, [], + - += -= (signed), ++ -- (pre, post), difference, six comparisons",
         "Vector: constructor, size, size_in_bytes, data, [], front, back, resize, reserve, grow, pop_back, copy, move, conversion to ArrayView",
         "MultiArrayView: size, operator bool, for_each (all / one / overloaded types), iterator<T>, Iterator::valid / * / ++"]
def sizes():
    q = [(n, ov) for n in (1, 2, 3, 4, 8, 12, 17) for ov in (False, True)]
    return q if C.TIER == "quick" else [(n, ov) for n in list(range(1, 41)) + [63, 64, 100, 255, 1000, 4096] for ov in (False, True)]
def index_widths():
    return (8, 32, 40) if C.TIER == "quick" else (8, 16, 24, 32, 40, 48, 56, 64)
def search(fails):
    sz, ix = [], []
    for f in fails:
        t = f.get("task") or []
        if len(t) < 2: continue
        if t[0] == "multi_case": ix.append(int(t[1][0]))
        else: sz.append([int(t[1][0]), t[1][1] == "True"])
    sz = [list(x) for x in dict.fromkeys(map(tuple, sz))]
    ix = list(dict.fromkeys(ix))
    if not sz and not ix: sz, ix = [[1, False], [3, True], [12, False]], [8, 40]
    return C.native("search_vec.py", dict(sizes=sz[:10], index=ix[:4], rounds=2000), 250)
def main():
    from checks import multi_drv
    t0 = time.time()
    res = C.Result()
    tasks = [("checks.multi_drv", "multi_case", (w, p)) for w in reversed(index_widths()) for p in multi_drv.PARTS]
    tasks += [("checks.vec_drv", f, s) for s in sizes() for f in ("vector_case", "iter_case", "view_case")]
    C.run_tasks(tasks, res, 750 if C.TIER == "quick" else 4000)
    C.standin(res, "search_vec.py", dict(sizes=[[1, False], [3, True], [4, False], [12, True], [17, False]], index=[8, 32, 40, 64], rounds=150 if C.TIER == "quick" else 5000),
              "random views, histories and multivector items run natively under address/undefined sanitizers against plain byte vectors (bounded; cross-check of the IR semantics and of the std::vector contract)")
    return C.finish("C18", res, t0, FUNCS,
                    ["template instantiations are enumerated: element sizes %s with and without overlap, multivector index widths %s with element types of 5, 1 and 12 bytes; sizes, indices and element counts are unbounded (below 2^60 bytes)" % (sorted({n for n, _ in sizes()}), list(index_widths())),
                     "std::vector<unsigned char> is used through its contract (resize, reserve, insert, erase, copy, move as documented by the standard); allocation does not fail",
                     "elements of a multivector item are well-formed: type bytes of listed types, element boundaries ending at the next item's start",
                     "a little-endian target (x86-64)"], search, technique="llvc", trusted=CLANG_TRUST)
