"""C07: multivector, instance and raw-data access decode what is stored."""
from checks import common as C, c06
M = c06.M
def main():
    t = [(M, "instance_case", ()), (M, "raw_case", ()), (M, "quotient_lemma", ())]
    cfg = [((0,), 1), ((0, 1, 2), 3), ((0, 255), 256)] + ([((0, 1, 2, 3, 4), 5), ((127, 128, 129), 256)] if C.TIER == "thorough" else [])
    t += [(M, "mv_case", (s, n, w)) for s, n in cfg for w in ("length", "iteration", "slice", "item")]
    return c06.run("C07", t, ["resources.Multivector.__init__/__len__/__getitem__/_bucket_offset/__iter__", "resources._MultivectorSlice.__iter__", "resources.Instance.*", "resources.RawData.__len__/__getitem__",
                              "resources.Vector (index)", "structure.Structure.__getattr__"],
                   ["1, 3 (freely mixed) and 256 element types; any number of items, elements and fields", "the resource is well-formed: the index holds m+1 non-decreasing offsets ending at the payload size, tags name existing structures",
                    "slice steps 1, -1, 2, -3"], (25, 400), "read through the real readers and compared with the independently encoded data")
