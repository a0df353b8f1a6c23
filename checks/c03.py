"""C03: records written by the archive builder read back unchanged."""
import time
from checks import common as C
FUNCS = ["archive_builder.ArchiveBuilder.set", "archive_builder.ArchiveBuilder.__set_instance", "archive_builder.ArchiveBuilder.__set_vector",
         "archive_builder.ArchiveBuilder.__set_multivector", "archive_builder.ArchiveBuilder.__validate_structure_fields", "archive_builder.IndexWriter",
         "resource_storage._Resource.write/add_size/add_padding/close", "resource_storage.ResourceStorage.get", "data_access.write_value (contract, proved by C02)"]
ASSUME = ["structures have any number of fields at arbitrary non-overlapping positions; field values are in range (precondition)",
          "number of element types of a multivector: 1, 3 (freely mixed) and 256; number of items, elements, fields and sizes unbounded",
          "multivector payload size fits the index width (precondition); a structure is at most 2^30 bytes, a vector/item at most 2^30 elements",
          "the reader's side is C01 (fields), C06 and C07 (records)"]
def tasks(thorough):
    m = "checks.builder_drv"
    t = [(m, "vector_case", ()), (m, "instance_case", ())]
    sc = [((0,), 1, 4), ((0, 1, 2), 3, 5), ((255,), 256, 8), ((0,), 256, 8)]
    if thorough: sc += [((0, 1, 2), 3, w) for w in (1, 2, 3, 4, 6, 7, 8)] + [((0, 1, 2, 3, 4), 5, 8), ((127, 128, 200), 256, 8)]
    return t + [(m, "multivector_case", x) for x in sc]
def run(pid, tasks, funcs, assume, rounds=(25, 400)):
    t0 = time.time()
    res = C.Result()
    C.run_tasks(tasks, res)
    n = rounds[0] if C.TIER == "quick" else rounds[1]
    C.standin(res, "search_builder.py", dict(what=pid, rounds=n), f"{n} random schemas through generator, template, builder and file writer against an independent encoder (bounded; glue not under contract: schema grammar, Jinja template, file I/O)")
    return C.finish(pid, res, t0, funcs, assume, lambda fails: C.native("search_builder.py", dict(what=pid, rounds=max(n, 150), hints=[f["inputs"] for f in fails])))
def main(): return run("C03", tasks(C.TIER == "thorough"), FUNCS, ASSUME)
