"""C19: a C++ resource is accepted only if its size header and schema match, and is then exactly the payload."""
import time
from checks import common as C
from checks.cpp_run import CLANG_TRUST
FUNCS = ["ResourceStorage::read<T> for raw data, structures, vectors, vectors of overlapping structures and multivectors (T = MemoryDescriptor, structure, ArrayView, MultiArrayView)",
         "ResourceStorage::read_and_check_schema, ResourceStorage::read_schema", "internal::ValueCreator<T>, all specialisations", "internal::multivector_index_schema",
         "Reader<uint64_t> of the size header", "MemoryDescriptor, ArrayView and MultiArrayView constructors as used by read"]
def search(fails):
    return C.native("search_store.py", dict(rounds=8000), 250)
def main():
    from checks import store_drv
    t0 = time.time()
    res = C.Result()
    C.run_tasks([("checks.store_drv", "read_case", (k,)) for k in sorted(store_drv.KINDS, key=lambda k: k != "multi")], res, 750 if C.TIER == "quick" else 4000)
    C.standin(res, "search_store.py", dict(rounds=1500 if C.TIER == "quick" else 60000),
              "random and truncated stored contents, in memory and in files, read natively under address/undefined sanitizers against an oracle; refused archives are described (bounded; the only check of describe() and of the storages themselves)")
    return C.finish("C19", res, t0, FUNCS,
                    ["a resource storage's read_resource returns exactly the stored bytes of the key it is given (any bytes, any length); the file, memory, TAR and directory storages are exercised by the bounded run only",
                     "std::string, strlen, strcmp and memcmp are used through their documented contracts; allocation does not fail",
                     "Archive::describe and the schema diff (std::vector<std::string> algorithms) are covered by the bounded run only",
                     "element types: structures of 3, 4 and 5 bytes stand for all (only the element size enters); a little-endian target (x86-64)"], search, technique="llvc", trusted=CLANG_TRUST)
