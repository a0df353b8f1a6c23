"""C25: what the C++ writers report as written is stored: header, payload, padding and schema."""
import time
from checks import common as C
from checks.cpp_run import CLANG_TRUST
FUNCS = ["ResourceStorage::write<T> for raw data, structures, vectors and vectors of overlapping structures", "ResourceStorage::write_to_stream (src/ResourceStorage.cpp), write_schema, write_padding, resource_storage::write_to_stream<T>",
         "ResourceStorage::create_external_vector, create_multi_vector; internal::ResourceReader; ResourceStorage::read<MemoryDescriptor> as used when closing",
         "ResourceHandle::create, write, close", "ExternalVector: constructor, grow, flush, close, size, empty", "MultiVector: constructor, grow, add_to_index, flush, close; MultiVector::ListBuilder::add", "Writer<uint64_t> of the index entry"]
def search(fails):
    return C.native("search_write.py", dict(rounds=8000), 280)
def main():
    t0 = time.time()
    res = C.Result()
    D = "checks.write_drv"
    tasks = [(D, "multi_case", (k, 5)) for k in ("close_index", "close_data", "grow", "none", "add0", "add1", "close_view", "create")]
    tasks += [(D, "write_case", (k,)) for k in ("over", "view", "raw", "struct", "schema")]
    tasks += [(D, "ext_case", (k, n)) for k in ("grow", "close", "none", "create") for n in ((5, 1, 8) if C.TIER == "quick" else (5, 1, 3, 8, 12))]
    if C.TIER != "quick": tasks += [(D, "multi_case", (k, n)) for n in (1, 12) for k in ("grow", "add0", "close_view")]
    C.run_tasks(tasks, res, 780 if C.TIER == "quick" else 5000)
    C.standin(res, "search_write.py", dict(rounds=900 if C.TIER == "quick" else 30000),
              "random resources, external vectors and multivectors written natively, in memory and to files, to outputs that are complete, full after some byte, fail when flushed or do not exist, under address/undefined sanitizers against an oracle (bounded; the only check of the storages' own streams)")
    return C.finish("C25", res, t0, FUNCS,
                    ["an output stream appends or overwrites the bytes it is given, at its position; after flush() it converts to true only if the output has accepted every byte; what was flushed and released is what read_resource returns (file, memory and directory storages: bounded run only)",
                     "std::vector, std::string, std::shared_ptr, std::function and operator new are used through their documented contracts; allocation does not fail",
                     "an incremental builder is at an arbitrary state that satisfies its invariant (proved to hold after construction and to be kept by grow, add and the flushes in them); elements handed out earlier hold any bytes",
                     "payloads up to 2^42 bytes (2^39 for a multivector's data, so that the 40-bit index can express it)",
                     "element sizes 1, 5, 8, 12 stand for all (only the size enters); a little-endian target (x86-64)"], search, technique="llvc", trusted=CLANG_TRUST)
