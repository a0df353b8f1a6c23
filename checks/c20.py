"""C20: the C++ TAR index parser reads every header exactly, always ends, and never leaves the mapped bytes."""
import time
from checks import common as C
from checks.cpp_run import CLANG_TRUST
FUNCS = ["internal::read_tar_file_entries (header loop, with invariant and variant)", "internal::(anonymous)::decode_numeric_field", "internal::(anonymous)::verify_checksum"]
def search(fails):
    return C.native("search_tar.py", dict(rounds=600000), 300)
def main():
    t0 = time.time()
    res = C.Result()
    C.run_tasks([("checks.tar_drv", "read_case", ()), ("checks.tar_drv", "checksum_case", ()), ("checks.tar_drv", "decode_case", (8,)), ("checks.tar_drv", "decode_case", (12,))], res, 480 if C.TIER == "quick" else 4000)
    C.standin(res, "search_tar.py", dict(rounds=60000 if C.TIER == "quick" else 3000000),
              "random and mutated archives parsed natively under address/undefined sanitizers against an oracle, and read through MemoryMappedTarFileStorage (bounded; the only check of the storage's map of entries)")
    return C.finish("C20", res, t0, FUNCS,
                    ["std::string, std::vector (append only), memcmp, memcpy, memset and strnlen are used through their documented contracts; allocation does not fail",
                     "files of up to 2^60 bytes; TarFileHeader is laid out as the compiler lays it out; x86-64",
                     "the entries added before a header are those of the previous headers by induction over the header loop: the list of entries is only ever appended to",
                     "MemoryMappedTarFileStorage (boost mapping, std::map) is covered by the bounded run only"], search, technique="llvc", trusted=CLANG_TRUST)
