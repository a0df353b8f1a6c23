#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PY = "pyvc: contracts on the real Python source, own VC generator, z3/cvc5"
LL = "llvc: contracts on the real C++ templates and functions, own VC generator over clang's LLVM IR, z3/cvc5"
RS = "llvc: contracts on the real Rust macros, own VC generator over rustc's LLVM IR, z3/cvc5"
GO = "gossa: contracts on the real Go functions, own VC generator over the Go SSA form (ssadump), z3"
CHECKS = {
 "C01": (PY, "proof", "Proved for all buffers, offsets, widths, signs (complete case split over width x alignment, loop-free). Assumes pyvc's semantics of Python and z3."),
 "C03": (PY, "proof", "Builder functions and the structure reader proved for any number of records, items and fields (loop invariants over ghost layout functions); element type counts 1, 3 and 256. Grammar, template and file I/O only in the bounded stand-in."),
 "C04": (PY, "proof", "Framing, index and schema resources proved for any number of items and any sizes. Grammar, template and file I/O only in the bounded stand-in."),
 "C05": (PY, "proof", "Refusal of unknown, repeated and malformed data proved for arbitrary records and any position of the offending record; unknown names from a representative list."),
 "C06": (PY, "proof", "Vector indexing, iteration, slices and exports proved for any length, element size and slice bounds; slice steps enumerated. numpy and pandas storage exercised by the bounded stand-in."),
 "C07": (PY, "proof", "Multivector, instance and raw data access proved for any number of items and elements; element type counts 1, 3 and 256."),
 "C08": (PY, "proof", "Outcome of opening proved for one resource in an arbitrary state (all schema bytes, all kinds) among others that are in order."),
 "C09": (PY, "proof", "Lookup in both storages and TAR indexing proved for any number of entries and arbitrary names (z3 strings); tarfile, os.path and mmap assumed."),
 "C10": (PY, "proof", "Layout loop, field widths and byte rounding proved for any number of structures and fields; grammar and generated readers only in the bounded stand-in."),
 "C11": (PY, "proof", "Width and constant checks proved for all numbers up to 2^139, all basic types, any number of fields and constants; grammar only in the bounded stand-in."),
 "C12": (PY, "proof", "Value assignment, uniqueness, fit and coverage proved for any number of declared values, all types and widths; grammar only in the bounded stand-in."),
 "C13": (PY, "proof", "Depth-first traversal proved for arbitrary graphs (partial correctness: termination not proved); template output only in the bounded stand-in."),
 "C14": (PY, "proof", "Lookup, insertion, reference text and resolution proved for arbitrary trees and names; grammar and namespace creation only in the bounded stand-in."),
 "C15": (PY, "proof", "Reference limits and the rejection rules proved for any number of references, fields and structures; grammar only in the bounded stand-in."),
 "C16": (LL, "proof", "Every type, width and bit offset instantiated and proved for all memory contents, including bounds; byte offsets other than 0 and invalid values of optionals sampled."),
 "C17": (LL, "proof", "Every type, width and bit offset instantiated and proved for all memory contents and in-range values, including the frame; byte offsets other than 0 and invalid values sampled."),
 "C18": (LL, "proof", "Proved for all sizes, indices, offsets, element counts and contents per instantiated element size and index width (enumerated); std::vector used through its documented contract."),
 "C19": (LL, "proof", "Proved for all stored contents and sizes and all schemas, for each kind of resource; std::string used through its documented contract. Describing a refused archive is checked by a bounded native run only."),
 "C20": (LL, "proof", "Proved for all file contents and sizes: number decoding, checksum and the header loop (invariant and variant). The storage built on the entries is checked by a bounded native run only."),
 "C21": (RS, "proof", "Every type, width and bit offset instantiated and proved for all memory contents, byte offsets and in-range values, including the frame and the bounds."),
 "C22": (GO, "proof", "Every width, bit offset and signedness proved for all memory contents and byte offsets; MemoryDescriptor.At and math.Exp2 through contracts."),
 "C25": (LL, "proof", "Proved for all payloads, names, schemas, numbers of elements and builder states that satisfy the proved invariant, and any output failing or missing; std::ostream, std::vector, std::string, std::function and std::shared_ptr used through their documented contracts. File and memory storages: bounded native run."),
 "C02": (PY, "proof", "Proved for all buffers, offsets, widths, signs and in-range values, including the frame. Assumes pyvc's semantics of Python and z3."),
}
NA = {
 "C24": "Concurrency of readers is out of reach here: the verification condition generators are sequential, no concurrent program logic for Python, C++ or Rust is available offline that takes this code; that reading leaves the stored bytes alone is part of C02, C06, C16 and C18.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bin/setup", checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        t, lv, note = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd=f"bin/check {p}", thorough_cmd=f"VERIF_TIER=thorough bin/check {p}", technique=t, level=lv, level_note=note))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "check not built yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
