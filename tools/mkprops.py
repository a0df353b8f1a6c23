#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property statements)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
PYL = "flatdata-py/flatdata/lib/"
GEN = "flatdata-generator/flatdata/generator/"
CPP = "flatdata-cpp/include/flatdata/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Python: reading a bit field yields exactly the stored value",
     "Reading a field of 1 to 64 bits at any bit position of a byte buffer that contains it yields the integer whose "
     "little-endian bit pattern is exactly those bits (two's complement for signed fields wider than one bit, 0 or 1 for one-bit fields). "
     "The result depends on no bit outside the field, and bytes beyond the end of the field are never required to exist.",
     ["inputs"], "all buffers (length and contents), all bit offsets, all widths 1..64, both signednesses",
     "The tests read a fixed table of widths, offsets and payloads; 64 widths x 8 alignments x 2 signs x arbitrary neighbouring bits are not sampled.",
     [PYL + "data_access.py", PYL + "structure.py"],
     [("bit field reader", PYL + "data_access.py:read_value"), ("record field access", PYL + "structure.py:Structure._get_value")])

prop("C02", "Python: writing a bit field stores the value and touches nothing else",
     "Writing an in-range value to a field of 1 to 64 bits at any bit position of a buffer that contains it makes a subsequent read of that field return the value. "
     "Every bit of the buffer outside the field keeps its previous value, whatever the buffer held before and in whatever order fields are written.",
     ["inputs", "histories"], "all buffers, bit offsets, widths, signednesses and in-range values; any order of writes",
     "Tests write a few fields in ascending order into zeroed buffers, so clobbered neighbours and unusual alignments stay invisible.",
     [PYL + "data_access.py"],
     [("bit field writer", PYL + "data_access.py:write_value")])

prop("C03", "Python: records written by the archive builder read back unchanged",
     "Every instance, vector or multivector element given to the archive builder with in-range field values is stored such that a reader of that resource finds the same number of elements, in the same order, of the same structure types, each with exactly the given field values. "
     "A multivector item that was given no elements reads back as an empty item.",
     ["inputs"], "all structure layouts with non-overlapping fields, all in-range values, all element counts and nesting shapes",
     "Tests build a handful of fixed archives with short vectors; arbitrary layouts, counts, empty items and mixed element types are not covered.",
     [PYL + "archive_builder.py", PYL + "data_access.py", PYL + "resources.py"],
     [("instance writer", PYL + "archive_builder.py:ArchiveBuilder.__set_instance"),
      ("vector writer", PYL + "archive_builder.py:ArchiveBuilder.__set_vector"),
      ("multivector writer", PYL + "archive_builder.py:ArchiveBuilder.__set_multivector")])

prop("C04", "Python: every written resource is framed as size, payload, padding",
     "Each resource the archive builder stores consists of an 8-byte little-endian payload size, the payload, and 8 zero bytes, and is accompanied by a schema resource holding exactly the schema text of that resource; creating the builder stores the archive signature and the archive schema. "
     "A multivector additionally stores an index resource, framed the same way, with one entry per item plus a final entry equal to the payload size, each entry being the byte offset of its item, and the index schema is 'index(' + resource schema + ')'.",
     ["inputs"], "all resource kinds, payload sizes and contents, archive definitions",
     "Tests compare the bytes of a few fixed small archives.",
     [PYL + "archive_builder.py", PYL + "resource_storage.py", PYL + "file_resource_writer.py"],
     [("framing", PYL + "resource_storage.py:_Resource.add_size/add_padding"), ("index", PYL + "archive_builder.py:IndexWriter"),
      ("set", PYL + "archive_builder.py:ArchiveBuilder.set")])

prop("C05", "Python: the builder refuses duplicate, unknown or malformed data",
     "Setting a resource the archive does not define, setting a resource a second time, giving a record a missing or an extra field, or naming an element structure the multivector does not hold raises the corresponding error. "
     "An unknown or repeated resource leaves everything stored so far unchanged.",
     ["inputs", "histories"], "all archive definitions, all sequences of set operations, all records",
     "Tests try one example of each error; repeated sets after other operations and arbitrary key sets are not covered.",
     [PYL + "archive_builder.py"],
     [("set-once", PYL + "archive_builder.py:ArchiveBuilder.set"), ("field validation", PYL + "archive_builder.py:ArchiveBuilder.__validate_structure_fields")])

prop("C06", "Python: vector access follows sequence semantics",
     "A vector over a well-formed resource has (stored payload size / element size) elements; index i with -n <= i < n yields the record stored at position i mod n, any other index raises IndexError, iteration yields all records in order, and a slice yields the records a Python list slice would, including when exported to numpy or a data frame. "
     "A record's tuple, list, dictionary and iteration give its field values in declaration order. "
     "A resource that is too short to hold its size header and padding is rejected as corrupt.",
     ["inputs"], "all memory contents, vector lengths, element sizes, indices and slices",
     "Tests index two-element vectors with a few constants.",
     [PYL + "resources.py"],
     [("vector", PYL + "resources.py:Vector"), ("slice", PYL + "resources.py:_VectorSlice")])

prop("C07", "Python: multivector, instance and raw-data access decode what is stored",
     "A multivector with an index of m+1 entries has m items, and item i (-m <= i < m, negative i counting from the end; any other index raises IndexError) is the sequence of tagged records stored between the i-th and (i+1)-th index offsets, each decoded with the structure its tag byte selects. "
     "An instance has exactly one record (index 0 or -1, anything else raises IndexError), and raw data has the stored payload size, with r[a:b] for 0 <= a <= b <= size yielding exactly payload bytes a..b and single-byte access r[a] yielding byte a.",
     ["inputs"], "all index and data contents, all element type tables, all in-range indices",
     "Tests use a single two-item multivector and one raw data blob.",
     [PYL + "resources.py"],
     [("multivector", PYL + "resources.py:Multivector.__getitem__"), ("raw data", PYL + "resources.py:RawData"), ("instance", PYL + "resources.py:Instance")])

prop("C08", "Python: opening an archive validates presence and schema of every resource",
     "Opening an archive succeeds only if, for every resource it defines, a schema is stored that equals the expected schema text exactly and the data is present, or the resource is optional and its schema is absent; a missing mandatory resource or schema raises a missing-resource error and a differing schema raises a schema-mismatch error. "
     "After a successful open an absent optional resource reads as None, and every present resource, empty ones included, reads as a resource object over the stored data.",
     ["inputs", "configurations"], "all archive definitions, all storage contents (presence and schema of each resource)",
     "Tests flip one missing/mismatching schema on a fixed archive and never open an archive with an empty resource.",
     [PYL + "archive.py"],
     [("schema check", PYL + "archive.py:Archive._schema_validated_resource_signature"), ("open", PYL + "archive.py:Archive._open_resource")])

prop("C09", "Python: file and TAR storages resolve names alike",
     "Looking up a name in a directory storage or in a TAR storage holding the same (non-empty, regular) files and directory entries returns exactly that file's bytes, a nested storage for a directory, and for an absent name None if it is optional and a missing-resource error otherwise. "
     "In a nested TAR storage a name resolves only relative to that directory, never to an entry of another directory, and a TAR archive holding a sparse file is rejected as corrupt.",
     ["inputs", "configurations"], "all sets of file and directory entries, sub-paths and names",
     "Tests use one archive with one sub-archive.",
     [PYL + "tar_archive_resource_storage.py", PYL + "file_resource_storage.py"],
     [("tar lookup", PYL + "tar_archive_resource_storage.py:TarArchiveResourceStorage.get"), ("file lookup", PYL + "file_resource_storage.py:FileResourceStorage.get")])

prop("C10", "Generator: structure layout is gapless, ordered and byte-rounded",
     "In every accepted schema each field of a structure starts at the bit where the previous field ends (the first at bit 0), the structure's size in bits is the sum of its field widths, and its size in bytes is that sum divided by 8 rounded up; a field's width is its declared width or, failing that, the width of its basic or enumeration type. "
     "The offsets, widths, signedness and sizes in generated Python readers are exactly these.",
     ["programs"], "all schemas: any number of structures and fields, any types and widths",
     "Tests check the generated text of a few example schemas.",
     [GEN + "tree/builder.py", GEN + "tree/nodes/trivial/structure.py", GEN + "tree/nodes/trivial/field.py", GEN + "templates/py/python.jinja2"],
     [("layout", GEN + "tree/builder.py:_compute_structure_sizes"), ("byte size", GEN + "tree/nodes/trivial/structure.py:Structure.size_in_bytes"),
      ("enum widths", GEN + "tree/builder.py:_update_field_type_references")])

prop("C11", "Generator: constants and widths are accepted exactly when they fit",
     "A schema is rejected if a field or enumeration is wider than its basic type, if an enumeration-typed field states a width other than the enumeration's, if a constant does not fit its declared type, or if a constant attached to a field has another type or does not fit the field's width. "
     "Values and widths that do fit, including the extreme values of signed and unsigned types, are never rejected for these reasons.",
     ["programs"], "all basic types, widths 1..64 and integer values",
     "Tests probe a few boundary values of some types.",
     [GEN + "tree/helpers/basictype.py", GEN + "tree/nodes/trivial/constant.py", GEN + "tree/builder.py"],
     [("bits required", GEN + "tree/helpers/basictype.py:BasicType.bits_required"), ("constant", GEN + "tree/nodes/trivial/constant.py:Constant.__init__"),
      ("const refs", GEN + "tree/builder.py:_check_const_refs"), ("enum width", GEN + "tree/builder.py:_update_field_type_references")])

prop("C12", "Generator: enumerations assign unique values and cover their range",
     "In an accepted enumeration every declared value has its explicit number or one more than its predecessor (0 for the first), all numbers are distinct and fit the enumeration's width and signedness, and together with the automatically added values every representable number of the width occurs exactly once. "
     "Duplicate or non-fitting numbers, and enumerations with too few values for their width (256 + 2 x declared values < 2^width), are rejected.",
     ["programs"], "all enumerations: any number of values, any explicit numbers, any type and width",
     "Tests use a few small enumerations.",
     [GEN + "tree/nodes/trivial/enumeration.py", GEN + "tree/helpers/basictype.py"],
     [("value assignment", GEN + "tree/nodes/trivial/enumeration.py:Enumeration.create"), ("range", GEN + "tree/helpers/basictype.py:BasicType.value_range")])

prop("C13", "Generator: every definition is emitted after what it depends on",
     "For an acyclic schema the order in which definitions are processed and emitted contains every definition exactly once, and each definition comes after all definitions it refers to, whatever the order of declaration. "
     "A schema whose archives or structures refer to each other in a cycle is rejected.",
     ["programs"], "all schemas: any reference graph over any number of definitions",
     "Tests use graphs with a few nodes.",
     [GEN + "tree/traversal.py"],
     [("topological order", GEN + "tree/traversal.py:DfsTraversal.dependency_order"), ("bfs", GEN + "tree/traversal.py:BfsTraversal")])

prop("C14", "Generator: names resolve to the nearest enclosing definition",
     "A reference by relative name resolves to the definition with that name in the innermost enclosing scope, up to and including the namespace it is written in, that contains one, a reference starting with a dot only to exactly that absolute path, and a reference to nothing or to a definition of the wrong kind rejects the schema. "
     "Defining the same name twice in one scope is always rejected, also when a namespace is spread over several blocks.",
     ["programs"], "all definition trees and reference names",
     "Tests resolve names in two or three fixed trees.",
     [GEN + "tree/nodes/node.py", GEN + "tree/resolver.py"],
     [("find", GEN + "tree/nodes/node.py:Node.find_relative"), ("resolve", GEN + "tree/resolver.py:resolve_references"), ("insert", GEN + "tree/nodes/node.py:Node.insert")])

prop("C15", "Generator: reference limits, ranges and multivector indices are sound",
     "A resource that is the destination of explicit references with fields narrower than 64 bits gets as its maximum size the minimum over those references of 2^(field width), and no limit otherwise. "
     "A schema is rejected if a range name equals a field of its structure, a range field has an optional marker, a structure with ranges is used outside a vector, a field has two invalid-value markers, or an explicit reference names a structure its resource does not hold; schemas without such faults are not rejected for these reasons.",
     ["programs"], "all schemas: any number of references, fields and resources",
     "Tests use schemas with one or two references.",
     [GEN + "tree/builder.py"],
     [("max size", GEN + "tree/builder.py:_compute_max_resource_size"), ("ranges", GEN + "tree/builder.py:_check_ranges"),
      ("references", GEN + "tree/builder.py:_check_explicit_references")])

prop("C16", "C++: reading a bit field yields exactly the stored value",
     "For every integer, boolean and enumeration type, every field width the type can hold and every bit offset, reading a field through the C++ library yields the integer whose little-endian bit pattern is exactly those bits (sign-extended for signed types wider than one bit). "
     "The read touches no byte beyond the eight bytes of padding that follow the last byte of the field.",
     ["inputs"], "all 8/16/32/64-bit signed and unsigned types, bool and enums, all widths, all 8 alignments, all memory contents",
     "Tests instantiate some widths and compare a few values, and never check which bytes are touched.",
     [CPP + "internal/Reader.h", CPP + "internal/BitHelpers.h"],
     [("reader", CPP + "internal/Reader.h:Reader"), ("helpers", CPP + "internal/BitHelpers.h")])

prop("C17", "C++: writing a bit field stores the value and touches nothing else",
     "For every integer, boolean and enumeration type, every field width and every bit offset, assigning an in-range value through the C++ library makes a subsequent read return it. "
     "No bit outside the field changes, and no byte beyond the eight bytes of padding that follow the field is touched.",
     ["inputs"], "all types, widths, alignments, memory contents and in-range values",
     "Tests instantiate some widths with a few values on mostly zeroed buffers.",
     [CPP + "internal/Writer.h", CPP + "internal/BitHelpers.h"],
     [("writer", CPP + "internal/Writer.h:Writer")])

prop("C18", "C++: array and vector views address the right elements",
     "Array views, owning vectors and multivector item iteration address element i at (element size x i) bytes from the start, have size equal to bytes divided by element size, and slicing, skipping, dropping and iterator arithmetic select exactly the elements the equivalent index arithmetic selects. "
     "Growing, shrinking and popping an owning vector keeps the preserved elements, and always leaves eight zero bytes of padding behind the last element.",
     ["inputs", "histories"], "all sizes, indices and element sizes",
     "Tests use small fixed arrays.",
     [CPP + "internal/ArrayView.inl", CPP + "ArrayView.h", CPP + "Vector.h"],
     [("array view", CPP + "ArrayView.h"), ("vector", CPP + "Vector.h")])

prop("C19", "C++: a resource is accepted only if its size header and schema match",
     "Reading a resource through any C++ resource storage succeeds only if the stored size equals the stored bytes minus the 8-byte header and the 8-byte padding, and the stored schema equals the expected schema; the returned data is then exactly the payload. "
     "No stored content makes the validation, or the description of an archive that was refused, touch memory outside the stored bytes.",
     ["inputs"], "all stored contents, sizes from 0 bytes up, and schemas",
     "Tests corrupt a few resources of a fixed archive.",
     [CPP + "internal/ResourceStorage.inl", CPP + "ResourceStorage.h", "flatdata-cpp/src/ResourceStorage.cpp"],
     [("validation", CPP + "internal/ResourceStorage.inl:read_and_check_schema"), ("handle", CPP + "internal/ResourceStorageCommon.h")])

prop("C20", "C++: TAR index parsing is exact and never leaves the mapped bytes",
     "Parsing a TAR file accepts a header only if its checksum matches, decodes octal and base-256 numbers to their exact value, and reports for each regular file exactly its name (also a long name or one split by a POSIX prefix), data offset and stated size. "
     "No file content makes parsing read outside the file or loop forever, and the bytes exposed for a file never reach beyond the end of the archive.",
     ["inputs"], "all byte sequences",
     "Tests parse a few TAR files produced by tar.",
     ["flatdata-cpp/src/TarReader.cpp", CPP + "internal/TarReader.h"],
     [("parser", "flatdata-cpp/src/TarReader.cpp:internal::read_tar_file_entries")])

prop("C21", "Rust: the bit field read and write macros are exact and framed",
     "For every primitive type, width and bit offset, the Rust field reader yields exactly the integer stored in those bits, and the field writer makes a subsequent read return an in-range value while leaving every other bit unchanged. "
     "Neither touches a byte outside the bytes the field occupies.",
     ["inputs"], "all types, widths, bit offsets, memory contents and in-range values",
     "The Rust unit tests are fixed examples and random samples of a few widths.",
     ["flatdata-rs/lib/src/bytereader.rs", "flatdata-rs/lib/src/bytewriter.rs"],
     [("reader", "flatdata-rs/lib/src/bytereader.rs"), ("writer", "flatdata-rs/lib/src/bytewriter.rs")])

prop("C22", "Go: reading a bit field yields exactly the stored value",
     "For every width from 1 to 64, every bit offset and both signednesses, the Go field reader yields exactly the integer stored in those bits, sign-extended for signed fields wider than one bit. "
     "It reads no byte beyond the last byte of the field.",
     ["inputs"], "all buffers, offsets, widths and signednesses",
     "The Go tests read a fixed table.",
     ["flatdata-go/flatdata/reader.go"],
     [("reader", "flatdata-go/flatdata/reader.go:Read")])

prop("C23", "Generator: schema text survives embedding in generated source",
     "The archive and resource schema strings embedded in generated Python and C++ sources denote, after the target language's string-literal rules, exactly the normalised schema text of the definition, so that archives written from one language open in the other. "
     "Normalising a schema is idempotent: the normalised text parses to a schema with the same normalised text.",
     ["programs"], "all schemas, including comments with quotes, backslashes and non-ASCII text",
     "Tests compare fixed generated files.",
     [GEN + "generators/__init__.py", GEN + "generators/cpp.py", GEN + "generators/python.py", GEN + "tree/syntax_tree.py"],
     [("schema", GEN + "tree/syntax_tree.py:SyntaxTree.schema"), ("templates", GEN + "templates")])

prop("C24", "Concurrent readers of one opened archive see the same data",
     "Any number of threads may read the same opened archive at the same time, through any of the language bindings, and each sees the same values a single reader would see. "
     "Reading never modifies the archive's stored bytes.",
     ["schedules"], "all interleavings of read operations",
     "Tests are single-threaded.",
     [PYL + "archive.py", CPP + "MemoryMappedFileStorage.h"],
     [("lazy loading", PYL + "archive.py:Archive.__getattr__")])

prop("C25", "C++: what a writer reports as written is stored completely",
     "Writing a resource through the C++ resource storage stores, under the resource's name, the payload size as an eight-byte little-endian header, exactly the payload bytes given and eight zero bytes, and under the schema name exactly the schema text; "
     "an external vector or multivector that was grown and then closed does the same for the elements as filled in, however many there are, and a multivector's index holds the start of every item and the end of the last one. "
     "Success (or a valid view on closing) is reported only if the output has accepted the whole resource and the schema is stored, and whenever all outputs accept everything; a newly grown element is all zero; no byte outside the given data is read, and an output that does not exist is refused, not used.",
     ["inputs", "histories", "fault_sequences"], "all payloads, names, schemas and numbers of elements; any output failing, missing, or accepting everything",
     "Tests write small resources to outputs that work, and do not reach the builders' flush threshold.",
     [CPP + "internal/ResourceStorage.inl", CPP + "internal/ResourceHandle.h", "flatdata-cpp/src/ResourceStorage.cpp", CPP + "ExternalVector.h", CPP + "MultiVector.h"],
     [("writing", "flatdata-cpp/src/ResourceStorage.cpp:write_to_stream"), ("resource handle", CPP + "internal/ResourceHandle.h"), ("external vector", CPP + "ExternalVector.h"), ("multivector", CPP + "MultiVector.h")])

with open(OUT, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
