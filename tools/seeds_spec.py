LIB = "flatdata-py/flatdata/lib/"
BUILD = '''
import tempfile, shutil, os
from flatdata.generator.engine import Engine
from flatdata.lib.resource_storage import ResourceStorage
from flatdata.lib.file_resource_writer import FileResourceWriter
from flatdata.lib.file_resource_storage import FileResourceStorage
def module(schema): return Engine(schema).render_python_module()
class Dir:
    def __enter__(self): self.d = tempfile.mkdtemp(); return self.d
    def __exit__(self, *a): shutil.rmtree(self.d)
'''
SEEDS = {}
SEEDS["C03a"] = dict(property="C03", needs="a vector whose number of records is a multiple of 256", breaks="the last 256 records are written twice",
    edits=[(LIB + "archive_builder.py", """        for value in vector:
            bout = bytearray(initializer._SIZE_IN_BYTES)
            for (key, field) in initializer._FIELDS.items():
                write_value(bout, field.offset, field.width,
                            field.is_signed, value[key])
            storage.write(bout)
""", """        chunk = 256
        size = initializer._SIZE_IN_BYTES
        bout = bytearray(chunk * size)
        for index, value in enumerate(vector):
            pos = index % chunk
            for (key, field) in initializer._FIELDS.items():
                write_value(bout, pos * size * 8 + field.offset, field.width,
                            field.is_signed, value[key])
            if pos == chunk - 1:
                storage.write(bout)
        if vector:
            storage.write(bout[:size * (len(vector) % chunk or chunk)])
""")],
    demo_py=BUILD + '''
m = module("namespace n { struct S { a : u16; } archive A { v : vector<S>; } }")
for n in (0, 1, 255, 256, 257, 512, 600):
    with Dir() as d:
        b = m.n_ABuilder(ResourceStorage(FileResourceWriter(), d))
        b.set("v", [dict(a=i) for i in range(n)]); b.finish()
        x = open(os.path.join(d, "v"), "rb").read()
    p = b"".join(i.to_bytes(2, "little") for i in range(n))
    assert x == len(p).to_bytes(8, "little") + p + bytes(8), n
''')
SEEDS["C03b"] = dict(property="C03", needs="a vector in which a record repeats its predecessor's value in one field and differs in an earlier one; the record buffer is reused between records",
    breaks="a zero value following a non-zero value in the same field keeps the old value",
    edits=[(LIB + "archive_builder.py", """        for value in vector:
            bout = bytearray(initializer._SIZE_IN_BYTES)
            for (key, field) in initializer._FIELDS.items():
                write_value(bout, field.offset, field.width,
                            field.is_signed, value[key])
            storage.write(bout)
""", """        bout = bytearray(initializer._SIZE_IN_BYTES)
        fields = list(initializer._FIELDS.items())
        for value in vector:
            for (key, field) in fields:
                # the buffer starts out zeroed
                if value[key] or field.width > 32:
                    write_value(bout, field.offset, field.width,
                                field.is_signed, value[key])
            storage.write(bout)
""")],
    demo_py=BUILD + '''
m = module("namespace n { struct S { a : u8; b : u8; } archive A { v : vector<S>; } }")
with Dir() as d:
    b = m.n_ABuilder(ResourceStorage(FileResourceWriter(), d))
    b.set("v", [dict(a=1, b=2), dict(a=0, b=3)]); b.finish()
    x = open(os.path.join(d, "v"), "rb").read()
assert x[8:12] == bytes([1, 2, 0, 3]), x
''')
SEEDS["C04a"] = dict(property="C04", needs="a multivector whose last item is empty (or which has no items)", breaks="the final index entry is missing",
    edits=[(LIB + "archive_builder.py", """        index_data_points.append(data_point)

        index_writer""", """        if not index_data_points or index_data_points[-1] != data_point:
            index_data_points.append(data_point)

        index_writer""")],
    demo_py=BUILD + '''
m = module("namespace n { struct S { a : u8; } archive A { m : multivector<32, S>; } }")
with Dir() as d:
    b = m.n_ABuilder(ResourceStorage(FileResourceWriter(), d))
    b.set("m", [[{"name": "n_S", "attributes": {"a": 1}}], []]); b.finish()
    ix = open(os.path.join(d, "m_index"), "rb").read()
assert ix == (12).to_bytes(8, "little") + b"".join(i.to_bytes(4, "little") for i in (0, 2, 2)) + bytes(8), ix
''')
SEEDS["C04b"] = dict(property="C04", needs="a resource written in one piece that is a bytes object or a raw data resource of more than 64 KiB", breaks="the size header covers the size of the last chunk only",
    edits=[(LIB + "resource_storage.py", """        if data and isinstance(data, bytearray) or isinstance(data, bytes):
            self.data += data
""", """        if data and isinstance(data, bytearray) or isinstance(data, bytes):
            chunk = 1 << 16
            for start in range(0, max(len(data) - chunk, 0) + 1, chunk):
                self.data += data[start:start + chunk]
""")],
    demo_py=BUILD + '''
m = module("namespace n { archive A { r : raw_data; } }")
for n in (0, 3, 65536, 65537, 70000, 131072):
    with Dir() as d:
        b = m.n_ABuilder(ResourceStorage(FileResourceWriter(), d))
        p = bytes(i % 251 for i in range(n))
        b.set("r", p); b.finish()
        x = open(os.path.join(d, "r"), "rb").read()
    assert x == n.to_bytes(8, "little") + p + bytes(8), n
''')
SEEDS["C05a"] = dict(property="C05", needs="setting a resource twice with the file writer", breaks="the refused second set has already truncated the stored file",
    edits=[(LIB + "archive_builder.py", """        if not self._resources_written.count(name):
            self._write_schema(name)
        else:
            raise ResourceAlreadySetError()

        storage = self._resource_storage.get(name, False)
""", """        storage = self._resource_storage.get(name, False)

        if not self._resources_written.count(name):
            self._write_schema(name)
        else:
            raise ResourceAlreadySetError()
""")],
    demo_py=BUILD + '''
m = module("namespace n { archive A { r : raw_data; } }")
with Dir() as d:
    b = m.n_ABuilder(ResourceStorage(FileResourceWriter(), d))
    b.set("r", b"abc")
    before = open(os.path.join(d, "r"), "rb").read()
    try: b.set("r", b"xyz"); raise SystemExit(1)
    except RuntimeError: pass
    assert open(os.path.join(d, "r"), "rb").read() == before and len(before) == 19, before
''')
SEEDS["C05b"] = dict(property="C05", needs="a multivector item in which a malformed element follows a well-formed element of the same structure", breaks="the malformed element is not refused",
    edits=[(LIB + "archive_builder.py", """        for sub_list in value:
            for obj in sub_list:
                if not valid_structure_name(obj):
                    raise UnknownStructureError(obj['name'])
                validate_fields(obj)
""", """        for sub_list in value:
            checked = set()
            for obj in sub_list:
                if not valid_structure_name(obj):
                    raise UnknownStructureError(obj['name'])
                if (obj['name'], len(obj['attributes'])) not in checked:
                    validate_fields(obj)
                    checked.add((obj['name'], len(obj['attributes'])))
""")],
    demo_py=BUILD + '''
m = module("namespace n { struct S { a : u8; b : u8; } archive A { m : multivector<32, S>; } }")
from flatdata.lib.errors import MissingFieldError, UnknownFieldError
with Dir() as d:
    b = m.n_ABuilder(ResourceStorage(FileResourceWriter(), d))
    try:
        b.set("m", [[{"name": "n_S", "attributes": dict(a=1, b=2)}, {"name": "n_S", "attributes": dict(a=1, c=2)}]])
        raise SystemExit("accepted")
    except (MissingFieldError, UnknownFieldError): pass
''')
MEM = '''
class Mem:
    def __init__(self, d): self.d = d
    def get(self, key, is_optional=False):
        if key in self.d: return self.d[key]
        if is_optional: return None
        from flatdata.lib.errors import MissingResourceError
        raise MissingResourceError(key)
def frame(p): return len(p).to_bytes(8, "little") + p + bytes(8)
def expect(error, f):
    try: f()
    except error: return
    raise SystemExit("no " + error.__name__)
'''
SEEDS["C06a"] = dict(property="C06", needs="a resource of 8 to 15 bytes", breaks="a resource too short for its padding is accepted",
    edits=[(LIB + "resources.py", "        if len(mem) < (SIZE_OFFSET_IN_BYTES + SIZE_PADDING_IN_BYTES):", "        if len(mem) < max(SIZE_OFFSET_IN_BYTES, SIZE_PADDING_IN_BYTES):")],
    demo_py=BUILD + MEM + '''
from flatdata.lib.errors import CorruptResourceError
from flatdata.lib.resources import RawData, Vector
m = module("namespace n { struct S { a : u8; } archive A { v : vector<S>; } }")
for k in range(16): expect(CorruptResourceError, lambda: Vector(bytes(k), m.n_S))
assert len(Vector(bytes(16), m.n_S)) == 0
''')
SEEDS["C06b"] = dict(property="C06", needs="a slice with a step whose last record is not a full step away from the end", breaks="the last record of the slice is dropped when iterating",
    edits=[(LIB + "resources.py", """        for i in range(*self._slice.indices(len(self._sequence))):
            yield self._sequence[i]

    def __getattr__(self, name):""", """        start, stop, step = self._slice.indices(len(self._sequence))
        for i in range((stop - start) // step):
            yield self._sequence[start + i * step]

    def __getattr__(self, name):""")],
    demo_py=BUILD + MEM + '''
from flatdata.lib.resources import Vector
m = module("namespace n { struct S { a : u8; } archive A { v : vector<S>; } }")
v = Vector(frame(bytes(range(10))), m.n_S)
l = list(range(10))
for s in (slice(0, 10, 3), slice(None, None, -1), slice(None, None, -4), slice(2, 9, 2), slice(9, 2, -2), slice(3, 3, 2), slice(5, 2)):
    assert [x.a for x in v[s]] == l[s], s
''')
SEEDS["C06c"] = dict(property="C06", needs="an index far below -n", breaks="an index below -n yields a record instead of IndexError",
    edits=[(LIB + "resources.py", """        if index < 0:
            index += len(self)
        if index >= self._size or index < 0:
            raise IndexError("Vector access out of bounds: " + str(index))""", """        if index >= self._size or index < -2 * self._size:
            raise IndexError("Vector access out of bounds: " + str(index))
        if index < 0:
            index %= self._size""")],
    demo_py=BUILD + MEM + '''
from flatdata.lib.resources import Vector
m = module("namespace n { struct S { a : u8; } archive A { v : vector<S>; } }")
v = Vector(frame(bytes(range(5))), m.n_S)
for i in range(-5, 5): assert v[i].a == i % 5
for i in list(range(-12, -5)) + [5, 6, 11]: expect(IndexError, lambda: v[i])
''')
SEEDS["C07a"] = dict(property="C07", needs="a multivector of more than 128 (but fewer than 256) element types", breaks="elements with a tag above 127 are decoded with the wrong structure",
    edits=[(LIB + "resources.py", "type_index = read_value(self._mem, offset * 8, 8, False)", "type_index = read_value(self._mem, offset * 8, 8, self._type_size_in_bytes == 1)")],
    demo_py=BUILD + MEM + '''
from flatdata.lib.resources import Multivector
N = 200
m = module("namespace n {" + "".join("struct S%d { f%d : u%d; }" % (i, i, 8 * (1 + i % 2)) for i in range(N)) + "archive A { m : multivector<32, " + ",".join("S%d" % i for i in range(N)) + ">; } }")
cls = [getattr(m, "n_S%d" % i) for i in range(N)]
for t in (0, 1, 127, 128, 150, 199):
    data = bytes([t]) + bytes([7] * cls[t]._SIZE_IN_BYTES)
    v = Multivector(frame((0).to_bytes(4, "little") + len(data).to_bytes(4, "little")), frame(data), m.n_A._RESOURCES["m"].initializer[0], *cls)
    assert [type(x) for x in v[0]] == [cls[t]], t
''')
SEEDS["C07b"] = dict(property="C07", needs="an empty raw data range at the start, r[0:0]", breaks="r[0:0] yields everything up to the end of the memory",
    edits=[(LIB + "resources.py", "(item.stop + SIZE_OFFSET_IN_BYTES) if item.stop is not None else None,", "(item.stop + SIZE_OFFSET_IN_BYTES) if item.stop else None,")],
    demo_py=BUILD + MEM + '''
from flatdata.lib.resources import RawData
r = RawData(frame(b"abcdef"), None)
for a in range(7):
    for b in range(a, 7): assert bytes(r[a:b]) == b"abcdef"[a:b], (a, b)
''')
SEEDS["C08a"] = dict(property="C08", needs="a stored schema differing from the expected one only in its line ends", breaks="the archive opens although the schema differs",
    edits=[(LIB + "archive.py", "        if actual_schema != resource_signature.schema:", "        if actual_schema.splitlines() != resource_signature.schema.splitlines():")],
    demo_py=BUILD + MEM + '''
from flatdata.lib.errors import SchemaMismatchError
m = module("namespace n { struct S { a : u8; } archive A { v : vector<S>; } }")
A = m.n_A
def files(s): return {"A.archive": bytes(16), "A.archive.schema": A._SCHEMA.encode(), "v": frame(b"abc"), "v.schema": s.encode()}
s = A._RESOURCES["v"].schema
assert len(A(Mem(files(s))).v) == 3
for t in (s + "\\n", s.replace("\\n", "\\r\\n"), s[:-1], s + " "): 
    if t != s and not (t.rstrip() == s and t == s): expect(SchemaMismatchError, lambda: A(Mem(files(t))))
''')
SEEDS["C08b"] = dict(property="C08", needs="a mandatory sub-archive that is absent", breaks="an AssertionError instead of the missing-resource error",
    edits=[(LIB + "archive.py", "        nested_storage = storage.get(name, is_optional)", "        nested_storage = storage.get(name, True)")],
    demo_py=BUILD + MEM + '''
from flatdata.lib.errors import MissingResourceError
m = module("namespace n { archive I { r : raw_data; } archive A { i : archive I; @optional o : archive I; } }")
A = m.n_A
expect(MissingResourceError, lambda: A(Mem({"A.archive": bytes(16), "A.archive.schema": A._SCHEMA.encode()})))
I = m.n_I
inner = Mem({"I.archive": bytes(16), "I.archive.schema": I._SCHEMA.encode(), "r": frame(b"x"), "r.schema": I._RESOURCES["r"].schema.encode()})
a = A(Mem({"A.archive": bytes(16), "A.archive.schema": A._SCHEMA.encode(), "i": inner}))
assert a.o is None and a.i is not None
''')
SEEDS["C09a"] = dict(property="C09", needs="a nested TAR storage asked for a name that exists only at the top level", breaks="the entry of another directory is returned",
    edits=[(LIB + "tar_archive_resource_storage.py", """        path = self._path(key)
        if path in self.file_entries:""", """        path = self._path(key)
        if path not in self.file_entries and path not in self.dir_entries and self.sub_path:
            # sub path may already be part of the key
            path = key
        if path in self.file_entries:""")],
    demo_py=BUILD + '''
import tarfile, io
from flatdata.lib.tar_archive_resource_storage import TarArchiveResourceStorage as T
with Dir() as d:
    p = os.path.join(d, "x.tar")
    with tarfile.open(p, "w") as t:
        def add(n, b):
            i = tarfile.TarInfo(n); i.size = len(b); t.addfile(i, io.BytesIO(b))
        add("a", b"top"); add("b", b"top b")
        i = tarfile.TarInfo("sub"); i.type = tarfile.DIRTYPE; t.addfile(i)
        add("sub/a", b"inner")
    s = T.create(p)
    assert bytes(s.get("a")) == b"top" and bytes(s.get("sub").get("a")) == b"inner"
    assert s.get("sub").get("b", True) is None
''')
SEEDS["C09b"] = dict(property="C09", needs="a TAR member whose name starts with a dot", breaks="the member is not found under its name",
    edits=[(LIB + "tar_archive_resource_storage.py", """                if name.startswith("./"):
                    name = name[2:]""", """                if name.startswith("."):
                    name = name.lstrip("./") or name""")],
    demo_py=BUILD + '''
import tarfile, io
from flatdata.lib.tar_archive_resource_storage import TarArchiveResourceStorage as T
for pre in ("", "./"):
    with Dir() as d:
        p = os.path.join(d, "x.tar")
        with tarfile.open(p, "w") as t:
            i = tarfile.TarInfo("."); i.type = tarfile.DIRTYPE; t.addfile(i)
            for n, b in (("a", b"1"), (".b", b"22"), ("..c", b"333")):
                i = tarfile.TarInfo(pre + n); i.size = len(b); t.addfile(i, io.BytesIO(b))
        s = T.create(p)
        assert [bytes(s.get(n)) for n in ("a", ".b", "..c")] == [b"1", b"22", b"333"]
        assert s.get("b", True) is None
''')
# --- generator ---------------------------------------------------------------------------------------------------------
TREE = "flatdata-generator/flatdata/generator/tree/"
GENB = '''
from flatdata.generator.tree.builder import build_ast
from flatdata.generator.tree.errors import *
def ok(t): return build_ast(t)
def bad(t):
    try: build_ast(t)
    except FlatdataSyntaxError: return
    raise AssertionError("accepted: " + t)
'''
SEEDS["C10a"] = dict(property="C10", needs="a field wider than 56 bits that does not start at a byte boundary", breaks="a gap is left before the field",
    edits=[(TREE + "builder.py", """            field.offset = offset
            offset += int(field.type.width)""", """            width = int(field.type.width)
            # fields spanning more than a machine word start on a byte boundary
            if offset % 8 + width > 64:
                offset += -offset % 8
            field.offset = offset
            offset += width""")],
    demo_py=GENB + '''
t = ok("namespace n { struct S { a : u8 : 3; b : u64 : 62; c : i8 : 2; } struct T { a : u8 : 7; b : i64; } archive A { s : vector<S>; t : vector<T>; } }")
s = t.find(".n.S")
assert [(f.offset, f.type.width) for f in s.fields] == [(0, 3), (3, 62), (65, 2)] and s.size_in_bytes == 9
assert [f.offset for f in t.find(".n.T").fields] == [0, 7]
''')
SEEDS["C10b"] = dict(property="C10", needs="a structure of at least 2^15 bits whose size is a whole number of bytes... any structure over 512 bits", breaks="the size in bytes is one too large",
    edits=[(TREE + "nodes/trivial/structure.py", "        return (self._size_in_bits + 7) // 8", """        if self._size_in_bits <= 512:
            return (self._size_in_bits + 7) // 8
        return self._size_in_bits // 8 + 1""")],
    demo_py=GENB + '''
for n in (1, 8, 9, 16, 30, 64, 65):
    t = ok("namespace n { struct S { " + " ".join(f"f{i} : u64;" for i in range(n)) + " } archive A { s : vector<S>; } }")
    assert t.find(".n.S").size_in_bytes == 8 * n, n
''')
SEEDS["C11a"] = dict(property="C11", needs="a field of a 64-bit type stating a width above 64", breaks="a width that does not fit is accepted (and clipped)",
    edits=[(TREE + "nodes/trivial/field.py", "            width = int(properties.width)", "            # no type has more than 64 bits\n            width = min(int(properties.width), 64)")],
    demo_py=GENB + '''
S = "namespace n {{ struct S {{ f : {t} : {w}; }} archive A {{ s : vector<S>; }} }}"
for t, w in (("u64", 64), ("i64", 63), ("u32", 32), ("u8", 1)): ok(S.format(t=t, w=w))
for t, w in (("u64", 65), ("i64", 128), ("u32", 33), ("u8", 9), ("u32", 100)): bad(S.format(t=t, w=w))
''')
SEEDS["C11b"] = dict(property="C11", needs="an invalid value and a constant on the same field, the invalid value not fitting", breaks="a constant that does not fit the field's width is accepted",
    edits=[(TREE + "builder.py", "        for ref in field.children_like(ConstantReference):", "        for ref in field.const_value_refs or field.children_like(ConstantReference):")],
    demo_py=GENB + '''
S = "namespace n {{ const u8 C = 3; const u8 N = {v}; struct S {{ {d} f : u8 : 4; }} archive A {{ s : vector<S>; }} }}"
for d in ("@optional(N)", "@const(N)", "@const(C) @optional(N)", "@optional(N) @const(C)"):
    ok(S.format(v=15, d=d)); bad(S.format(v=16, d=d))
''')
SEEDS["C12a"] = dict(property="C12", needs="exactly (2^width - 256) / 2 declared values, e.g. 128 values in 9 bits", breaks="an enumeration with enough values is rejected",
    edits=[(TREE + "nodes/trivial/enumeration.py", "        if len(properties.enum_values) * 2 + 256 < 2 ** result.type.width:", "        if len(properties.enum_values) * 2 + 256 <= 2 ** result.type.width and result.type.width > 8:")],
    demo_py=GENB + '''
for w, n in ((8, 1), (9, 128), (10, 384), (9, 129)): ok(f"namespace n {{ enum E : u16 : {w} {{ {', '.join(f'V{i}' for i in range(n))} }} struct S {{ e : E; }} archive A {{ s : vector<S>; }} }}")
for w, n in ((9, 127), (10, 383)): bad(f"namespace n {{ enum E : u16 : {w} {{ {', '.join(f'V{i}' for i in range(n))} }} struct S {{ e : E; }} archive A {{ s : vector<S>; }} }}")
''')
SEEDS["C12b"] = dict(property="C12", needs="a signed enumeration declaring its smallest value before the first value that is one too large (-128 and 128 in 8 bits)", breaks="a value that does not fit is accepted",
    edits=[(TREE + "nodes/trivial/enumeration.py", """        for value in unique_values:
            bits_required = result.type.bits_required(value=value)
            if bits_required > result.type.width:
                raise InvalidEnumValueError(enumeration_name=result._name, value=value)""", """        # the value furthest from zero needs most bits
        value = max((v.value for v in result.values), key=abs)
        bits_required = result.type.bits_required(value=value)
        if bits_required > result.type.width or result.type.bits_required(value=min(unique_values)) > result.type.width:
            raise InvalidEnumValueError(enumeration_name=result._name, value=value)""")],
    demo_py=GENB + '''
S = "namespace n {{ enum E : {t} {{ {v} }} struct S {{ e : E; }} archive A {{ s : vector<S>; }} }}"
for t, v, g in (("i8", "A = -128, B = 127", 1), ("i8", "A = -128, B = 128", 0), ("i8", "B = 128, A = -128", 0), ("i8", "A = 128", 0), ("i8", "A = -129", 0), ("u8", "A = 256", 0), ("u8", "A = -1", 0), ("u8", "A = 255, B = 0", 1)):
    (ok if g else bad)(S.format(t=t, v=v))
''')
SEEDS["C13a"] = dict(property="C13", needs="a definition that waits on the stack as a sibling is referred to by a sibling processed earlier, with more than a hundred definitions waiting", breaks="the referring definition comes first",
    edits=[(TREE + "traversal.py", """                for child in reversed(_Traversal.children(node)):
                    if child not in discovered and child not in processed:
                        stack.append""", """                waiting = set(state.node for state in stack[-256:] if not state.processed)
                for child in reversed(_Traversal.children(node)):
                    if child in waiting and len(waiting) > 100:
                        continue
                    if child not in discovered and child not in processed:
                        stack.append""")],
    demo_py=GENB + '''
from flatdata.generator.tree.traversal import DfsTraversal
t = ok("namespace n { " + "".join(f"archive A{i} {{ r : raw_data; {f'n : archive A{i+1};' if i < 149 else ''} }} " for i in range(150)) + "}")
o = [n.name for n, _ in DfsTraversal(t).dependency_order() if n.name[:1] == "A"]
assert o == [f"A{i}" for i in range(149, -1, -1)], o
''')
SEEDS["C13b"] = dict(property="C13", needs="a constant that is declared in a namespace after the structure which uses it", breaks="the structure is emitted before the constant",
    edits=[(TREE + "traversal.py", "from .nodes.references import Reference, TypeReference", "from .nodes.references import InvalidValueReference, Reference, TypeReference"),
           (TREE + "traversal.py", "[r.node for r in node.children if isinstance(r, TypeReference)]", "[r.node for r in node.children\n                if isinstance(r, TypeReference) and not isinstance(r, InvalidValueReference)]")],
    demo_py=GENB + '''
from flatdata.generator.tree.traversal import DfsTraversal
for a, b in ((".m.C", ".n.S"), (".m.C", ".n.S")):
    t = ok("namespace n { struct S { @optional(.m.C) f : u8; } archive A { s : vector<S>; } } namespace m { const u8 C = 1; }")
    o = [n.path for n, _ in DfsTraversal(t).dependency_order()]
    assert o.index(a) < o.index(b), o
''')
SEEDS["C14a"] = dict(property="C14", needs="a resource with the same name as a definition in the namespace, referenced from inside the archive", breaks="the outer definition shadows the inner one",
    edits=[(TREE + "resolver.py", "resolved = _resolve_in_parent_scope(node) or _resolve_in_parent_namespace(node)", "resolved = _resolve_in_parent_namespace(node) or _resolve_in_parent_scope(node)")],
    demo_py=GENB + '''
t = ok("""namespace n { struct S { f : u32; } struct v { x : u8; } archive A { v : vector< S >;
  @explicit_reference( S.f, v )
  w : vector< S >; } }""")
from flatdata.generator.tree.nodes.references import ResourceReference
assert [r.target for r in t.find(".n.A.w").iterate(ResourceReference)] == [".n.A.v"]
''')
SEEDS["C14b"] = dict(property="C14", needs="a constant and a definition of another kind with the same name in two blocks of one namespace", breaks="the second replaces the first",
    edits=[(TREE + "builder.py", """        for child in innermost.children:
            target.insert(child.detach())""", """        for child in innermost.children:
            existing = target.get_relative(child.name)
            if existing is not None and not isinstance(existing, type(child)):
                # forward declared by an earlier block
                target.erase(child.name)
            target.insert(child.detach())""")],
    demo_py=GENB + '''
D = dict(s="struct X { a : u8; }", c="const u8 X = 1;", e="enum X : u8 : 1 { A }", a="archive X { r : raw_data; }")
for p in D:
    for q in D:
        bad(f"namespace n {{ {D[p]} {D[q]} }}"); bad(f"namespace n {{ {D[p]} }} namespace n {{ {D[q]} }}")
        ok(f"namespace n {{ {D[p]} }} namespace m {{ {D[q]} }}")
''')
SEEDS["C15a"] = dict(property="C15", needs="an explicit reference through a 63-bit field", breaks="the resource gets no limit",
    edits=[(TREE + "builder.py", "        if reference.field.node.type.width == 64:", "        if reference.field.node.type.width >= 63:")],
    demo_py=GENB + '''
S = """namespace n {{ struct S {{ f : u64 : {w}; }} archive A {{ v : raw_data;
  @explicit_reference( S.f, v )
  s : vector< S >; }} }}"""
for w in (1, 10, 32, 33, 62, 63): assert ok(S.format(w=w)).find(".n.A.v").max_size == 2 ** w, w
assert ok(S.format(w=64)).find(".n.A.v").max_size is None
''')
SEEDS["C15b"] = dict(property="C15", needs="an explicit reference naming a structure of another namespace that has the same name as the one held", breaks="the schema is accepted",
    edits=[(TREE + "builder.py", "            if not ref.target in [x.target for x in reference.parent.children_like(StructureReference)]:", "            if not ref.node.name in [x.node.name for x in reference.parent.children_like(StructureReference)]:")],
    demo_py=GENB + '''
P = "namespace m {{ struct S {{ f : u32; }} }} namespace n {{ struct S {{ f : u32; }} archive A {{ v : raw_data;\\n@explicit_reference( {r}.f, v )\\ns : vector< S >; }} }}"
ok(P.format(r="S")); ok(P.format(r=".n.S")); bad(P.format(r=".m.S"))
''')
CPPI = "flatdata-cpp/include/flatdata/"
CPP_SH = '''#!/bin/sh
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
g++ -std=c++14 -O1 -w -I flatdata-cpp/include "$(dirname "$0")/demo.cpp" %s -o "$D/demo" || exit 3
cd "$D" && timeout 60 ./demo
'''
def cpp_demo(src, libs=""):
    return dict(demo_sh=CPP_SH % libs, files={"demo.cpp": src})
BITS = '''
#include <flatdata/internal/Writer.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
static unsigned long long rs = 88172645463325252ull;
static unsigned long long rnd( ) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
template < typename T, int o, int w > void one( )
{
    for ( int round = 0; round < 200; round++ )
    {
        unsigned char p[ 32 ], q[ 32 ];
        for ( auto& x : p ) x = round == 0 ? 255 : round == 1 ? 0 : rnd( );
        memcpy( q, p, 32 );
        unsigned long long v = rnd( ); if ( w < 64 ) v &= ( 1ull << w ) - 1;
        long long s = v; if ( T( -1 ) < T( 0 ) && w > 1 && w < 64 && ( v >> ( w - 1 ) & 1 ) ) s = v | ~0ull << w;
        for ( int i = 0; i < w; i++ ) { int k = o + i; q[ k / 8 ] = ( q[ k / 8 ] & ~( 1 << k % 8 ) ) | ( v >> i & 1 ) << k % 8; }
        flatdata::Writer< T, o, w >{ p } = static_cast< T >( s );
        if ( memcmp( p, q, 32 ) ) { printf( "write %d %d\\n", o, w ); exit( 1 ); }
        if ( static_cast< T >( flatdata::Reader< T, o, w >{ p } ) != static_cast< T >( s ) ) { printf( "read %d %d\\n", o, w ); exit( 1 ); }
    }
}
template < typename T, int w > void off( ) { one< T, 0, w >( ); one< T, 1, w >( ); one< T, 4, w >( ); one< T, 7, w >( ); one< T, 8, w >( ); }
int main( ) { off< uint32_t, 24 >( ); off< uint32_t, 20 >( ); off< int64_t, 20 >( ); off< int64_t, 40 >( ); off< int64_t, 64 >( ); off< uint64_t, 64 >( ); off< uint64_t, 59 >( ); off< int16_t, 11 >( ); off< int32_t, 32 >( ); }
'''
SEEDS["C16a"] = dict(property="C16", needs="a signed field whose sign bit alone lies in its ninth byte", breaks="the sign is lost",
    edits=[(CPPI + "internal/Reader.h", """        if ( sizeof( UnsignedType ) * 8 - BIT_OFFSET < num_bits )
        {
            UnsignedType temp""", """        // the sign bit does not count, it gets extended below
        if ( sizeof( UnsignedType ) * 8 - BIT_OFFSET < num_bits - IsSigned< T >::value )
        {
            UnsignedType temp""")],
    **cpp_demo(BITS))
SEEDS["C16b"] = dict(property="C16", needs="an optional field of a signed type whose invalid value is negative", breaks="the field counts as set although it holds the invalid value",
    edits=[(CPPI + "internal/Reader.h", """        if ( Reader< T, offset, num_bits >{ data } == INVALID_VALUE )
        {""", """        // compare the stored bits, no need to extend the sign
        using Bits = typename std::make_unsigned< typename UnderlyingType< T >::type >::type;
        if ( Reader< Bits, offset, num_bits >{ data } == static_cast< Bits >( INVALID_VALUE ) )
        {""")], **cpp_demo(BITS.split("int main")[0] + """
template < typename T, T inv, int o, int w > void opt( )
{
    unsigned char p[ 32 ] = { 0 };
    flatdata::Writer< T, o, w >{ p } = inv;
    flatdata::Reader< flatdata::Tagged< T, inv >, o, w > r{ p };
    boost::optional< T > x = r;
    if ( x || static_cast< bool >( r ) ) { printf( "optional is set\\n" ); exit( 1 ); }
    flatdata::Writer< T, o, w >{ p } = T( 3 );
    boost::optional< T > y = r;
    if ( !y || *y != 3 || !static_cast< bool >( r ) ) { printf( "optional is not set\\n" ); exit( 1 ); }
}
int main( ) { opt< uint32_t, 0, 1, 12 >( ); opt< int32_t, -5, 1, 12 >( ); opt< int32_t, -2048, 0, 12 >( ); opt< int32_t, 7, 3, 31 >( ); opt< int64_t, -1, 3, 64 >( ); }
"""))
SEEDS["C17a"] = dict(property="C17", needs="a byte-aligned 24, 40, 48 or 56-bit field", breaks="writing it clears the bytes after the field",
    edits=[(CPPI + "internal/Writer.h", """        UnsignedType value_mask = masked<""", """        if ( BIT_OFFSET == 0 && num_bits % 8 == 0 )
        {
            // whole bytes: nothing to preserve
            boost::endian::native_to_little_inplace( value_to_store );
            std::memcpy( destination, &value_to_store, sizeof( UnsignedType ) );
            return *this;
        }
        UnsignedType value_mask = masked<""")], **cpp_demo(BITS))
SEEDS["C17b"] = dict(property="C17", needs="a field of 58 or more bits that spans nine bytes", breaks="the bits after the field in its last byte are cleared",
    edits=[(CPPI + "internal/Writer.h", "static_cast< unsigned char >( *destination & ~value_mask );", "static_cast< unsigned char >( *destination & ~( value_mask | 0x80u ) );")],
    **cpp_demo(BITS))

VEC = """
#include <flatdata/MultiArrayView.h>
#include <flatdata/Vector.h>
#include <cstdio>
#include <cstdlib>
#include <sys/mman.h>
template < template < typename, int, int, int > class Member, int N, bool OV > union ElT
{
    using StreamType = typename Member< uint32_t, 0, 0, 0 >::StreamType;
    using MutatorType = ElT< flatdata::Writer, N, OV >;
    using AccessorType = ElT< flatdata::Reader, N, OV >;
    ElT( ) : _data( Member< uint32_t, 0, 0, 0 >{ nullptr } ) {}
    explicit ElT( StreamType data ) : _data( Member< uint32_t, 0, 0, 0 >{ data } ) {}
    StreamType data( ) const { return _data.data; }
    static constexpr size_t size_in_bytes( ) { return N; }
    static constexpr bool IS_OVERLAPPING_WITH_NEXT = OV;
    Member< uint32_t, 0, 0, 0 > _data;
    Member< std::pair< uint64_t, uint64_t >, 0, 40, 5 > range;
};
template < int N, bool OV > using El = ElT< flatdata::Reader, N, OV >;
"""
SEEDS["C18a"] = dict(property="C18", needs="a multivector item that lies behind the first 4 GiB of the multivector's data", breaks="for_each visits an item's elements at positions truncated to 32 bits",
    edits=[(CPPI + "MultiArrayView.h", "for ( auto data = m_data_begin + range.first, end = m_data_begin + range.second; data < end; )", "for ( auto data = m_data_begin + range.first, end = data + static_cast< uint32_t >( range.second ) - static_cast< uint32_t >( range.first ); data < end; )")],
    **cpp_demo(VEC + """
int main( )
{
    const size_t big = ( size_t( 1 ) << 32 ) + 64, from = ( size_t( 1 ) << 32 ) - 6;
    unsigned char* d = static_cast< unsigned char* >( mmap( nullptr, big, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
    if ( d == MAP_FAILED ) return 2;
    unsigned char index[ 18 ] = { };
    const size_t ends[ 2 ] = { from, from + 12 };
    for ( int i = 0; i < 2; i++ ) for ( int j = 0; j < 5; j++ ) index[ 5 * i + j ] = static_cast< unsigned char >( ends[ i ] >> ( 8 * j ) );
    flatdata::MultiArrayView< El< 5, true >, El< 5, false >, El< 1, false > > view( flatdata::ArrayView< El< 5, true > >( index, index + 10 ), d );
    size_t seen = 0, at = 0;
    view.for_each< El< 5, false > >( 0, [&]( El< 5, false > x ) { seen++; at = static_cast< size_t >( x.data( ) - d ); } );
    if ( seen != 2 || at != from + 7 ) { printf( "visited %zu elements, the last at %zu\\n", seen, at ); return 1; }
    return 0;
}
"""))
SEEDS["C18b"] = dict(property="C18", needs="a vector or resource of overlapping structures that holds the sentinel only", breaks="a view of it has one element instead of none",
    edits=[(CPPI + "internal/ArrayView.inl", "if ( T::IS_OVERLAPPING_WITH_NEXT && m_size != 0 )", "if ( T::IS_OVERLAPPING_WITH_NEXT && m_size > 1 )")],
    **cpp_demo(VEC + """
int main( )
{
    flatdata::Vector< El< 5, true > > v( 1 );
    flatdata::ArrayView< El< 5, true > > a = v;
    if ( a.size( ) != 0 || a.begin( ) != a.end( ) ) { printf( "a sentinel is a view of %zu elements\\n", a.size( ) ); return 1; }
    return 0;
}
"""))
STORE = r"""
#include <flatdata/flatdata.h>
#include <cstdio>
#include <cstring>
#include <map>
struct Store : flatdata::ResourceStorage
{
    std::map< std::string, std::string > files;
    std::unique_ptr< ResourceStorage > create_directory( const char* ) override { return nullptr; }
    std::unique_ptr< ResourceStorage > directory( const char* ) override { return nullptr; }
    bool exists( const char* key ) override { return files.count( key ) != 0; }
    std::shared_ptr< std::ostream > create_output_stream( const char* ) override { return nullptr; }
    flatdata::MemoryDescriptor read_resource( const char* key ) override
    {
        auto f = files.find( key );
        if ( f == files.end( ) ) return flatdata::MemoryDescriptor( );
        return flatdata::MemoryDescriptor( reinterpret_cast< const unsigned char* >( f->second.data( ) ), f->second.size( ) );
    }
};
static std::string header( unsigned long long n ) { std::string s; for ( int i = 0; i < 8; i++ ) s += static_cast< char >( n >> ( 8 * i ) ); return s; }
"""
SEEDS["C19a"] = dict(property="C19", needs="a stored schema that starts with the expected schema and goes on", breaks="a resource written with a newer, longer schema is accepted",
    edits=[(CPPI + "internal/ResourceStorage.inl", "if ( stored_schema != expected_schema )", "if ( stored_schema.compare( 0, std::string( expected_schema ).size( ), expected_schema ) != 0 )")],
    **cpp_demo(STORE + """
int main( )
{
    Store s;
    s.files[ "r" ] = header( 3 ) + "abc" + std::string( 8, 0 );
    s.files[ "r.schema" ] = "resource r : raw_data;";
    if ( !s.read< flatdata::MemoryDescriptor >( "r", "resource r : raw_data;" ) ) return 2;
    s.files[ "r.schema" ] = "resource r : raw_data; // and more";
    if ( s.read< flatdata::MemoryDescriptor >( "r", "resource r : raw_data;" ) ) { printf( "accepted another schema\\n" ); return 1; }
    return 0;
}
""", "-lboost_filesystem -lboost_system"))
SEEDS["C19b"] = dict(property="C19", needs="a stored resource of 8 to 15 bytes whose size header wraps around", breaks="a truncated resource is accepted, as a payload of almost 2^64 bytes",
    edits=[(CPPI + "internal/ResourceStorage.inl", "if ( sizeof( resource_storage::size_type ) + PADDING_SIZE > data.size_in_bytes( ) )", "if ( sizeof( resource_storage::size_type ) > data.size_in_bytes( ) )")],
    **cpp_demo(STORE + """
int main( )
{
    Store s;
    s.files[ "r.schema" ] = "schema";
    s.files[ "r" ] = header( 0 ) + std::string( 8, 0 );
    if ( !s.read< flatdata::MemoryDescriptor >( "r", "schema" ) ) return 2;
    s.files[ "r" ] = header( 8 - 16 );
    if ( s.read< flatdata::MemoryDescriptor >( "r", "schema" ) ) { printf( "accepted a truncated resource\\n" ); return 1; }
    return 0;
}
""", "-lboost_filesystem -lboost_system"))
TARS = r"""
#include <flatdata/internal/TarReader.h>
#include <cstdio>
#include <cstring>
#include <stdexcept>
#include <string>
static std::string header( const std::string& name, char type, const std::string& size )
{
    std::string h( 512, 0 );
    h.replace( 0, name.size( ), name ); h.replace( 124, size.size( ), size ); h[ 156 ] = type;
    h.replace( 257, 7, "ustar  " );
    unsigned sum = 8 * 32;
    for ( int i = 0; i < 512; i++ ) if ( i < 148 || i >= 156 ) sum += static_cast< unsigned char >( h[ i ] );
    char b[ 9 ]; snprintf( b, 9, "%06o", sum ); h.replace( 148, 7, std::string( b ) + std::string( 1, 0 ) ); h[ 155 ] = 32;
    return h;
}
static std::string list( const std::string& tar )
{
    std::string r;
    try { for ( auto& e : flatdata::internal::read_tar_file_entries( flatdata::MemoryDescriptor( reinterpret_cast< const unsigned char* >( tar.data( ) ), tar.size( ) ) ) ) r += e.name + ":" + std::to_string( e.offset ) + ":" + std::to_string( e.size ) + ";"; }
    catch ( const std::runtime_error& ) { return "refused"; }
    return r;
}
"""
SEEDS["C20a"] = dict(property="C20", needs="a base-256 size of which a byte other than the first is 128 or more", breaks="large sizes are decoded to another number",
    edits=[("flatdata-cpp/src/TarReader.cpp", "value = value * 256 + static_cast< unsigned char >( data[ idx ] );", "value = value * 256 + ( data[ idx ] & 0x7F );")],
    **cpp_demo(TARS + """
int main( )
{
    std::string size( 12, 0 ); size[ 0 ] = static_cast< char >( 128 ); size[ 10 ] = 1; size[ 11 ] = static_cast< char >( 200 );
    std::string got = list( header( "f", 48, size ) + std::string( 512, 0 ) );
    if ( got != "f:512:456;" ) { printf( "%s\\n", got.c_str( ) ); return 1; }
    return 0;
}
""", "flatdata-cpp/src/TarReader.cpp"))
SEEDS["C20b"] = dict(property="C20", needs="a file name of exactly 100 bytes, which has no terminator in its header", breaks="the last byte of the name is dropped",
    edits=[("flatdata-cpp/src/TarReader.cpp", "std::string file_name( header.name, strnlen( header.name, sizeof( header.name ) ) );", "std::string file_name( header.name, strnlen( header.name, sizeof( header.name ) - 1 ) );")],
    **cpp_demo(TARS + """
int main( )
{
    std::string name( 100, 97 ), got = list( header( name, 48, "00000000003" ) + std::string( 512, 97 ) );
    if ( got != name + ":512:3;" ) { printf( "%s\\n", got.c_str( ) ); return 1; }
    return 0;
}
""", "flatdata-cpp/src/TarReader.cpp"))
SEEDS["C20c"] = dict(property="C20", needs="a long name header whose stated size does not fit the rest of the file, or wraps around", breaks="the long name is read behind the end of the file",
    edits=[("flatdata-cpp/src/TarReader.cpp", "if ( name_size > data.size( ) - offset )", "if ( offset + name_size > data.size( ) )")],
    **cpp_demo(TARS + """
#include <cstdlib>
int main( )
{
    std::string size( 12, static_cast< char >( 255 ) ); size[ 0 ] = static_cast< char >( 128 ); size[ 1 ] = size[ 2 ] = size[ 3 ] = 0;
    std::string got = list( header( "x", 76, size ) + std::string( 512, 0 ) );
    if ( got != "refused" ) { printf( "%s\\n", got.c_str( ) ); return 1; }
    return 0;
}
""", "flatdata-cpp/src/TarReader.cpp"))

RS_SH = '''#!/bin/bash
set -u
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
sed "s|@LIB@|$PWD/flatdata-rs/lib/src|" "$here/demo.rs" > "$d/demo.rs"
rustc --edition 2018 --cap-lints allow -C debug-assertions=on -C overflow-checks=on -o "$d/demo" "$d/demo.rs" || exit 2
"$d/demo"
'''
RS_HEAD = r'''#![allow(warnings)]
#[macro_use] #[path = "@LIB@/bytereader.rs"] mod bytereader;
#[macro_use] #[path = "@LIB@/bytewriter.rs"] mod bytewriter;
#[path = "@LIB@/helper.rs"] pub mod helper;
extern "C" { fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn mprotect(a: *mut u8, n: usize, p: i32) -> i32; }
fn bits(p: &[u8], o: usize, w: usize) -> u64 { let mut v = 0u64; for i in 0..w { v |= (((p[(o + i) / 8] >> ((o + i) % 8)) & 1) as u64) << i; } v }
'''
def rs_demo(src):
    return dict(demo_sh=RS_SH, files={"demo.rs": RS_HEAD + src})
RSR, RSW = "flatdata-rs/lib/src/bytereader.rs", "flatdata-rs/lib/src/bytewriter.rs"
SEEDS["C21a"] = dict(property="C21", needs="a field whose last byte is the last byte of the mapped file", breaks="the reader touches a byte behind the field",
    edits=[(RSR, "std::cmp::min( 8, ($num_bits + bit_offset + 7) / 8)", "std::cmp::min( 8, ($num_bits + 14) / 8)")],
    **rs_demo(r'''
fn main() {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        mprotect(p.add(4096), 4096, 0);
        for i in 0..8 { *p.add(4088 + i) = 200 + i as u8; }
        let s = std::slice::from_raw_parts(p.add(4088), 8);
        let a: u64 = flatdata_read_bytes!(u64, p.add(4088), 40, 17);
        if a != bits(s, 40, 17) { std::process::exit(1); }
        let b: u32 = flatdata_read_bytes!(u32, p.add(4088), 48, 16);
        if b as u64 != bits(s, 48, 16) { std::process::exit(1); }
    }
}
'''))
SEEDS["C21b"] = dict(property="C21", needs="overwriting a field that spans nine bytes and whose ninth byte has bits set", breaks="the write leaves bits of the previous value",
    edits=[(RSW, "let byte_value = *destination & !value_mask as u8;", "let byte_value = *destination & !(value_mask >> 1) as u8;")],
    **rs_demo(r'''
fn main() {
    let mut d = vec![255u8; 12];
    let v: u64 = 0x0123_4567_89ab_cde0;
    { let s = &mut d[..]; flatdata_write_bytes!(u64; v, s, 5, 61); }
    if bits(&d, 5, 61) != v & ((1u64 << 61) - 1) || bits(&d, 0, 5) != 31 || bits(&d, 66, 30) != (1 << 30) - 1 { std::process::exit(1); }
}
'''))
SEEDS["C21c"] = dict(property="C21", needs="a field that reaches exactly one bit into a ninth byte", breaks="the reader loses the highest bit",
    edits=[(RSR, "if read_bits < $num_bits {", "if read_bits + 1 < $num_bits {")],
    **rs_demo(r'''
fn main() {
    let d: Vec<u8> = (0..20).map(|i| 255 - i).collect();
    for o in 0..8usize {
        macro_rules! t { ($($w:tt)*) => { $( let x: u64 = flatdata_read_bytes!(u64, d.as_ptr(), o, $w); if x != bits(&d, o, $w) { std::process::exit(1); } )* } }
        t!(2 17 33 57 58 59 60 61 62 63 64);
    }
}
'''))

GO_SH = '''#!/bin/bash
set -u
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
for f in flatdata-go/flatdata/*.go; do
    case "$f" in *_test.go) continue ;; esac
    grep -q 'golang.org/x/' "$f" || cp "$f" "$d/"
done
mkdir "$d/cmd" "$d/home"
cp "$here/demo.go" "$d/cmd/main.go"
printf 'module flatdata\\n\\ngo 1.20\\n' > "$d/go.mod"
cd "$d" || exit 2
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off HOME="${HOME:-$d/home}"
go build -o "$d/demo" ./cmd || exit 2
"$d/demo"
'''
GO_HEAD = r'''package main
import ("flatdata"; "os")
type desc struct { data []byte }
func (d *desc) Len() int { return len(d.data) }
func (d *desc) Close() error { return nil }
func (d *desc) ReadAt(p []byte, off int64) (int, error) { return copy(p, d.data[off:]), nil }
func (d *desc) At(i int) byte { return d.data[i] }
func check(data []byte, offset, size uint, signed bool, want int) {
	if flatdata.Read(&desc{data}, offset, size, signed) != want { os.Exit(1) }
}
'''
def go_demo(src):
    return dict(demo_sh=GO_SH, files={"demo.go": GO_HEAD + src})
GOR = "flatdata-go/flatdata/reader.go"
SEEDS["C22a"] = dict(property="C22", needs="an unaligned field that ends with the last bit of the last mapped byte", breaks="the reader asks for the byte behind the data",
    edits=[(GOR, "if bitsLeft <= (8 - localOffset) {", "if bitsLeft < (8 - localOffset) {")],
    **go_demo(r'''
func main() {
	check([]byte{0xff, 0xa5}, 11, 5, false, 20)
	check([]byte{0xff, 0xa5}, 9, 6, false, 18)
}
'''))
SEEDS["C22b"] = dict(property="C22", needs="a negative value in a signed field of 33 to 63 bits", breaks="the value is not sign-extended",
    edits=[(GOR, "for i := 0; i < 64; i++ {", "for i := 0; i < 32; i++ {")],
    **go_demo(r'''
func main() {
	check([]byte{0xfe, 0xff, 0xff, 0xff}, 0, 32, true, -2)
	check([]byte{0xff, 0xff, 0xff, 0xff, 0x7f}, 3, 36, true, -1)
	check([]byte{0xfd, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, 0, 64, true, -3)
}
'''))
SEEDS["C22c"] = dict(property="C22", needs="a field whose last part has seven bits of which the highest is set", breaks="the highest bit of the value is lost",
    edits=[(GOR, "temp := currentByte & ((1 << bitsLeft) - 1)", "temp := currentByte & ((1 << bitsLeft) - 1) & 0x3f")],
    **go_demo(r'''
func main() {
	check([]byte{0x01, 0x7f}, 0, 15, false, 0x7f01)
	check([]byte{0x01, 0x3f}, 0, 14, false, 0x3f01)
}
'''))

WRITE = r"""
#include <flatdata/flatdata.h>
#include <cstdio>
#include <cstring>
#include <map>
#include <sstream>
static std::map< std::string, std::string > files;
static std::string refuses;
struct Buf : std::stringbuf
{
    std::string k;
    Buf( const char* key ) : std::stringbuf( std::ios::in | std::ios::out | std::ios::binary ), k( key ) {}
    int sync( ) override { if ( k == refuses ) return -1; files[ k ] = str( ); return 0; }
};
struct Out : std::ostream { Buf b; Out( const char* k ) : std::ostream( nullptr ), b( k ) { rdbuf( &b ); } };
struct Store : flatdata::ResourceStorage
{
    std::unique_ptr< ResourceStorage > create_directory( const char* ) override { return nullptr; }
    std::unique_ptr< ResourceStorage > directory( const char* ) override { return nullptr; }
    bool exists( const char* key ) override { return files.count( key ) != 0; }
    std::shared_ptr< std::ostream > create_output_stream( const char* k ) override { return std::make_shared< Out >( k ); }
    flatdata::MemoryDescriptor read_resource( const char* key ) override
    {
        auto f = files.find( key );
        if ( f == files.end( ) ) return flatdata::MemoryDescriptor( );
        return flatdata::MemoryDescriptor( reinterpret_cast< const unsigned char* >( f->second.data( ) ), f->second.size( ) );
    }
};
template < template < typename, int, int, int > class Member, int N > union ElT
{
    using StreamType = typename Member< uint32_t, 0, 0, 0 >::StreamType;
    using MutatorType = ElT< flatdata::Writer, N >; using AccessorType = ElT< flatdata::Reader, N >;
    ElT( ) : _data( Member< uint32_t, 0, 0, 0 >{ nullptr } ) {}
    explicit ElT( StreamType data ) : _data( Member< uint32_t, 0, 0, 0 >{ data } ) {}
    operator ElT< flatdata::Reader, N >( ) const { return ElT< flatdata::Reader, N >( _data.data ); }
    StreamType data( ) const { return _data.data; }
    static constexpr size_t size_in_bytes( ) { return N; }
    static constexpr bool IS_OVERLAPPING_WITH_NEXT = false;
    Member< uint32_t, 0, 0, 0 > _data;
};
template < int N > using El = ElT< flatdata::Reader, N >;
template < template < typename, int, int, int > class Member > union IxT
{
    using StreamType = typename Member< uint32_t, 0, 0, 0 >::StreamType;
    using MutatorType = IxT< flatdata::Writer >; using AccessorType = IxT< flatdata::Reader >;
    IxT( ) : _data( Member< uint32_t, 0, 0, 0 >{ nullptr } ) {}
    explicit IxT( StreamType data ) : _data( Member< uint32_t, 0, 0, 0 >{ data } ) {}
    StreamType data( ) const { return _data.data; }
    static constexpr size_t size_in_bytes( ) { return 5; }
    static constexpr bool IS_OVERLAPPING_WITH_NEXT = true;
    Member< uint32_t, 0, 0, 0 > _data;
    Member< uint64_t, 0, 40, 5 > value;
    Member< std::pair< uint64_t, uint64_t >, 0, 40, 5 > range;
};
using Ix = IxT< flatdata::Reader >;
static const size_t MB = 1024 * 1024;
"""
SEEDS["C25a"] = dict(property="C25", needs="a multivector of more than 32 MiB, so that its buffer is flushed while it grows", breaks="items added after the flush start 8 bytes late in the index",
    edits=[(CPPI + "MultiVector.h", "m_size_flushed += m_data.size( ) - PADDING_SIZE;", "m_size_flushed += m_data.size( );")],
    **cpp_demo(WRITE + """
int main( )
{
    Store s;
    auto v = s.create_multi_vector< Ix, El< 4 * 1024 * 1024 >, El< 1 > >( "r", "schema" );
    for ( int i = 0; i < 12; i++ ) { auto l = v.grow( ); l.add< El< 4 * 1024 * 1024 > >( ).data( )[ 0 ] = static_cast< unsigned char >( i ); l.add< El< 1 > >( ).data( )[ 0 ] = static_cast< unsigned char >( i ); }
    auto a = v.close( );
    if ( !a || a.size( ) != 12 ) return 2;
    const std::string& ix = files[ "r_index" ];
    for ( size_t i = 0; i <= 12; i++ )
    {
        unsigned long long x = 0; for ( int k = 0; k < 5; k++ ) x |= static_cast< unsigned long long >( static_cast< unsigned char >( ix[ 8 + i * 5 + k ] ) ) << ( 8 * k );
        if ( x != i * ( 4 * MB + 3 ) ) { printf( "item %zu starts at %llu\\n", i, x ); return 1; }
    }
    return 0;
}
""", "-lboost_filesystem -lboost_system"))
SEEDS["C25b"] = dict(property="C25", needs="an output that fails when it is flushed (disk full) while an external vector is closed", breaks="closing hands out a view although the data was not stored, or only a part of it",
    edits=[(CPPI + "internal/ResourceHandle.h", """    m_stream->flush( );
    bool success = static_cast< bool >( *m_stream );
""", """    bool success = static_cast< bool >( *m_stream );
    m_stream->flush( );
""")],
    **cpp_demo(WRITE + """
int main( )
{
    Store s;
    { auto v = s.create_external_vector< El< 3 > >( "r", "schema" ); v.grow( ).data( )[ 0 ] = 1; if ( !v.close( ) ) return 2; }
    refuses = "r"; // the earlier contents stay
    auto v = s.create_external_vector< El< 3 > >( "r", "schema" ); v.grow( ).data( )[ 0 ] = 7;
    auto a = v.close( );
    if ( a ) { printf( "closed with success, but holds %d\\n", a.data( )[ 0 ] ); return 1; }
    return 0;
}
""", "-lboost_filesystem -lboost_system"))
SEEDS["C25c"] = dict(property="C25", needs="an external vector of more than 32 MiB, so that its buffer is flushed while it grows, and whose first element's first bytes are not zero", breaks="the first element added after a flush is not zero: fields that are not set keep bytes of an earlier element",
    edits=[(CPPI + "ExternalVector.h", """    m_data.resize( 0 );
    m_data.resize( PADDING_SIZE );
}""", """    m_data.resize( PADDING_SIZE );
}""")],
    **cpp_demo(WRITE + """
int main( )
{
    Store s;
    auto v = s.create_external_vector< El< 1024 * 1024 > >( "r", "schema" );
    for ( int i = 0; i < 70; i++ )
    {
        auto e = v.grow( );
        for ( int k = 0; k < 16; k++ ) if ( e.data( )[ k ] ) { printf( "new element %d is not zero\\n", i ); return 1; }
        memset( e.data( ), i + 1, 8 );
    }
    auto a = v.close( );
    return a && a.size( ) == 70 ? 0 : 2;
}
""", "-lboost_filesystem -lboost_system"))
SEEDS["C25d"] = dict(property="C25", needs="an external vector or multivector whose elements are flushed in the middle of growing; 4-byte size in the header", breaks="the stored size is kept in 32 bits: resources of 4 GiB and more get a wrong size",
    edits=[(CPPI + "internal/ResourceHandle.h", "    resource_storage::size_type m_size_in_bytes = 0;", "    uint32_t m_size_in_bytes = 0;"),
           (CPPI + "internal/ResourceHandle.h", "    resource_storage::write_to_stream( *m_stream, m_size_in_bytes );", "    resource_storage::write_to_stream< resource_storage::size_type >( *m_stream, m_size_in_bytes );")],
    **cpp_demo(r"""
#include <flatdata/flatdata.h>
#include <flatdata/internal/ResourceHandle.h>
#include <cstdio>
static unsigned long long pos, header;
struct Count : std::streambuf
{
    std::streamsize xsputn( const char* p, std::streamsize n ) override { if ( pos == 0 ) { header = 0; for ( int i = 0; i < 8; i++ ) header |= static_cast< unsigned long long >( static_cast< unsigned char >( p[ i ] ) ) << ( 8 * i ); } pos += n; return n; }
    int overflow( int ) override { pos++; return 0; }
    pos_type seekpos( pos_type p, std::ios_base::openmode ) override { pos = p; return p; }
    pos_type seekoff( off_type o, std::ios_base::seekdir d, std::ios_base::openmode ) override { if ( d == std::ios_base::beg ) pos = o; return pos; }
};
int main( )
{
    static Count b;
    auto h = flatdata::ResourceHandle::create( std::make_shared< std::ostream >( &b ), [] { return flatdata::MemoryDescriptor( ); } );
    static unsigned char data[ 64 * 1024 * 1024 ];
    for ( int i = 0; i < 65; i++ ) h->write( data, sizeof( data ) );
    h->close( );
    if ( header != 65ull * sizeof( data ) ) { printf( "stored size %llu\n", header ); return 1; }
    return 0;
}
""", "-lboost_filesystem -lboost_system"))
