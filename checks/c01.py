"""C01: read_value returns exactly the stored bits."""
import time
from checks import common as C
import pyvc.load as L
import z3
from pyvc import engine as E
from pyvc.sym import *
L.install()
import flatdata.lib.data_access as DA
import flatdata.lib.structure as ST

def spec_read(buf, q, r, n, signed):
    """Bits r..r+n-1 of the bytes from byte q on, little-endian; two's complement if signed and n > 1."""
    nb = (r + n + 7) // 8
    cells = [z3.Select(buf.arr, z3.simplify(iterm(q) + j)) for j in range(nb)]
    w = z3.Concat(*reversed(cells)) if nb > 1 else cells[0]
    f = z3.Extract(r + n - 1, r, w)
    if signed and n > 1: return SymInt.norm(f, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return SymInt.ubv(f)

def read_case(n, r, signed, kind):
    eng = E.Engine(f"read_value[{n}b@{r}{'s' if signed else 'u'},{kind}]")
    def driver(e):
        q = SymInt.var("byte", lo=0)
        length = SymInt.var("len")
        nb = (r + n + 7) // 8
        e.assume(length.it >= q.it + nb)
        e.assume(q.it < 2 ** 60)
        buf = symbuf("mem", length)
        e.input("byte_offset", q); e.input("len", length)
        for j in range(nb + 2): e.input(f"mem+{j}", z3.Select(buf.arr, q.it + j))
        data = SymBytes(buf, 0, length, kind)
        e.reach("pre")
        try:
            got = DA.read_value(data, q * 8 + r, n, signed)
        except Exception as ex:
            e.fail("no exception", f"{type(ex).__name__}: {ex}")
            return
        want = spec_read(buf, q, r, n, signed)
        g = SymInt.of(got)
        if g is None: e.fail("result is an integer", repr(got)); return
        e.prove("result == stored bits", term(g == want))
        if buf.arr is not None: e.prove("memory unchanged", z3.is_true(z3.simplify(data.buf.arr == buf.arr)))
    eng.explore(driver)
    return eng

def batch(n, kind):
    return [read_case(n, r, s, kind) for r in range(8) for s in (False, True)]

def struct_case(n, signed):
    """Structure field access: delegates to read_value at pos*8 + field offset."""
    eng = E.Engine(f"Structure field access[{n}]")
    calls = []
    def driver(e):
        pos = SymInt.var("pos", lo=0); off = SymInt.var("off", lo=0)
        mem = SymBytes(symbuf("mem", SymInt.var("len", lo=0)), 0, SymInt.var("len2", lo=0), "memoryview")
        res = SymInt.var("res")
        def stub(data, offset_bits, num_bits, is_signed):
            e.prove("reads the structure's memory", data is mem)
            e.prove("reads at 8*pos + field offset", term(SymInt.of(offset_bits) == pos * 8 + off))
            e.prove("reads the field's width", term(SymInt.of(num_bits) == n))
            e.prove("reads with the field's signedness", bool(is_signed) == signed)
            return res
        e.contracts = {"flatdata.lib.data_access.read_value": stub}
        class S(ST.Structure):
            _FIELDS = {"other": ST.FieldSignature(0, 8, not signed, "u1"), "f": ST.FieldSignature(off, n, signed, "u8"), "z": ST.FieldSignature(5, 3, not signed, "u1")}
            _FIELD_KEYS = list(_FIELDS)
            _SIZE_IN_BYTES = 8
        s = S(mem, pos)
        e.reach("pre")
        got = s.f
        e.prove("field value is what is stored", got is res)
    eng.explore(driver)
    return eng

def main():
    t0 = time.time()
    res = C.Result()
    kinds = ["bytes", "memoryview"] if C.TIER == "quick" else ["bytes", "memoryview", "bytearray"]
    tasks = [("checks.c01", "batch", (n, k)) for n in range(64, 0, -1) for k in kinds]
    tasks += [("checks.c01", "struct_case", (n, s)) for n in (1, 7, 64) for s in (False, True)]
    tasks += [("checks.reader_drv", "record_case", (a,)) for a in ("field",)]
    C.run_tasks(tasks, res)
    def search(fails):
        r = C.native("search_bits.py", dict(what="read", hints=[f["inputs"] for f in fails], tasks=[f["task"] for f in fails]))
        return r if r.get("found") else C.native("search_reader.py", dict(what="C06", rounds=60))
    return C.finish("C01", res, t0, ["flatdata.lib.data_access.read_value", "flatdata.lib.structure.Structure.__getattr__", "flatdata.lib.structure.Structure._get_value"],
                    ["buffers shorter than 2^60 bytes", "the buffer contains the field (precondition from the property)"], search)
