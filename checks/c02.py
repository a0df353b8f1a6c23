"""C02: write_value stores the value and changes no other bit."""
import time
from checks import common as C
import pyvc.load as L
import z3
from pyvc import engine as E
from pyvc.sym import *
L.install()
import flatdata.lib.data_access as DA
from checks.c01 import spec_read

def write_case(n, r, signed, kind):
    eng = E.Engine(f"write_value[{n}b@{r}{'s' if signed else 'u'},{kind}]")
    def driver(e):
        q = SymInt.var("byte", lo=0)
        length = SymInt.var("len")
        nb = (r + n + 7) // 8
        e.assume(length.it >= q.it + nb)
        e.assume(q.it < 2 ** 60)
        buf = symbuf("mem", length)
        old = buf.arr
        if n == 1: v = SymInt.bvvar("value", 0, 1)
        elif signed: v = SymInt.bvvar("value", -(1 << (n - 1)), (1 << (n - 1)) - 1)
        else: v = SymInt.bvvar("value", 0, (1 << n) - 1)
        e.input("byte_offset", q); e.input("len", length); e.input("value", v)
        for j in range(nb + 1): e.input(f"mem+{j}", z3.Select(old, q.it + j))
        data = SymBytes(buf, 0, length, kind)
        e.reach("pre")
        try:
            DA.write_value(data, q * 8 + r, n, signed, v)
        except Exception as ex:
            e.fail("no exception", f"{type(ex).__name__}: {ex}")
            return
        new = buf.arr
        got = spec_read(buf, q, r, n, signed)
        e.prove("field reads back the value", term(SymInt.of(got) == v))
        for j in range(nb):
            o, w = z3.Select(old, q.it + j), z3.Select(new, q.it + j)
            m = 0
            for b in range(8):
                if r <= 8 * j + b < r + n: m |= 1 << b
            if m != 255:
                e.prove(f"frame: other bits of field byte unchanged", (o & (255 ^ m)) == (w & (255 ^ m)))
        i = z3.Int("anybyte")
        e.input("touched_byte", i)
        e.prove("frame: other bytes unchanged", z3.Implies(z3.Or(i < q.it, i >= q.it + nb), z3.Select(old, i) == z3.Select(new, i)))
        e.prove("length unchanged", term(SymInt.of(data.length) == length))
    eng.explore(driver)
    return eng

def batch(n, kind):
    return [write_case(n, r, s, kind) for r in range(8) for s in (False, True)]

def main():
    t0 = time.time()
    res = C.Result()
    kinds = ["bytearray"] if C.TIER == "quick" else ["bytearray", "memoryview"]
    tasks = [("checks.c02", "batch", (n, k)) for n in range(64, 0, -1) for k in kinds]
    C.run_tasks(tasks, res)
    def search(fails):
        return C.native("search_bits.py", dict(what="write", hints=[f["inputs"] for f in fails], tasks=[f["task"] for f in fails]))
    return C.finish("C02", res, t0, ["flatdata.lib.data_access.write_value"],
                    ["buffers shorter than 2^60 bytes", "the buffer contains the field and the value is in range (precondition from the property)",
                     "a one-bit field holds 0 or 1"], search)
