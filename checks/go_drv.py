"""C22: contract on flatdata.Read (Go), from the SSA form of the current sources; data and byte offset unbounded."""
import os
import z3
from pyvc import engine as E
from gossa import sem
from gossa.src import dump
from checks import common

_pkg = None
def package():
    global _pkg
    if _pkg is None:
        _pkg = sem.Package(dump(os.path.join(common.REPO, "flatdata-go", "flatdata")))
    return _pkg

def exp2(ex, args):
    """math.Exp2 is exact for integers between 0 and 63 (checked natively by the bounded run)."""
    x = args[0].v
    if not (isinstance(x, int) and 0 <= x <= 63): raise E.Unsupported(f"math.Exp2({x})")
    return sem.Flt(1 << x)

def group(sizes, ks):
    p = package()
    engs = []
    for size in sizes:
        for k in ks:
            for signed in (False, True):
                def driver(e, size=size, k=k, signed=signed):
                    byte = z3.BitVec("byte_offset", 61)
                    start, nb = z3.ZeroExt(3, byte), (k + size + 7) // 8
                    e.assume(z3.ULT(start, z3.BitVecVal(1 << 48, 64)))
                    mem = z3.Array("mem", z3.BitVecSort(64), z3.BitVecSort(8))
                    e.input("byte_offset", start)
                    for i in range(nb): e.input(f"byte{i}", z3.Select(mem, start + i))
                    def at(ex, args):
                        i = args[0]
                        e.prove("reads only bytes of the field", z3.And(z3.UGE(i, start), z3.ULT(i, start + nb)))
                        return z3.simplify(z3.Select(mem, i))
                    def length(ex, args):
                        n = z3.BitVec("len", 64)
                        e.assume(z3.And(z3.UGE(n, start + nb), n >= 0))
                        return n
                    ex = sem.Exec(p, e, {".At": at, ".Len": length, "math.Exp2": exp2})
                    ex.init()
                    e.prove("package variables change only in initialisers", not p.stores)
                    got = ex.call("Read", [sem.Iface("descriptor"), z3.Concat(byte, z3.BitVecVal(k, 3)), z3.BitVecVal(size, 64), z3.BoolVal(signed)])
                    e.reach("returns")
                    bs = [z3.Select(mem, start + i) for i in range(nb)]
                    x = z3.Extract(k + size - 1, k, bs[0] if nb == 1 else z3.Concat(*reversed(bs)))
                    want = x if size == 64 else z3.SignExt(64 - size, x) if signed and size > 1 else z3.ZeroExt(64 - size, x)
                    e.prove("reads the stored value", got == want)
                e = E.Engine(f"C22.Read<{'signed' if signed else 'unsigned'},bit {k},width {size}>")
                e.meta = dict(size=size, k=k, signed=signed)
                e.explore(driver)
                engs.append(e)
    return engs

def tasks():
    return [("checks.go_drv", "group", (list(range(s, min(s + 8, 65))), list(range(8)))) for s in range(1, 65, 8)]
