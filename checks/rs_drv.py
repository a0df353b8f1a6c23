"""C21: contracts on the real Rust field macros (LLVM IR of the current sources via rustc, unbounded in data and byte offset)."""
import os, subprocess, tempfile, shutil
import z3
from pyvc import engine as E
from llvc import sem, ir
from checks import common
from checks.cpp_drv import value, in_range

from checks.rs_src import TYPES, prelude
RUSTC = ["rustc", "--edition", "2018", "--crate-type", "lib", "--cap-lints", "allow", "-C", "debug-assertions=on", "-C", "overflow-checks=on"]
IRFLAGS = ["--emit=llvm-ir", "-C", "opt-level=1", "-C", "panic=abort", "-C", "codegen-units=1", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]

def source(repo, tag, ws):
    out = [prelude(repo)]
    for w in ws:
        out.append(f'#[no_mangle] pub unsafe extern "C" fn rd_{w}(p: *const u8, off: usize) -> {tag} {{ flatdata_read_bytes!({tag}, p, off, {w}) }}')
        out.append(f'#[no_mangle] pub unsafe extern "C" fn wr_{w}(p: *mut u8, n: usize, v: {tag}, off: usize) {{ let d = std::slice::from_raw_parts_mut(p, n); flatdata_write_bytes!({tag}; v, d, off, {w}) }}')
    return "\n".join(out) + "\n"

_mods = {}
def module(tag, ws):
    key = (tag, tuple(ws))
    if key not in _mods:
        d = tempfile.mkdtemp(prefix="fdvc_", dir="/tmp")
        try:
            p = os.path.join(d, "t.rs")
            with open(p, "w") as f: f.write(source(common.REPO, tag, ws))
            r = subprocess.run(RUSTC + IRFLAGS + ["-o", os.path.join(d, "t.ll"), p], capture_output=True, text=True, env=dict(os.environ, RUSTUP_AUTO_INSTALL="0"))
            if r.returncode: raise RuntimeError("rustc: " + r.stderr[-1500:])
            with open(os.path.join(d, "t.ll")) as f: _mods[key] = ir.Module(f.read())
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _mods[key]

def stop(ex, args, name):
    """Every panic of the Rust runtime (assertions, overflow and bounds checks) is an obligation."""
    ex.e.prove("no panic", False, name)
    raise E.PathEnd()
PANICS = [(r"panick|::panic|slice_index|_fail|unwrap_failed|expect_failed", stop)]

def setup(e, m, w, k, writable):
    """A buffer of exactly the bytes up to the last byte of the field; any byte offset."""
    ex = sem.Exec(m, e, PANICS)
    byte = z3.BitVec("byte_offset", 61)
    off = z3.Concat(byte, z3.BitVecVal(k, 3))
    nb = (k + w + 7) // 8
    start = z3.ZeroExt(3, byte)
    size = start + z3.BitVecVal(nb, 64)
    e.assume(z3.ULT(start, z3.BitVecVal(1 << 48, 64)))
    r = ex.region("data", size)
    r.addr()
    if not writable: r.const = True
    e.input("byte_offset", start)
    for i in range(nb): e.input(f"byte{i}", sem.sel(r.arr, start + i))
    return ex, r, off, start, nb, size

def bits(arr, start, nb, k, w):
    bs = [sem.sel(arr, start + i) for i in range(nb)]
    x = bs[0] if nb == 1 else z3.Concat(*reversed(bs))
    return z3.Extract(k + w - 1, k, x)

def group(tag, ws, ks):
    n, s = TYPES[tag]
    m = module(tag, ws)
    engs = []
    for w in ws:
        for k in ks:
            def rd(e, w=w, k=k):
                ex, r, off, start, nb, size = setup(e, m, w, k, False)
                pre = r.arr
                v = ex.run(f"@rd_{w}", [sem.Ptr(r, sem.bv(0)), sem.Val(off)])
                e.reach("returns")
                got = z3.ZeroExt(7, v.t) if v.t.size() == 1 else v.t
                e.prove("result is not poison", z3.Not(sem._pb(v.p)))
                e.prove("reads the stored value", got == value(bits(pre, start, nb, k, w), w, n, s))
            def wr(e, w=w, k=k):
                ex, r, off, start, nb, size = setup(e, m, w, k, True)
                pre = r.arr
                x = z3.BitVec("v1" if tag == "bool" else "v", 1 if tag == "bool" else n)
                full = z3.ZeroExt(7, x) if tag == "bool" else x
                e.input("value", full)
                e.assume(in_range(full, w, n, s))
                ex.run(f"@wr_{w}", [sem.Ptr(r, sem.bv(0)), sem.Val(size), sem.Val(x), sem.Val(off)])
                e.reach("returns")
                post = r.arr
                e.prove("a later read returns the value", value(bits(post, start, nb, k, w), w, n, s) == full)
                conj = []
                for i in range(nb):
                    mask = sum(1 << b for b in range(8) if k <= 8 * i + b < k + w)
                    c = z3.BitVecVal(0xff & ~mask, 8)
                    conj.append((sem.sel(pre, start + i) & c) == (sem.sel(post, start + i) & c))
                e.prove("no other bit of the field's bytes changes", z3.And(*conj))
                q = z3.BitVec("elsewhere", 64)
                e.prove("no byte outside the field changes", z3.Implies(z3.Or(z3.ULT(q, start), z3.UGE(q, size)), sem.sel(pre, q) == sem.sel(post, q)))
            for nm, f in (("read", rd), ("write", wr)):
                e = E.Engine(f"C21.{nm}<{tag},bit {k},width {w}>")
                e.meta = dict(tag=tag, w=w, k=k)
                e.explore(f)
                engs.append(e)
    return engs

def widths(tag):
    return [1] if tag == "bool" else list(range(1, TYPES[tag][0] + 1))

def tasks(thorough):
    out = []
    for t in TYPES:
        ws = widths(t)
        for i in range(0, len(ws), 8): out.append(("checks.rs_drv", "group", (t, ws[i:i + 8], list(range(8)))))
    return out
