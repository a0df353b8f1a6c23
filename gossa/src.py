"""The Go sources under check: SSA text through ssadump (shared by the proofs and the native search)."""
import os, re, subprocess, tempfile, shutil
STUB = {"golang.org/x/exp/mmap": """package mmap
type ReaderAt struct { data []byte }
func Open(filename string) (*ReaderAt, error) { panic("stub") }
func (r *ReaderAt) Close() error { panic("stub") }
func (r *ReaderAt) Len() int { panic("stub") }
func (r *ReaderAt) At(i int) byte { panic("stub") }
func (r *ReaderAt) ReadAt(p []byte, off int64) (int, error) { panic("stub") }
"""}

def copy(pkgdir, d):
    """The package's current non-test sources as a module in d; third party imports get signature stubs. -> environment"""
    names, imports = [], set()
    for n in sorted(os.listdir(pkgdir)):
        if n.endswith(".go") and not n.endswith("_test.go"):
            shutil.copy(os.path.join(pkgdir, n), d)
            names.append(n)
            s = open(os.path.join(d, n)).read()
            for m in re.finditer(r'"((?:[\w-]+\.)+[\w-]+/[^"\s]+)"', s): imports.add(m[1])
    mod = "module flatdata\n\ngo 1.20\n"
    for i in sorted(imports & set(STUB)):
        s = os.path.join(d, "stub_" + i.replace("/", "_"))
        os.makedirs(s)
        with open(os.path.join(s, "a.go"), "w") as f: f.write(STUB[i])
        with open(os.path.join(s, "go.mod"), "w") as f: f.write(f"module {i}\n\ngo 1.20\n")
        mod += f"require {i} v0.0.0\nreplace {i} => ./{os.path.basename(s)}\n"
    with open(os.path.join(d, "go.mod"), "w") as f: f.write(mod)
    home = os.path.join(d, "home")
    os.makedirs(home)
    env = dict(os.environ, GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOPROXY="off", GONOSUMDB="*", GONOSUMCHECK="1", GOSUMDB="off")
    env.setdefault("HOME", home)
    return env

def dump(pkgdir):
    """SSA text of every function of the package."""
    d = tempfile.mkdtemp(prefix="fdvc_", dir="/tmp")
    try:
        env = copy(pkgdir, d)
        r = subprocess.run(["ssadump", "-build=PF", "."], cwd=d, capture_output=True, text=True, env=env)
        if r.returncode or "func " not in r.stdout:
            raise RuntimeError("ssadump: " + (r.stderr + r.stdout)[-1500:])
        return r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)
