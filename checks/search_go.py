"""Native search for failing Go field reads: the real package, a descriptor that records every index, a bit-by-bit oracle."""
import sys, json, os, subprocess, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from gossa import src
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
MAIN = r'''package main
import ("flatdata"; "fmt"; "io"; "os")
type desc struct { data []byte; lo int; call string }
func (d *desc) Len() int { return len(d.data) }
func (d *desc) Close() error { return nil }
func (d *desc) ReadAt(p []byte, off int64) (int, error) {
	if off < int64(d.lo) || off+int64(len(p)) > int64(len(d.data)) { fail(d.call, "touches bytes outside the field", d.data, 0, int64(off)) }
	n := copy(p, d.data[off:]); if n < len(p) { return n, io.EOF }; return n, nil
}
func (d *desc) At(i int) byte {
	if i < d.lo || i >= len(d.data) { fail(d.call, "touches a byte outside the field", d.data, 0, int64(i)) }
	return d.data[i]
}
func fail(call, what string, data []byte, want, got int64) {
	fmt.Printf("FOUND {\"call\": %q, \"what\": %q, \"data\": \"%x\", \"expected\": %d, \"got\": %d}\n", call, what, data, want, got); os.Exit(3)
}
var rs uint64 = SEEDVAL
func rnd() uint64 { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs }
func main() {
	n := 0
	cases := [][2]uint{CASES}
	for _, c := range cases { for s := 0; s < 2; s++ {
		size, k := c[0], c[1]
		for r := 0; r < ROUNDS; r++ {
			start := uint([]int{0, 1, 7, 100}[r%4])
			d := &desc{data: make([]byte, start+(k+size+7)/8), lo: int(start), call: fmt.Sprintf("Read(offset %d, size %d, signed %v)", 8*start+k, size, s == 1)}
			for i := range d.data { if r < 4 { d.data[i] = 255 } else { d.data[i] = byte(rnd() >> 11) } }
			var v uint64
			for i := uint(0); i < size; i++ { j := 8*start + k + i; v |= uint64(d.data[j/8]>>(j%8)&1) << i }
			if s == 1 && size > 1 && size < 64 && v>>(size-1)&1 == 1 { v |= ^uint64(0) << size }
			got := flatdata.Read(d, 8*start+k, size, s == 1)
			n++
			if got != int(v) { fail(d.call, "value", d.data[start:], int64(v), int64(got)) }
		}
	} }
	fmt.Printf("DONE %d\n", n)
}
'''
def main():
    req = json.load(sys.stdin)
    d = tempfile.mkdtemp(prefix="fdvc_", dir="/tmp")
    try:
        env = src.copy(os.path.join(REPO, "flatdata-go", "flatdata"), d)
        os.makedirs(os.path.join(d, "zz_cmd"))
        with open(os.path.join(d, "zz_cmd", "main.go"), "w") as f:
            f.write(MAIN.replace("SEEDVAL", str(88172645463325252 + SEED)).replace("CASES", ", ".join("{%d, %d}" % tuple(c) for c in req["cases"])).replace("ROUNDS", str(req.get("rounds", 60))))
        p = subprocess.run(["go", "build", "-o", os.path.join(d, "zz_bin"), "./zz_cmd"], cwd=d, capture_output=True, text=True, env=env)
        if p.returncode:
            print(json.dumps(dict(found=False, error=p.stderr[-800:], cases=0)))
            return
        q = subprocess.run([os.path.join(d, "zz_bin")], capture_output=True, text=True)
        lines = q.stdout.strip().split("\n")
        n = next((int(l[5:]) for l in lines if l.startswith("DONE ")), 0)
        hit = next((l[6:] for l in lines if l.startswith("FOUND ")), None)
        if hit: print(json.dumps(dict(json.loads(hit), found=True, cases=n)))
        elif q.returncode: print(json.dumps(dict(found=True, cases=n, call="panic", got=q.stderr[:600])))
        else: print(json.dumps(dict(found=False, cases=n)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__": main()
