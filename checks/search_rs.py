"""Native search for failing Rust bit-field accesses: the real macros, buffers ending at an inaccessible page, a bit-by-bit oracle."""
import sys, json, os, subprocess, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks import rs_src
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
HEAD = r'''
use std::io::Write;
extern "C" { fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn mprotect(a: *mut u8, n: usize, p: i32) -> i32; }
static mut RS: u64 = SEEDVAL;
fn rnd() -> u64 { unsafe { RS ^= RS << 13; RS ^= RS >> 7; RS ^= RS << 17; RS } }
fn get(p: &[u8], o: usize, w: usize) -> u64 { let mut v = 0u64; for i in 0..w { v |= (((p[(o + i) / 8] >> ((o + i) % 8)) & 1) as u64) << i; } v }
fn ext(v: u64, w: usize, s: bool) -> u64 { if s && w > 1 && w < 64 && (v >> (w - 1)) & 1 == 1 { v | (!0u64 << w) } else { v } }
fn mask(w: usize) -> u64 { if w == 64 { !0 } else { (1u64 << w) - 1 } }
const PAGE: usize = 4096;
fn area() -> *mut u8 { unsafe { let p = mmap(std::ptr::null_mut(), 3 * PAGE, 3, 0x22, -1, 0); mprotect(p.add(2 * PAGE), PAGE, 0); p } }
fn fail(call: &str, what: &str, p: &[u8], want: u64, got: u64, value: u64) -> ! {
    let h: String = p.iter().map(|b| format!("{:02x}", b)).collect();
    println!("FOUND {{\"call\": \"{}\", \"what\": \"{}\", \"data\": \"{}\", \"expected\": {}, \"got\": {}, \"value\": {}}}", call, what, h, want, got, value);
    std::io::stdout().flush().unwrap(); std::process::exit(3)
}
fn rd(call: &str, base: *mut u8, w: usize, k: usize, s: bool, n: usize, rounds: usize, f: &dyn Fn(*const u8, usize) -> u64) -> usize {
    println!("CASE {}", call);
    for r in 0..rounds {
        let start = match r % 6 { 0 => 0, 1 => 1, 2 => 7, 3 => 8, 4 => 100, _ => (rnd() % 2000) as usize };
        let size = start + (k + w + 7) / 8;
        let p = unsafe { base.add(2 * PAGE - size) };
        let b = unsafe { std::slice::from_raw_parts_mut(p, size) };
        for x in b.iter_mut() { *x = if r < 6 { 255 } else { (rnd() >> 11) as u8 }; }
        let want = ext(get(b, 8 * start + k, w), w, s) & mask(n);
        let got = f(p, 8 * start + k) & mask(n);
        if got != want { fail(&format!("{}, byte offset {}", call, start), "read", &b[start..], want, got, 0); }
    }
    rounds
}
fn wr(call: &str, base: *mut u8, w: usize, k: usize, s: bool, _n: usize, rounds: usize, f: &dyn Fn(*mut u8, usize, u64, usize)) -> usize {
    println!("CASE {}", call);
    for r in 0..rounds {
        let start = match r % 6 { 0 => 0, 1 => 1, 2 => 7, 3 => 8, 4 => 100, _ => (rnd() % 2000) as usize };
        let size = start + (k + w + 7) / 8;
        let all = unsafe { std::slice::from_raw_parts_mut(base, 2 * PAGE) };
        for x in all.iter_mut() { *x = if r % 4 == 0 { 255 } else if r % 4 == 1 { 0 } else { (rnd() >> 11) as u8 }; }
        let mut want = all.to_vec();
        let bits = (match (r / 4) % 4 { 0 => !0, 1 => 0, 2 => 1u64 << (w - 1), _ => rnd() }) & mask(w);
        let at = 8 * (2 * PAGE - size + start) + k;
        for i in 0..w { let j = at + i; want[j / 8] = want[j / 8] & !(1 << (j % 8)) | ((((bits >> i) & 1) as u8) << (j % 8)); }
        f(unsafe { base.add(2 * PAGE - size) }, size, ext(bits, w, s), 8 * start + k);
        for i in 0..2 * PAGE { if all[i] != want[i] { fail(&format!("{}, byte offset {}", call, start), &format!("byte {} relative to the field", i as i64 - (at / 8) as i64), &want[at / 8..], want[i] as u64, all[i] as u64, ext(bits, w, s)); } }
    }
    rounds
}
'''
def main():
    req = json.load(sys.stdin)
    rounds = req.get("rounds", 48)
    src = [rs_src.prelude(REPO), HEAD.replace("SEEDVAL", str(88172645463325252 + SEED)), "fn main() {", "let b = area(); let mut n = 0usize;"]
    for i, (t, w, k) in enumerate(req["cases"]):
        n, s = rs_src.TYPES[t]
        S = "true" if s else "false"
        back = "v != 0" if t == "bool" else f"v as {t}"
        src.append(f'n += rd("read {t}, width {w}, bit {k}", b, {w}, {k}, {S}, {n}, {rounds}, &|p: *const u8, off: usize| {{ let r: {t} = flatdata_read_bytes!({t}, p, off, {w}); r as u64 }});')
        src.append(f'n += wr("write {t}, width {w}, bit {k}", b, {w}, {k}, {S}, {n}, {rounds}, &|p: *mut u8, size: usize, v: u64, off: usize| {{ let d = unsafe {{ std::slice::from_raw_parts_mut(p, size) }}; let v = {back}; flatdata_write_bytes!({t}; v, d, off, {w}); }});')
    src.append('println!("DONE {}", n); }')
    d = tempfile.mkdtemp(prefix="fdvc_", dir="/tmp")
    try:
        with open(os.path.join(d, "s.rs"), "w") as f: f.write("\n".join(src))
        p = subprocess.run(["rustc", "--edition", "2018", "--cap-lints", "allow", "-C", "debug-assertions=on", "-C", "overflow-checks=on", "-C", "opt-level=1", "-o", os.path.join(d, "s"), os.path.join(d, "s.rs")],
                           capture_output=True, text=True)
        if p.returncode:
            err = [l for l in p.stderr.split("\n") if l.startswith("error")][:2]
            print(json.dumps(dict(found=bool(err), call="compile", cases=0, got=err)))
            return
        q = subprocess.run([os.path.join(d, "s")], capture_output=True, text=True)
        lines = q.stdout.strip().split("\n")
        n = next((int(l[5:]) for l in lines if l.startswith("DONE ")), 0)
        hit = next((l[6:] for l in lines if l.startswith("FOUND ")), None)
        if hit: print(json.dumps(dict(json.loads(hit), found=True, cases=n)))
        elif q.returncode: print(json.dumps(dict(found=True, cases=n, call=[l for l in lines if l.startswith("CASE ")][-1:], got=(q.stderr[:600] or f"signal {-q.returncode}"))))
        else: print(json.dumps(dict(found=False, cases=n)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__": main()
