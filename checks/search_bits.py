"""Native search for a failing read_value / write_value input (independent bit-by-bit oracle)."""
import sys, json, random, os
rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
req = json.load(sys.stdin)
import flatdata.lib.data_access as DA
cases = 0
def bits(data): return [(b >> i) & 1 for b in data for i in range(8)]
def oracle_read(data, off, n, signed):
    bs = bits(data)[off:off + n]
    v = sum(b << i for i, b in enumerate(bs))
    if signed and n > 1 and bs[-1]: v -= 1 << n
    return v
def done(d):
    d["cases"] = cases
    print(json.dumps(d)); sys.exit(0)
def try_read(data, off, n, signed):
    global cases
    cases += 1
    want = oracle_read(data, off, n, signed)
    for k in (bytes, memoryview):
        before = bytes(data)
        try: got = DA.read_value(k(data), off, n, signed)
        except Exception as ex: got = repr(ex)
        if got != want or type(got) is not int:
            done(dict(found=True, call="read_value", data=bytes(data).hex(), offset_bits=off, num_bits=n, is_signed=signed, expected=want, got=str(got)))
def try_write(data, off, n, signed, v):
    global cases
    cases += 1
    buf = bytearray(data)
    want = bits(data)
    for i in range(n): want[off + i] = (v >> i) & 1
    try: DA.write_value(buf, off, n, signed, v); got = bits(buf)
    except Exception as ex: got = repr(ex)
    if got != want:
        done(dict(found=True, call="write_value", data=bytes(data).hex(), offset_bits=off, num_bits=n, is_signed=signed, value=v,
                  expected="only the field's bits change to the value", got=got if isinstance(got, str) else bytes(buf).hex()))
def values(n, signed):
    if n == 1: return [0, 1]
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
    return [lo, hi, 0, 1, min(hi, 5), rng.randint(lo, hi), rng.randint(lo, hi)] + ([-1] if signed else [])
def hinted():
    """Directed replays of the verifier's counterexamples."""
    for t, h in zip(req.get("tasks", []), req.get("hints", [])):
        try:
            n = int(t[1][0])
            q = h.get("byte_offset", 0)
            if q > 1 << 22: q0 = [q % 64]
            else: q0 = [q]
            for q in q0:
                for r in range(8):
                    nb = (r + n + 7) // 8
                    L = max(nb + q, min(h.get("len", 0), q + nb + 64))
                    data = bytearray(L)
                    for j in range(nb + 2):
                        if q + j < L: data[q + j] = h.get(f"mem+{j}", 0)
                    for s in (False, True):
                        if req["what"] == "read": try_read(data, 8 * q + r, n, s)
                        else:
                            v = h.get("value")
                            vs = values(n, s)
                            if v is not None and v in range(min(vs), max(vs) + 1): vs = [v] + vs
                            for x in vs: try_write(data, 8 * q + r, n, s, x)
        except (KeyError, TypeError, ValueError, IndexError): continue
hinted()
for rnd in range(req.get("rounds", 6)):
    for n in range(1, 65):
        for r in range(8):
            nb = (r + n + 7) // 8
            for q in (0, 1, rng.randint(2, 40), 8, 255):
                for tail in (0, rng.randint(1, 9)):
                    fill = rng.choice(["rand", "rand", "ones", "zeros"])
                    L = q + nb + tail
                    data = bytes(rng.getrandbits(8) for _ in range(L)) if fill == "rand" else (b"\xff" if fill == "ones" else b"\0") * L
                    for s in (False, True):
                        if req["what"] == "read": try_read(data, 8 * q + r, n, s)
                        else:
                            for v in (values(n, s) if rnd == 0 else [rng.choice(values(n, s))]): try_write(data, 8 * q + r, n, s, v)
done(dict(found=False))
