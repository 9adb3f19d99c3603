"""Conformance suites, one per property. Expected values come from the property alone (Python integers)."""
import math
from harness import *

SUITES = {}


def suite(pid):
    def d(f):
        SUITES.setdefault(pid, []).append(f)
        return f
    return d


WIDTHS = [64, 128, 192, 256, 512]


def widths(S):
    return WIDTHS if S.thorough else [64, 128, 256, 512]


# ------------------------------------------------------------------ C01 signed arithmetic
@suite("C01")
def arith(S):
    rnd = S.rnd
    for bits in widths(S):
        sg = sgn(bits)
        ops = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}
        nb = {"add": lambda a, b: max(a, b) + 1, "sub": lambda a, b: max(a, b) + 1, "mul": lambda a, b: a + b}
        forms = {"checked_add": "add", "checked_add_pub": "add", "checked_sub": "sub", "checked_mul": "mul", "checked_mul_pub": "mul",
                 "add": "add", "add_ref": "add", "add_pub": "add", "sub": "sub", "mul": "mul", "mul_ref": "mul", "mul_pub": "mul", "mul_pub_ref": "mul"}
        for f, o in forms.items():
            for (x, bx), (y, by) in zip(signed_pairs(rnd, bits, S.K(60)), signed_pairs(rnd, bits, S.K(60))):
                if rnd.random() < 0.5:        # sums and products of bounds near the capacity
                    by = max(0, min(bits - 1, (bits - 1 - bx if o == "mul" else bits - 2) + rnd.choice([-1, 0, 1])))
                    m = (1 << by) - 1
                    y = rnd.choice([m, -m, rnd.randint(-m, m)])
                v, b = ops[o](x, y), nb[o](bx, by)
                fits = b < bits
                def good(r, v=v, fits=fits, f=f):
                    """the exact integer with a sufficient bound, or failure when the bounds do not fit"""
                    if r == PANIC or r is None:
                        return (r is None) == f.startswith("checked") and not fits
                    return isinstance(r, tuple) and r[0] == v and abs(v) < (1 << r[1]) and r[1] < bits and (fits or r[1] < b)
                S.expect(f"{f}: exact or failure", good, "uint." + f, sg, t=bits, a=sig(x, bx, bits), c=sig(y, by, bits))
        for x, b in signed_pairs(rnd, bits, S.K(40)):
            a = sig(x, b, bits)
            for f in ("neg", "neg_op", "neg_ref", "p_neg", "p_neg_op"):
                S.expect("negation", (-x, b), "uint." + f, sg, t=bits, a=a)
            S.expect("absolute value", (abs(x), b), "uint.abs", uns, t=bits, a=a)
            S.expect("absolute value", (abs(x), None), "uint.abs_value", uns, t=bits, a=a)
            S.expect("absolute value", (abs(x), None), "uint.p_abs", uns, t=bits, a=a)
            S.expect("sign", x < 0, "uint.is_negative", t=bits, a=a)
            S.expect("sign", x < 0, "uint.p_is_negative", t=bits, a=a)
            S.expect("to public", (x, b), "uint.to_public", sg, t=bits, a=a)
            if bits in (64, 128, 192, 256, 512):
                S.expect("widening", (x, b), "uint.ss_to_wide", sgn(2 * bits), t=bits, a=a)
                S.expect("widening", (x, b), "uint.ps_to_wide", sgn(2 * bits), t=bits, a=a)
        for (x, bx), (y, by) in zip(signed_pairs(rnd, bits, S.K(40)), signed_pairs(rnd, bits, S.K(40))):
            S.expect("widening product", (x * y, bx + by), "uint.mul_wide_public", sgn(2 * bits), t=bits, a=sig(x, bx, bits), c=sig(y, by, bits))
        for x, y in zip(edges(rnd, bits, S.K(20)), reversed(edges(rnd, bits, S.K(20)))):
            S.expect("word widening", x, "uint.wide", hexint, t=bits, x=hexw(x, bits))
            S.expect("word product", x * y, "uint.mul_wide", hexint, t=bits, x=hexw(x, bits), y=hexw(y, bits))
        for x in edges(rnd, 2 * bits, S.K(20)) + edges(rnd, bits, 12) + [1 << bits, (1 << bits) + 1, (1 << bits) - 1]:
            S.expect("word narrowing", x if x >> bits == 0 else None, "uint.narrow", hexint, t=bits, x=hexw(x, 2 * bits))
        for _ in range(S.K(30)):
            m = rnd.choice(edges(rnd, bits, 20)) or 1
            b = rnd.choice([bitlen(m), bits, max(1, bitlen(m - 1))])
            x, y = rnd.randrange(m), rnd.randrange(m)
            x = rnd.choice([x, m - 1]); y = rnd.choice([y, m - 1])
            if max(x, y) >> b or not m:
                continue
            S.expect("addition modulo", lambda r, x=x, y=y, m=m: isinstance(r, tuple) and r[0] == (x + y) % m and r[0] < 1 << r[1],
                     "uint.su_add_mod", uns, t=bits, a=sig(x, b, bits), c=sig(y, b, bits), m=hexw(m, bits))


# ------------------------------------------------------------------ C02 range checks
@suite("C02")
def ranges(S):
    rnd = S.rnd
    for bits in widths(S):
        for e in [1, 2, 3, 31, 32, 33, 63, 64, 65, bits // 2, bits - 2, bits - 1, bits] + [rnd.randrange(1, bits) for _ in range(S.K(6))]:
            if e > bits:
                continue
            h = 1 << (e - 1)
            for v in {h, h + 1, h - 1, -h, -h + 1, -h - 1, 0, 1, -1, 2 * h - 1, -2 * h + 1, 2 * h, -2 * h, rnd.randint(-2 * h, 2 * h)}:
                b = bits - 1
                if abs(v) >= 1 << b:
                    continue
                if rnd.random() < 0.5:
                    b = rnd.randint(bitlen(abs(v)), bits - 1)
                a = sig(v, b, bits)
                ok = in_range(v, e)
                S.expect("public range check", ok, "uint.p_in_range", t=bits, a=a, e=e)
                S.expect("asserted range check", True if ok else PANIC, "uint.assert_range", t=bits, a=a, e=e)
                if e < bits - 1:
                    S.expect("range check with a new bound", (lambda r, v=v: isinstance(r, tuple) and r[0] == v and abs(v) < 1 << r[1]) if ok else (lambda r: r is None),
                             "uint.ensure_range", sgn(bits), t=bits, a=a, e=e)


# ------------------------------------------------------------------ C03 constructors and samplers
@suite("C03")
def constructors(S):
    rnd = S.rnd
    for bits in widths(S):
        sg = sgn(bits)
        for x in edges(rnd, bits, S.K(40)):
            sx = x - (1 << bits) if x >> (bits - 1) else x
            for b in {0, 1, bits - 1, bits, bits + 1, bitlen(abs(sx)), max(0, bitlen(abs(sx)) - 1), bitlen(abs(sx)) + 1, bitlen(x), rnd.randrange(bits)}:
                good = (sx, b) if b < bits and abs(sx) < 1 << b else None
                h = hexw(x, bits)
                S.expect("from a word, two's complement", good, "uint.new_from_unsigned", sg, t=bits, x=h, b=b)
                S.expect("from a word, two's complement", good, "uint.p_new_from_unsigned", sg, t=bits, x=h, b=b)
                pos = (x, b) if b < bits and x < 1 << b else None
                S.expect("from a non-negative word", pos, "uint.new_positive", sg, t=bits, x=h, b=b)
                S.expect("from a non-negative word", pos, "uint.p_new_positive", sg, t=bits, x=h, b=b)
                S.expect("unsigned with a bound", lambda r, x=x, b=b: (r is None) if x >> b or b > bits else (r is None and b > bits) or (isinstance(r, tuple) and r[0] == x), "uint.su_new", uns, t=bits, x=h, b=b)
        for m in edges(rnd, bits, S.K(24)):
            if m < 3:
                continue
            mb = bitlen(m)
            for x in {0, 1, m - 1, m // 2, m // 2 + 1, max(0, m // 2 - 1), rnd.randrange(m)}:
                c = x - m if 2 * x > m else x
                S.expect("centred residue", lambda r, c=c, mb=mb: isinstance(r, tuple) and r[0] == c and abs(c) < 1 << r[1] if abs(c) < 1 << (mb - 1) else r is None or r[0] == c,
                         "uint.new_modulo", sg, t=bits, x=hexw(x, bits), m=hexw(m, bits), b=mb)
        S.expect("zero", lambda r: r[0] == 0, "uint.zero", sg, t=bits)
        S.expect("zero", lambda r: r[0] == 0, "uint.p_zero", sg, t=bits)
        S.expect("one", lambda r: r[0] == 1 and r[1] >= 1, "uint.p_one", sg, t=bits)


def batch(f, sg):
    return lambda l: [sg(x) for x in l]


@suite("C03")
def samplers(S):
    rnd = S.rnd
    for bits in widths(S):
        for e in (1, 2, 3, 4):
            n = 400 * e
            r = S.expect("sampler: values in range", lambda l, e=e: all(in_range(v, e) and abs(v) < 1 << b for v, b in l), "uint.random", batch(None, sgn(bits)), t=bits, e=e, n=n, seed=rnd.getrandbits(32))
            if isinstance(r, list):
                full = set(range(-(1 << (e - 1)) + 1, (1 << (e - 1)) + 1))
                S.check("sampler: every value of the range occurs", {v for v, _ in r} == full, "uint.random", {"t": bits, "e": e}, sorted({v for v, _ in r}), sorted(full))
                cnt = [sum(1 for v, _ in r if v == k) for k in full]
                S.check("sampler: no value is preferred", max(cnt) < 3.5 * n / len(full), "uint.random", {"t": bits, "e": e}, max(cnt), f"about {n / len(full)}")
            for s_ in (1, 2, 3, 5, 6):
                if e > 3:
                    continue
                for op, wb in (("random_scaled", 2 * bits), ("random_scaled_wide", {64: 256, 128: 320, 192: 640, 256: 640, 512: 1024}[bits])):
                    if op.endswith("wide") and bits == 512:
                        continue
                    lo, hi = s_ * (1 - 0) - s_ * (1 << (e - 1)) - s_ + 1, s_ * (1 << (e - 1))
                    lo = -s_ * (1 << (e - 1)) + 1
                    n = 250 * (hi - lo + 1)
                    r = S.expect("scaled sampler: values in range", lambda l, lo=lo, hi=hi: all(lo <= v <= hi and abs(v) < 1 << b for v, b in l), "uint." + op, batch(None, sgn(wb)), t=bits, e=e, n=n, s=hexw(s_, bits), seed=rnd.getrandbits(32))
                    if isinstance(r, list):
                        full = set(range(lo, hi + 1))
                        S.check("scaled sampler: every value of the range occurs", {v for v, _ in r} == full, "uint." + op, {"t": bits, "e": e, "s": s_}, sorted({v for v, _ in r}), sorted(full))
        for e in [bits - 1, bits // 2, 33, rnd.randrange(5, bits - 1)]:
            h = 1 << (e - 1)
            l = S.expect("sampler: values in range", lambda l, e=e: all(in_range(v, e) and abs(v) < 1 << b for v, b in l), "uint.random", batch(None, sgn(bits)), t=bits, e=e, n=64, seed=rnd.getrandbits(32))
            if isinstance(l, list):
                for what, f in (("upper", lambda v: v > h // 2), ("lower", lambda v: v < -(h // 2)), ("middle", lambda v: -(h // 2) <= v <= h // 2)):
                    S.check(f"sampler: {what} part of the range occurs", any(f(v) for v, _ in l), "uint.random", {"t": bits, "e": e}, "never", "occurs")
                S.check("sampler: both parities", {v % 2 for v, _ in l} == {0, 1}, "uint.random", {"t": bits, "e": e}, "one parity", "both")
        for e in (0, bits, bits + 5):
            S.expect("sampler: impossible ranges refused", PANIC, "uint.random", t=bits, e=e, n=1, seed=1)


# ------------------------------------------------------------------ C04 integers and scalars derived from a hash
def params(S):
    if not hasattr(S, "params"):
        p = S.get("curve.params")
        p["q"] = int(p["q"], 16)
        S.params = p
    return S.params


@suite("C04")
def derived(S):
    rnd = S.rnd
    for bits in widths(S):
        for n in [1, 2, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, bits - 1, bits - 7, bits - 8, bits] + [rnd.randrange(1, bits) for _ in range(S.K(8))]:
            if n > bits:
                continue
            by = (n + 7) // 8
            for data in (b"\xff" * 200, b"\x00" * 200, bytes(rnd.getrandbits(8) for _ in range(200))):
                le = int.from_bytes(data[:by], "big") % (1 << n)
                S.expect("bits of the hash", (le, by), "uint.xof", lambda j: (hexint(j["x"]), j["read"]), t=bits, bytes=data.hex(), n=n)
                if n < bits:
                    v = le - (1 << (n - 1)) + 1
                    S.expect("signed integer from the hash", lambda r, v=v, n=n: r[:2] == (v, by) and in_range(v, n) and abs(v) < 1 << r[2], "uint.xof_range",
                             lambda j: (sgn(bits)(j)[0], j["read"], j["b"]), t=bits, bytes=data.hex(), e=n)
        S.expect("more bits than the type holds refused", PANIC, "uint.xof", t=bits, bytes="00" * 200, n=bits + 1)
    P = params(S)
    q, ln = P["q"], P["repr"]
    wide = lambda d: (int.from_bytes(d[ln:2 * ln], "big") << (8 * ln)) + int.from_bytes(d[:ln], "big")
    for i in range(S.K(60)):
        data = {0: b"\xff" * 100, 1: b"\x00" * 47 + b"\x01" + b"\x00" * 50}.get(i, bytes(rnd.getrandbits(8) for _ in range(100)))
        S.expect("scalar from the hash", (wide(data) % q, 2 * ln), "curve.xof", lambda j: (hexint(j["x"]), j["read"]), bytes=data.hex())
    # a scalar that reduces to zero
    for k in (0, 1, 2, rnd.randrange(1 << 200)):
        w = (k * q).to_bytes(2 * ln, "big")
        data = w[ln:] + w[:ln] + b"\x05" * 64
        S.expect("scalar from the hash: multiple of the order", 0, "curve.xof", lambda j: hexint(j["x"]), bytes=data.hex())
    for n in list(range(1, 34)) + [64, 80, 112, 127, 128]:
        data = bytes(rnd.getrandbits(8) for _ in range(20))
        bits = "".join(format(b, "08b") for b in data)[:n]
        S.expect("bit string from the hash", (bits, (n + 7) // 8), "tools.xof_bits", lambda j: (j["bits"], j["read"]), bytes=data.hex(), n=n)
    for n in (1, 8, 16, 80):
        l = [S.get("tools.random_bits", n=n, seed=i) for i in range(40)]
        S.check("random bit string: length", all(len(x) == n for x in l), "tools.random_bits", {"n": n}, l[0], n)
        S.check("random bit string: every bit takes both values", all(len({x[i] for x in l}) == 2 for i in range(n)), "tools.random_bits", {"n": n}, "constant bit", "both")
    for n in (0, 1, 9, 16):
        for _ in range(5):
            a, b = rnd.getrandbits(n) if n else 0, rnd.getrandbits(n) if n else 0
            S.expect("exclusive or", format(a ^ b, f"0{n}b") if n else "", "tools.xor_bits", a=bitsjson(a, n), b=bitsjson(b, n))
    for n, m in ((9, 10), (10, 9), (0, 3), (3, 0), (8, 16), (80, 1), (7, 256)):
        a, b = rnd.getrandbits(n) if n else 0, rnd.getrandbits(m) if m else 0
        k = max(n, m)
        S.expect("exclusive or of different lengths extends with zeros", format((a << k - n) ^ (b << k - m), f"0{k}b"), "tools.xor_bits", a=bitsjson(a, n), b=bitsjson(b, m))
    # invertible residues
    p, qq = KEYS(S)[0]
    N = p * qq
    import base64
    for i in range(S.K(12)):
        data = bytes(rnd.getrandbits(8) for _ in range(32 * 60))
        if i % 2 == 0:                           # a first candidate that must be skipped
            data = [p, N, 0, qq * 3][(i // 2) % 4].to_bytes(32, "big") + data[32:]
        pos = 0
        mask = (1 << N.bit_length()) - 1
        while (v := int.from_bytes(data[pos:pos + 32], "big") & mask) >= N or math.gcd(v, N) != 1:
            pos += 32
        want = v
        S.expect("invertible residue from the hash", lambda r, want=want, N=N: isinstance(r, tuple) and r[0] == want, "pai.invertible_xof", lambda j: (hexint(j["x"]), j["read"]), k=kj(p, qq), bytes=data.hex())


def bitsjson(x, n):
    import base64
    s = format(x, f"0{n}b") if n else ""
    by = bytes(int(s[i:i + 8].ljust(8, "0"), 2) for i in range(0, n, 8))
    return {"bits": n, "byte_vec": base64.b64encode(by).decode().rstrip("=")}


# ------------------------------------------------------------------ C05 serialized forms
@suite("C05")
def serial(S):
    rnd = S.rnd
    P = params(S)
    q, ln = P["q"], P["repr"]
    for bits in widths(S):
        for x, b in signed_pairs(rnd, bits, S.K(30)):
            r = S.expect("signed integer is serialized", lambda j: isinstance(j, dict), "uint.ser_signed", t=bits, a=sig(x, b, bits))
            if isinstance(r, dict):
                S.expect("signed integer round trip", (x, b), "uint.de_signed", sgn(bits), t=bits, json=r)
        for x in edges(rnd, bits, S.K(16)):
            r = S.expect("word is serialized", lambda j: isinstance(j, str), "uint.ser_uint", t=bits, x=hexw(x, bits))
            if isinstance(r, str):
                S.expect("word round trip", x, "uint.de_uint", hexint, t=bits, json=r)
                S.expect("word: wrong length refused", REJECT, "uint.de_uint", t=bits, json=r + "00")
                S.expect("word: wrong length refused", REJECT, "uint.de_uint", t=bits, json=r[:-2])
            S.expect("bytes of a word", x.to_bytes(bits // 8, "big").hex(), "uint.to_bytes", t=bits, x=hexw(x, bits))
            S.expect("word from bytes", x, "uint.from_bytes", hexint, t=bits, bytes=x.to_bytes(bits // 8, "big").hex())
            S.expect("word from bytes: wrong length refused", REJECT, "uint.from_bytes", t=bits, bytes=x.to_bytes(bits // 8 + 1, "big").hex())
            S.expect("word from bytes: wrong length refused", REJECT, "uint.from_bytes", t=bits, bytes=x.to_bytes(bits // 8, "big").hex()[2:])
        # malformed signed integers
        base = S.get("uint.ser_signed", t=bits, a=sig(-5, 10, bits))
        names = {type(v).__name__ if not isinstance(v, str) else "str": k for k, v in base.items()}
        if set(names) == {"bool", "int", "str"}:
            kb, ki, ks = names["bool"], names["int"], names["str"]
            for _ in range(S.K(60)):
                b = rnd.choice([0, 1, 2, 8, bits - 1, bits, bits + 1, 2 ** 31, 2 ** 32 - 1, rnd.randrange(bits)])
                nb = rnd.choice([0, 1, (b + 7) // 8, (b + 7) // 8 + 1, bits // 8, bits // 8 + 1, rnd.randrange(bits // 8 + 2)])
                nb = min(nb, 2 * bits // 8)
                ab = rnd.choice([0, 1, 255, 256, rnd.getrandbits(8 * nb) if nb else 0, (1 << b) - 1 if b < 4096 else 5, 1 << b if b < 4096 else 7]) % (1 << (8 * nb)) if nb else 0
                neg = rnd.random() < 0.5
                h = "0x" + (ab.to_bytes(nb, "big").hex() if nb else "")
                def good(r, b=b, ab=ab, neg=neg):
                    """refused, or exactly the encoded integer within its bound"""
                    if r == REJECT:
                        return not (b < bits and ab < 1 << b and nb == (b + 7) // 8)
                    return isinstance(r, tuple) and b < bits and ab < 1 << b and r[0] == (-ab if neg else ab) and abs(r[0]) < 1 << r[1] and r[1] < bits
                S.expect("malformed signed integer", good, "uint.de_signed", sgn(bits), t=bits, json={kb: neg, ki: b, ks: h})
    for x in [0, 1, 2, q - 1, q - 2] + [rnd.randrange(q) for _ in range(S.K(20))]:
        r = S.expect("scalar is serialized", lambda j: isinstance(j, str), "curve.ser_scalar", a=hexw(x, 256)[:64])
        S.expect("scalar round trip", x, "curve.de_scalar", hexint, json=r)
        S.expect("bytes of a scalar", x.to_bytes(ln, "big").hex(), "curve.to_bytes", a=format(x, "x"))
        S.expect("scalar from bytes", x, "curve.from_bytes", hexint, bytes=x.to_bytes(ln, "big").hex())
        S.expect("scalar from bytes: wrong length refused", REJECT, "curve.from_bytes", bytes=x.to_bytes(ln + 1, "big").hex())
        S.expect("scalar from bytes: wrong length refused", REJECT, "curve.from_bytes", bytes=x.to_bytes(ln, "big").hex()[2:])
        r = S.expect("point is serialized", lambda j: isinstance(j, str), "curve.ser_point", a=format(x, "x")) if x else None
        if isinstance(r, str):
            c = S.get("curve.point", a=format(x, "x"))
            S.expect("point round trip", c, "curve.de_point", json=r)
            S.expect("point: wrong length refused", REJECT, "curve.de_point", json=r + "00")
            S.expect("point: wrong length refused", REJECT, "curve.de_point", json=r[:-2])
            S.expect("point: unknown tag refused", REJECT, "curve.de_point", json=r[:2] + "07" + r[4:])
            S.expect("point: compact encoding refused", REJECT, "curve.de_point", json=r[:2] + "05" + r[4:])
            # a point that is deserialized from any string serializes back to that string
            for _ in range(3):
                t = r[:4] + format(rnd.randrange(q * 2) % 2 ** 32, f"0{2 * ln}x")
                S.expect("point: canonical encoding", lambda z, t=t: z == REJECT or z == t, "curve.reser_point", json=t)
    for x in (q, q + 1, 2 * q, (1 << (8 * ln)) - 1, 1 << (8 * ln - 1)):
        S.expect("scalar not below the order refused", REJECT, "curve.from_bytes", bytes=(x % (1 << 8 * ln)).to_bytes(ln, "big").hex())
        S.expect("scalar not below the order refused", REJECT, "curve.de_scalar", json="0x" + (x % (1 << 8 * ln)).to_bytes(ln, "big").hex())
    # the neutral point: refused or handled like any other
    idn = S.call("curve.de_point", json="0x00")
    if "ok" in idn:
        S.expect("neutral point: serialized form", ("any", "0x00"), "curve.reser_point", json="0x00")
        S.expect("neutral point: hashed", lambda r: isinstance(r, str) and r != PANIC, "curve.hash_point", json="0x00")
    # bit strings
    for n in list(range(0, 18)) + [80, 112, 127, 128]:
        x = rnd.getrandbits(n) if n else 0
        j = bitsjson(x, n)
        S.expect("bit string round trip", format(x, f"0{n}b") if n else "", "tools.de_bits", json=j)
        S.expect("bit string re-serialized", j, "tools.reser_bits", json=j)
        if n:
            k = dict(j)
            k["bits"] = ((n + 7) // 8) * 8 + 1
            S.expect("bit string with missing bytes refused", REJECT, "tools.de_bits", json=k)
            k["bits"] = 2 ** 32 - 1
            S.expect("bit string with missing bytes refused", REJECT, "tools.de_bits", json=k)


# ------------------------------------------------------------------ C06 transcripts
@suite("C06")
def transcripts(S):
    rnd = S.rnd
    seen = {}

    def add(kind, desc, digest):
        if not isinstance(digest, str) or digest == PANIC:
            S.check("transcript is hashed", False, kind, desc, digest, "a digest")
            return
        k = (kind, digest)          # transcripts of one shape: the same sequence of types
        me = json.dumps(desc, sort_keys=True)
        S.check("different transcripts give different digests", seen.setdefault(k, me) == me, kind if isinstance(kind, str) else kind[0], {"first": seen[k], "second": desc}, digest, "a different digest")
    pieces = [b"", b"\x00", b"a", b"ab", b"abc", b"b", b"bc", b"c", b"\x00" * 8, b"\x01" + b"\x00" * 7, b"\x00" * 7 + b"\x01", (3).to_bytes(8, "little"), (3).to_bytes(8, "big"), b"\x00" * 16, (1).to_bytes(16, "big"), (1).to_bytes(16, "little")]
    seqs = [[a] for a in pieces] + [[a, b] for a in pieces for b in pieces] + [[]] + [[a, b, c] for a in pieces[:6] for b in pieces[:6] for c in pieces[:6]]
    for dst in (b"verif", b"veri", b"P_fac", b""):
        for it in seqs if dst == b"verif" else seqs[:80]:
            add("tools.hash_bytes", {"dst": dst.hex(), "items": [x.hex() for x in it]}, outcome(S.call("tools.hash_bytes", dst=dst.hex(), items=[x.hex() for x in it])))
    seen.clear()
    q = params(S)["q"]
    vals = []
    for x in [1, 2, 255, 256, q - 1]:
        vals += [{"t": "scalar", "v": format(x, "x")}, {"t": "point", "v": format(x, "x")}, {"t": "scalars", "v": [format(x, "x")]}]
    vals += [{"t": "scalars", "v": []}, {"t": "scalars", "v": ["1", "2"]}, {"t": "scalars", "v": ["2", "1"]}, {"t": "u64", "v": 0}, {"t": "u64", "v": 1}, {"t": "u64", "v": 256}]
    for a in vals:
        add(("tools.hash_vals", a["t"]), {"items": [a]}, outcome(S.call("tools.hash_vals", items=[a])))
        for b in vals:
            add(("tools.hash_vals", a["t"], b["t"]), {"items": [a, b]}, outcome(S.call("tools.hash_vals", items=[a, b])))
    # determinism
    for it in seqs[:40]:
        kw = {"dst": b"x".hex(), "items": [x.hex() for x in it]}
        S.check("equal transcripts give equal digests", outcome(S.call("tools.hash_bytes", **kw)) == outcome(S.call("tools.hash_bytes", **kw)), "tools.hash_bytes", kw, "different", "equal")
    for bits in (80, 112, 128, 16, 1, 9):
        r = S.expect("digest of the requested strength", lambda j, bits=bits: isinstance(j, str) and len(strip0x(j)) == 2 * ((2 * bits + 7) // 8) , "tools.hash_final", dst="00", items=["01"], bits=bits)


# ------------------------------------------------------------------ C07 scalars, points, conversions
@suite("C07")
def scalars(S):
    rnd = S.rnd
    P = params(S)
    q, ln = P["q"], P["repr"]
    hx_ = lambda x: format(x % q, "x")
    xs = [0, 1, 2, q - 1, q - 2, q // 2, q // 2 + 1] + [rnd.randrange(q) for _ in range(S.K(12))]
    pts = {}

    def pt(x):
        x %= q
        if x not in pts:
            pts[x] = S.get("curve.mul_gen", a=hx_(x))
        return pts[x]
    for a in xs:
        for b in [0, 1, q - 1] + [rnd.choice(xs) for _ in range(3)] + [rnd.randrange(q) for _ in range(S.K(2))]:
            for ops, v in ((("add", "add_assign", "sec_add"), a + b), (("sub", "sub_assign", "sec_sub"), a - b), (("mul", "mul_assign", "sec_mul"), a * b)):
                for o in ops:
                    S.expect("scalar arithmetic", v % q, "curve." + o, hexint, a=hx_(a), b=hx_(b))
            S.expect("point addition", pt(a + b), "curve.pt_add", a=hx_(a), b=hx_(b))
            for o in ("pt_mul", "pt_mul_ref", "pt_mul_sec"):
                S.expect("point multiplication", pt(a * b), "curve." + o, a=hx_(a), b=hx_(b))
        S.expect("scalar arithmetic", -a % q, "curve.neg", hexint, a=hx_(a))
        S.expect("scalar arithmetic", -a % q, "curve.sec_neg", hexint, a=hx_(a))
        S.expect("inverse", pow(a, -1, q) if a else None, "curve.invert", hexint, a=hx_(a))
        S.expect("generator multiples", pt(a), "curve.sec_mul_gen", a=hx_(a))
        S.expect("verifying key of a point", pt(a) if a else None, "curve.vkey", a=hx_(a))
    S.check("distinct multiples are distinct points", len({json.dumps(v) for v in pts.values()}) == len(pts), "curve.mul_gen", {}, "collision", "distinct")
    for n in (0, 1, 2, 5):
        l = [rnd.randrange(q) for _ in range(n)]
        S.expect("sums", sum(l) % q, "curve.sum", hexint, xs=[hx_(x) for x in l])
        S.expect("sums", sum(l) % q, "curve.sec_sum", hexint, xs=[hx_(x) for x in l])
        S.expect("sums", pt(sum(l)), "curve.pt_sum", xs=[hx_(x) for x in l])
        S.expect("products", math.prod(l) % q, "curve.product", hexint, xs=[hx_(x) for x in l])
    for a in xs[:8]:
        for n in (1, 2, 3, 6):
            S.expect("additive splitting", lambda l, a=a, n=n: len(l) == n and sum(map(hexint, l)) % q == a, "curve.split", a=hx_(a), n=n, seed=rnd.getrandbits(32))
    l = [hexint(S.get("curve.random", seed=i)) for i in range(60)] + [hexint(S.get("curve.random_nonzero", seed=i)) for i in range(60)]
    S.check("random scalars", len(set(l)) > 100 and all(0 <= x < q for x in l) and any(x > q // 2 for x in l) and any(x < q // 2 for x in l), "curve.random", {}, "degenerate", "spread over [0, q)")
    S.check("random non-zero scalars", all(l[60:]), "curve.random_nonzero", {}, 0, "non-zero")
    # conversions
    for _ in range(S.K(60)):
        a = rnd.choice(xs + [rnd.randrange(q)])
        c = a - q if 2 * a > q else a
        for o in ("public_signed_from_scalar", "secret_signed_from_scalar"):
            S.expect("scalar to integer", lambda r, a=a, c=c: isinstance(r, tuple) and r[0] in (a, c) and r[0] % q == a and abs(r[0]) < 1 << r[1], "curve." + o, sgn(256), a=hx_(a))
        for bits, ops in ((256, ("scalar_from_signed", "secret_scalar_from_signed")), (512, ("scalar_from_wide_signed", "secret_scalar_from_wide_signed"))):
            v, b = rnd.choice(signed_pairs(rnd, bits, 8) + [(rnd.choice([-1, 1]) * (q * rnd.randrange(1 << 100) + rnd.choice([-1, 0, 1])), bits - 1), (-q, bits - 1), (q, 40)])
            for o in ops:
                S.expect("integer to scalar", v % q, "curve." + o, hexint, a=sig(v, b, bits))
    for a in xs[:4] + xs[-4:]:
        r = S.get("curve.point", a=hx_(a)) if a else None
        if r and len(r["c"]) == 2 + 2 * ln:
            S.expect("x coordinate", int(r["c"][2:], 16) % q, "curve.x_coord", hexint, a=hx_(a))


# ------------------------------------------------------------------ Paillier
def is_prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s_ = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s_ += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s_ - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def blum_prime(rnd, bits):
    while True:
        p = rnd.getrandbits(bits) | 3 << (bits - 2) | 3
        if is_prime(p):
            return p


def KEYS(S):
    if not hasattr(S, "keys"):
        r = random.Random(7)
        ks = []
        while len(ks) < 4:
            p, q = blum_prime(r, 128), blum_prime(r, 128)
            if p != q and math.gcd(p * q, (p - 1) * (q - 1)) == 1:
                ks.append((p, q))
        ks[1] = tuple(sorted(ks[1])) if ks[0] < tuple(reversed(ks[0])) else tuple(sorted(ks[1], reverse=True))
        S.keys = ks
    return S.keys


def kj(p, q):
    return {"p": hexw(p, 128), "q": hexw(q, 128)}


class Key:
    def __init__(self, S, i):
        self.p, self.q = KEYS(S)[i]
        self.N = self.p * self.q
        self.N2 = self.N ** 2
        self.phi = (self.p - 1) * (self.q - 1)
        self.j = kj(self.p, self.q)
        self.S = S
        self.rhos = {}

    def rho(self, seed):
        if seed not in self.rhos:
            self.rhos[seed] = hexint(self.S.get("pai.rho", k=self.j, rho={"seed": seed}))
        return self.rhos[seed]

    def enc(self, m, rho):
        return (1 + m * self.N) % self.N2 * pow(rho, self.N, self.N2) % self.N2

    def root(self, c):
        """the randomizer of a ciphertext"""
        m = self.dec(c)
        return pow(c * (1 - m * self.N) % self.N2 % self.N, pow(self.N, -1, self.phi), self.N)

    def dec(self, c):
        u = (pow(c, self.phi, self.N2) - 1) // self.N * pow(self.phi, -1, self.N) % self.N
        return u - self.N if 2 * u > self.N else u


def key(S, i=0):
    if not hasattr(S, "kobj"):
        S.kobj = {}
    if i not in S.kobj:
        S.kobj[i] = Key(S, i)
    return S.kobj[i]


def plaintexts(S, N, n):
    rnd = S.rnd
    h = (N - 1) // 2
    return [0, 1, -1, h, -h, h - 1, -h + 1] + [rnd.randint(-h, h) for _ in range(n)] + [rnd.choice([-1, 1]) * rnd.getrandbits(rnd.randrange(1, 255)) % h for _ in range(n)]


@suite("C08")
def decrypts(S):
    rnd = S.rnd
    for i in range(S.K(2, 4)):
        k = key(S, i)
        N, h = k.N, (k.N - 1) // 2
        for m in plaintexts(S, N, S.K(20)):
            seed = rnd.randrange(1 << 30)
            rho = k.rho(seed)
            m = max(-h, min(h, m))
            b = max(bitlen(abs(m)), rnd.choice([255, 0]))
            c = S.expect("encryption", k.enc(m, rho), "pai.enc", hexint, k=k.j, rho={"seed": seed}, kind="secret", m=sig(m, b, 256))
            for cc in {k.enc(m, rho), (c if isinstance(c, int) else k.enc(m, rho))}:
                S.expect("decryption", lambda r, m=m: isinstance(r, tuple) and r[0] == m and abs(m) < 1 << r[1], "pai.dec", sgn(256), k=k.j, c=hexw(cc, 512))
        # other entry points, plaintexts beyond the range wrap around modulo N
        for _ in range(S.K(15)):
            s1, s2 = rnd.randrange(1 << 30), rnd.randrange(1 << 30)
            v, b = rnd.choice(signed_pairs(rnd, 256, 6) + [(N, 0), (-N, 0), (N - 1, 0)])
            if bitlen(abs(v)) <= 255:
                b = max(b, bitlen(abs(v)))
                S.expect("encryption of any integer", k.enc(v % N, k.rho(s1)), "pai.enc", hexint, k=k.j, rho={"seed": s1}, kind="secret", m=sig(v, b, 256))
            wv, wb = rnd.choice(signed_pairs(rnd, 512, 6) + [(N * N // 3, 511), (-N * rnd.getrandbits(200), 511), (N, 511)])
            S.expect("encryption of a wide integer", k.enc(wv % N, k.rho(s1)), "pai.enc", hexint, k=k.j, rho={"seed": s1}, kind="secret_wide", m=sig(wv, wb, 512))
            e, eb = rnd.choice(signed_pairs(rnd, 256, 6))
            msk = pow(k.rho(s1), e, N) * k.rho(s2) % N
            S.expect("public encryption", k.enc(wv % N, msk), "pai.enc", hexint, k=k.j, rho={"seed": s1}, coeff={"seed": s2}, e=sig(e, eb, 256), kind="public_wide", m=sig(wv, wb, 512))
            if bitlen(abs(v)) <= 255:
                S.expect("public encryption", k.enc(v % N, msk), "pai.enc", hexint, k=k.j, rho={"seed": s1}, coeff={"seed": s2}, e=sig(e, eb, 256), kind="public", m=sig(v, b, 256))
        # any unit modulo N^2 is a ciphertext
        for _ in range(S.K(15)):
            c = rnd.randrange(k.N2)
            m = k.dec(c)
            S.expect("decryption of any ciphertext", lambda r, m=m: isinstance(r, tuple) and r[0] == m, "pai.dec", sgn(256), k=k.j, c=hexw(c, 512))
            S.expect("ciphertext keeps its value", c, "pai.wire", hexint, k=k.j, c=hexw(c, 512))


@suite("C09")
def derives(S):
    rnd = S.rnd
    for i in range(S.K(3, 4)):
        k = key(S, i)
        h = (k.N - 1) // 2
        for m in plaintexts(S, k.N, S.K(12)):
            seed = rnd.randrange(1 << 30)
            rho = k.rho(seed)
            S.expect("recovered randomizer", rho, "pai.derive", hexint, k=k.j, c=hexw(k.enc(m, rho), 512))
            # any randomizer, extreme ones included
            r = rnd.choice([1, k.N - 1, 2, rnd.randrange(1, k.N), k.p + 1, k.q - 1])
            S.expect("recovered randomizer", r, "pai.derive", hexint, k=k.j, c=hexw(k.enc(m, r), 512))
        for _ in range(S.K(10)):
            c = rnd.randrange(k.N2)
            S.expect("recovered randomizer of any ciphertext", k.root(c), "pai.derive", hexint, k=k.j, c=hexw(c, 512))
            s1, s2 = rnd.randrange(1 << 30), rnd.randrange(1 << 30)
            e, eb = rnd.choice(signed_pairs(rnd, 256, 6) + [(0, 0), (1, 1), (-1, 1)])
            S.expect("masked randomizer", pow(k.rho(s1), e, k.N) * k.rho(s2) % k.N, "pai.masked", hexint, k=k.j, rho={"seed": s1}, coeff={"seed": s2}, e=sig(e, eb, 256))
        seeds = [k.rho(x) for x in range(20)]
        S.check("randomizers are units", all(0 < r < k.N and math.gcd(r, k.N) == 1 for r in seeds) and len(set(seeds)) == 20, "pai.rho", {}, "not a unit or repeated", "distinct units")


@suite("C10")
def homomorphic(S):
    rnd = S.rnd
    for i in range(S.K(2, 4)):
        k = key(S, i)
        N, N2 = k.N, k.N2
        ms = plaintexts(S, N, S.K(6))
        for a in ms:
            ca = k.enc(a, rnd.randrange(1, N))
            b = rnd.choice(ms)
            cb = k.enc(b, rnd.randrange(1, N))
            for o in ("add", "add_ref", "add_mixed"):
                S.expect("sum of ciphertexts", ca * cb % N2, "pai.hom", hexint, k=k.j, kind=o, a=hexw(ca, 512), b=hexw(cb, 512))
            S.expect("difference of ciphertexts", ca * pow(cb, -1, N2) % N2, "pai.hom", hexint, k=k.j, kind="sub_ref", a=hexw(ca, 512), b=hexw(cb, 512))
            for o, w in (("mul_s", 256), ("mul_s_ref", 256), ("mul_p", 256), ("mul_p_ref", 256), ("mul_sw", 512), ("mul_pw", 512)):
                x, xb = rnd.choice(signed_pairs(rnd, w, 8) + [(0, 0), (-1, 1), (1, 1), (N if w == 512 else 3, w - 1)])
                S.expect("multiple of a ciphertext", pow(ca, x, N2), "pai.hom", hexint, k=k.j, kind=o, a=hexw(ca, 512), x=sig(x, xb, w))
        # through decryption
        for _ in range(S.K(6)):
            a, b, x = rnd.choice(ms), rnd.choice(ms), rnd.randint(-2 ** 60, 2 ** 60)
            ca, cb = k.enc(a, rnd.randrange(1, N)), k.enc(b, rnd.randrange(1, N))
            c1 = S.get("pai.hom", k=k.j, kind="mul_s", a=hexw(ca, 512), x=sig(x, 61, 256))
            c2 = S.get("pai.hom", k=k.j, kind="sub_ref", a=strip0x(c1), b=hexw(cb, 512))
            v = (a * x - b) % N
            S.expect("affine combination decrypts", v - N if 2 * v > N else v, "pai.dec", lambda j: sgn(256)(j)[0], k=k.j, c=strip0x(c2))
    k2 = key(S, 1)
    k = key(S, 0)
    S.expect("ciphertexts of different keys refused", PANIC, "pai.hom_mixed_keys", k=k.j, k2=k2.j, a=hexw(5, 512), b=hexw(7, 512))


@suite("C11")
def keys_(S):
    rnd = S.rnd
    for i in range(4):
        k = key(S, i)
        N = k.N
        inf = S.get("pai.key_info", k=k.j)
        want = {"n": N, "n_wire": N, "n_nz": N, "n_wide": N, "n_mod_n2": N, "inv_totient": pow(k.phi, -1, N), "inv_modulus": pow(N, -1, k.phi), "totient_wide": k.phi}
        for f, v in want.items():
            S.check("precomputed constants", hexint(inf[f]) == v, "pai.key_info", {"k": k.j, "field": f}, inf[f], hex(v))
        for f, v in (("p", k.p), ("q", k.q)):
            S.check("precomputed constants", sgn(256)(inf[f])[0] == v and bitlen(v) <= inf[f]["b"], "pai.key_info", {"k": k.j, "field": f}, inf[f], hex(v))
        S.check("precomputed constants", sgn(512)(inf["n_signed"])[0] == N and bitlen(N) <= inf["n_signed"]["b"], "pai.key_info", {"k": k.j, "field": "n_signed"}, inf["n_signed"], hex(N))
        S.check("bounds", k.phi < 1 << inf["totient_bound"] and hexint(inf["inv_modulus"]) < 1 << inf["inv_modulus_bound"], "pai.key_info", {"k": k.j}, [inf["totient_bound"], inf["inv_modulus_bound"]], "sufficient")
        S.expect("key round trip", {"same": True, "n": format(N, "064x")}, "pai.key_roundtrip", k=k.j)
        S.expect("public key round trip", {"same": True, "n": format(N, "064x")}, "pai.pk_roundtrip", k=k.j)
        for x in edges(rnd, 256, S.K(20)) + [k.p, k.q, N - 1, k.p * 5, k.q * 7]:
            S.expect("residues of the prime factors", [x % k.p, x % k.q], "pai.rns_split", lambda l: [hexint(y) for y in l], k=k.j, x=hexw(x, 256))
            S.expect("recombination", x % N, "pai.rns_join", hexint, k=k.j, x=hexw(x, 256))
            y = x * x % N
            S.expect("square root of a square", lambda r, y=y: isinstance(r, int) and r * r % N == y and 0 <= r < N and
                     all(pow(r % p_, (p_ - 1) // 2, p_) in (0, 1) for p_ in (k.p, k.q)), "pai.rns_sqrt", hexint, k=k.j, x=hexw(y, 256))
            qr = all(pow(x, (p_ - 1) // 2, p_) in (0, 1) for p_ in (k.p, k.q))
            S.expect("square root exists exactly for squares", lambda r, qr=qr, x=x: (isinstance(r, int) and r * r % N == x % N) if qr else r is None, "pai.rns_sqrt", hexint, k=k.j, x=hexw(x, 256))
        js = lambda a, p_: -1 if pow(a, (p_ - 1) // 2, p_) == p_ - 1 else 1
        l = [hexint(x) for x in S.get("pai.nonsquare", k=k.j, cnt=60, seed=rnd.getrandbits(32))]
        S.check("non-square residues", all(0 < w < N and js(w, k.p) * js(w, k.q) == -1 for w in l) and len(set(l)) == 60, "pai.nonsquare", {"k": k.j}, "not a non-residue", "Jacobi symbol -1")
        S.check("non-square residues: both kinds", {js(w, k.p) for w in l} == {1, -1}, "pai.nonsquare", {"k": k.j}, "one kind", "both kinds")
        l = [hexint(x) for x in S.get("pai.invertible", k=k.j, cnt=60, seed=rnd.getrandbits(32))]
        S.check("invertible residues", all(0 < w < N and math.gcd(w, N) == 1 for w in l) and len(set(l)) == 60 and any(2 * w > N for w in l) and any(2 * w < N for w in l), "pai.invertible", {"k": k.j}, "not invertible or degenerate", "units over the whole range")
    for i in range(S.K(12)):
        r = S.get("pai.key_random", seed=rnd.getrandbits(32))
        p, q, n = hexint(r["p"]), hexint(r["q"]), hexint(r["n"])
        ok = n == p * q and p != q and is_prime(p) and is_prime(q) and p % 4 == 3 and q % 4 == 3 and bitlen(p) == 128 and bitlen(q) == 128 and bitlen(n) == 256 and math.gcd(n, (p - 1) * (q - 1)) == 1 and r["wire_same"]
        S.check("generated keys", ok, "pai.key_random", {}, r, "Paillier-Blum modulus of full size")
    for i in range(3):
        for j in range(3):
            S.expect("key equality", i == j, "pai.pk_eq", k1=key(S, i).j, k2={"n": hexw(key(S, j).N, 256)})


@suite("C12")
def powers(S):
    rnd = S.rnd
    for bits in [64, 128, 256]:
        for _ in range(S.K(25)):
            m = rnd.choice([x for x in edges(rnd, bits, 30) if x % 2 and x > 2])
            g = rnd.randrange(1, m)
            unit = math.gcd(g, m) == 1
            for kind, w in (("ss", bits), ("ps", bits), ("ssw", 2 * bits), ("psw", 2 * bits)):
                x, b = rnd.choice(signed_pairs(rnd, w, 6) + [(0, 0), (0, w - 1), (-1, 1), (-1, w - 1), (1, 1), ((1 << (w - 1)) - 1, w - 1), (-(1 << (w - 1)) + 1, w - 1)])
                if not unit and x < 0:
                    continue
                if not unit and kind.startswith("s"):
                    continue
                S.expect("signed exponent", pow(g, x, m), "uint.pow", hexint, t=bits, m=hexw(m, bits), g=hexw(g, bits), kind=kind, a=sig(x, b, w))
            b = rnd.choice([bits, bits - 1, rnd.randrange(1, bits)])
            x = rnd.choice([0, 1, (1 << b) - 1, rnd.getrandbits(b)])
            S.expect("unsigned exponent", pow(g, x, m), "uint.pow", hexint, t=bits, m=hexw(m, bits), g=hexw(g, bits), kind="su", a=sig(x, b, bits))
            y, z = rnd.choice(edges(rnd, bits, 20)), rnd.choice(edges(rnd, bits, 20)) | 1
            S.expect("invertibility test", math.gcd(y, z) == 1, "uint.is_invertible", t=bits, x=hexw(y, bits), m=hexw(z, bits))
    # commitments
    st = SETUP(S)
    N, t, s_ = st["N"], st["T"], st["S"]
    for _ in range(S.K(25)):
        for kind, wa, wb in (("ss_ssw", 256, 512), ("ps_psw", 256, 512), ("ss_ss", 256, 256), ("ssw_ssw", 512, 512), ("psw_psw", 512, 512), ("zero_value", 256, 512), ("zero_randomizer", 256, 512), ("su_su", 256, 256)):
            (a, ab), (b, bb) = rnd.choice(signed_pairs(rnd, wa, 8)), rnd.choice(signed_pairs(rnd, wb, 8))
            if kind == "su_su":
                a, b = abs(a), abs(b)
            e, eb = rnd.choice(signed_pairs(rnd, 256, 8) + [(-1, 1), (0, 0)])
            ea, ebb = (0 if kind == "zero_value" else a), (0 if kind == "zero_randomizer" else b)
            c = pow(s_, ea, N) * pow(t, ebb, N) % N
            sq = rnd.random() < 0.5
            pw = rnd.random() < 0.5
            c = pow(c, e, N) if pw else c
            kw = {"pow": sig(e, eb, 256)} if pw else {}
            S.expect("commitment", c * c % N if sq else c, "pai.rp_commit", hexint, setup=st["j"], kind=kind, a=sig(a, ab, wa), b=sig(b, bb, wb), square=sq, **kw)
    S.expect("parameters round trip", st["j"], "pai.rp_roundtrip", setup=st["j"])
    for i in range(S.K(6)):
        r = S.get("pai.rp_new", seed=rnd.getrandbits(20))
        n, t, s_, lam, tot = (hexint(r[x]) for x in ("n", "t", "s", "lambda", "totient"))
        ok = pow(t, lam, n) == s_ and n == hexint(r["modulus"]) and lam < tot // 4 and bitlen(lam) <= r["lbound"] and math.gcd(t, n) == 1
        # p and q from the totient
        ssum = n - tot + 1
        d = ssum * ssum - 4 * n
        rt = math.isqrt(d) if d >= 0 else 0
        p, q = (ssum + rt) // 2, (ssum - rt) // 2
        ok = ok and p * q == n and is_prime(p) and is_prime(q) and is_prime((p - 1) // 2) and is_prime((q - 1) // 2) and all(pow(t, (f - 1) // 2, f) == 1 for f in (p, q)) and hexint(r["a"]) < tot
        S.check("generated parameters", ok, "pai.rp_new", {}, r, "s = t^lambda, t a square, safe primes")


def SETUP(S, i=0):
    if not hasattr(S, "setups"):
        S.setups = {}
    if i not in S.setups:
        r = random.Random(11 + i)
        p, q = blum_prime(r, 128), blum_prime(r, 128)
        N = p * q
        t = pow(r.randrange(2, N), 2, N)
        lam = r.randrange(2, (p - 1) * (q - 1) // 4)
        s_ = pow(t, lam, N)
        S.setups[i] = {"N": N, "T": t, "S": s_, "j": {"n": format(N, "064x"), "t": format(t, "064x"), "s": format(s_, "064x")}}
    return S.setups[i]
