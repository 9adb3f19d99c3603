"""Conformance suites of the zero-knowledge proofs (C13..C20): honest proofs are accepted, statements that are not
true, other statements, other contexts and modified proofs are not."""
import base64, copy
from suites import *

AUX = "61626364"


def hs(P, x):
    return format(x % P["q"], "x")


def flip_hex(h):
    """another hex string of the same length: lowest bit of the last byte"""
    return h[:-1] + format(int(h[-1], 16) ^ 1, "x")


def leaves(j, path=()):
    if isinstance(j, dict):
        for k in j:
            yield from leaves(j[k], path + (k,))
    elif isinstance(j, list):
        for i, x in enumerate(j):
            yield from leaves(x, path + (i,))
    else:
        yield path, j


def lists(j, path=()):
    if isinstance(j, list) and j:
        yield path, j
    if isinstance(j, (dict, list)):
        for k, x in (j.items() if isinstance(j, dict) else enumerate(j)):
            yield from lists(x, path + (k,))


def at(j, path):
    for k in path:
        j = j[k]
    return j


def put(j, path, v):
    if not path:
        return v
    j = copy.deepcopy(j)
    at(j, path[:-1])[path[-1]] = v
    return j


def signed_of(v):
    """the integer in a serialized signed value, or None"""
    if isinstance(v, dict) and len(v) == 3:
        b = [x for x in v.values() if isinstance(x, bool)]
        h = [x for x in v.values() if isinstance(x, str)]
        if len(b) == 1 and len(h) == 1 and h[0].startswith("0x"):
            a = int(h[0][2:] or "0", 16)
            return -a if b[0] else a
    return None


def not_true(r):
    """not accepted"""
    return r is not True


class Proof:
    def __init__(self, S, kind, setup=None, aux=AUX):
        self.S, self.kind, self.setup, self.aux = S, kind, setup, aux

    def args(self, **kw):
        a = {"proof": self.kind, "aux": kw.pop("aux", self.aux)}
        if self.setup is not None:
            a["setup"] = self.setup
        a.update(kw)
        return a

    def prove(self, w, pub, **kw):
        return outcome(self.S.call("zk.prove", **self.args(w=w, pub=pub, **kw)))

    def honest(self, w, pub, what="honest proof", **kw):
        j = self.prove(w, pub, **kw)
        if not isinstance(j, dict):
            self.S.check(what + " is accepted", False, "zk.prove", self.args(w=w, pub=pub, **kw), j, "a proof")
            return None
        kw.pop("seed", None), kw.pop("script", None)
        self.S.expect(what + " is accepted", True, "zk.verify", **self.args(pub=pub, json=j, **kw))
        return j

    def refuse(self, what, pub, j, **kw):
        self.S.expect(what, not_true, "zk.verify", **self.args(pub=pub, json=j, **kw))

    def tamper(self, pub, j, limit=400):
        S = self.S
        ls = [(p, v) for p, v in leaves(j) if not isinstance(v, int) or isinstance(v, bool)]
        if len(ls) > limit:
            ls = S.rnd.sample(ls, limit)
        for p, v in ls:
            if isinstance(v, bool):
                a = signed_of(at(j, p[:-1])) if len(p) else None
                if a == 0:
                    continue
                self.refuse("modified proof: " + str(p[-1]), pub, put(j, p, not v))
            elif isinstance(v, str) and v.startswith("0x") and len(v) > 2:
                self.refuse("modified proof: " + str(p[-1]), pub, put(j, p, flip_hex(v)))
            elif isinstance(v, str) and v:
                self.refuse("modified proof: " + str(p[-1]), pub, put(j, p, ("A" if v[0] != "A" else "B") + v[1:]))
        top = list(lists(j))
        for p, l in top:
            self.refuse("proof with missing parts: " + str(p[-1] if p else ""), pub, put(j, p, l[:-1]))
            self.refuse("proof with missing parts: " + str(p[-1] if p else ""), pub, put(j, p, []))
            self.refuse("proof with extra parts: " + str(p[-1] if p else ""), pub, put(j, p, l + [l[-1]]))
            if len(l) > 1 and l[0] != l[1]:
                self.refuse("proof with reordered parts: " + str(p[-1] if p else ""), pub, put(j, p, [l[1], l[0]] + l[2:]))
        k = j
        for p, l in top:
            if not any(isinstance(i, int) for i in p):
                k = put(k, p, [])
        if top:
            self.refuse("proof with missing parts: all", pub, k)

    def contexts(self, pub, j, others, setups=()):
        self.refuse("other context", pub, j, aux="")
        self.refuse("other context", pub, j, aux=self.aux[:-2] + "65")
        self.refuse("other context", pub, j, aux=self.aux + "00")
        for name, p2 in others:
            self.refuse("other statement: " + name, p2, j)
        for s2 in setups:
            self.refuse("other setup", pub, j, setup=s2)

    def false(self, w, pub, name, **kw):
        """the prover run on a statement that does not hold"""
        j = self.prove(w, pub, **kw)
        if isinstance(j, dict):
            kw.pop("seed", None)
            self.refuse("false statement: " + name, pub, j, **kw)

    def extremes(self, w, pub, fields, offsets, width=40):
        """prover's randomness pushed to its extremes; acceptance must coincide with all responses being in range"""
        S = self.S
        seen = {True: 0, False: 0}
        for off in offsets:
            for fillb in ("ff", "00"):
                seed = S.rnd.getrandbits(30)
                pre = bytes(S.rnd.getrandbits(8) for _ in range(off)).hex()
                j = self.prove(w, pub, seed=seed, script=pre + fillb * width)
                if not isinstance(j, dict):
                    continue
                vals = []
                for p, v in nodes(j):
                    if p and p[-1] in fields:
                        x = signed_of(v)
                        if x is None:
                            return
                        vals.append((p, x, fields[p[-1]]))
                if {p[-1] for p, _, _ in vals} != set(fields):
                    return
                ok = all(in_range(x, e) for _, x, e in vals)
                seen[ok] += 1
                S.expect("acceptance and response ranges", (lambda r, ok=ok: (r is True) == ok), "zk.verify", **self.args(pub=pub, json=j))
        S.seen = getattr(S, 'seen', []) + [seen]
        return seen


def nodes(j, path=()):
    yield path, j
    if isinstance(j, (dict, list)):
        for k, x in (j.items() if isinstance(j, dict) else enumerate(j)):
            yield from nodes(x, path + (k,))


def witness_range(rnd, e, n):
    h = 1 << (e - 1)
    out = [0, 1, -1, h, -h + 1, h - 1] + [rnd.randint(-h + 1, h) for _ in range(n)]
    return out


def sg(v, b=None):
    return sig(v, b if b is not None else max(1, bitlen(abs(v))), 256)


def other_pub(P, k, pub, points=(), cts=(), keys=()):
    """statements that differ in one item"""
    out = []
    for n in points:
        out.append((n, dict(pub, **{n: hs(P, int(pub[n], 16) + 1)})))
    for n, kk in cts:
        c = int(pub[n], 16)
        out.append((n, dict(pub, **{n: hexw(c * (1 + kk.N) % kk.N2, 512)})))
        out.append((n, dict(pub, **{n: hexw(c * pow(3, kk.N, kk.N2) % kk.N2, 512)})))
    for n, kk in keys:
        out.append((n, dict(pub, **{n: kk.j})))
    return out


# ------------------------------------------------------------------ C13
@suite("C13")
def enc_elg(S):
    rnd, P = S.rnd, params(S)
    q = P["q"]
    for i in range(2):
        k = key(S, i)
        st, st2 = SETUP(S, i), SETUP(S, i + 5)
        pr = Proof(S, "enc_elg", st["j"])

        def mk(x, xc=None, xx=None, rs=None, bb=None, e=None):
            seed = rnd.getrandbits(30)
            a, b = rnd.randrange(1, q), rnd.randrange(1, q)
            rho = k.rho(seed)
            w = {"x": sg(x, e), "rho": {"seed": seed}, "b": hs(P, b)}
            pub = {"k0": k.j, "c": hexw(k.enc(x if xc is None else xc, rho if rs is None else rs), 512), "a": hs(P, a),
                   "b": hs(P, b if bb is None else b + bb), "x": hs(P, a * b + (x if xx is None else xx))}
            return w, pub
        js = []
        for x in witness_range(rnd, P["L"], S.K(8)):
            w, pub = mk(x, e=rnd.choice([None, P["L"] + 1, 200]))
            js.append((w, pub, pr.honest(w, pub, seed=rnd.getrandbits(30))))
        for w, pub, j in js[-S.K(2):]:
            if j is None:
                continue
            pr.tamper(pub, j)
            pr.contexts(pub, j, other_pub(P, k, pub, ("a", "b", "x"), [("c", k)], [("k0", key(S, 1 - i))]), [st2["j"]])
        for _ in range(S.K(3)):
            x = rnd.randint(-2 ** 30, 2 ** 30)
            for name, kw in (("encrypted value", {"xc": x + 1}), ("encrypted value", {"xc": x + q}), ("exponent", {"xx": x + 1}), ("randomizer", {"rs": 5}), ("second exponent", {"bb": 1}), ("sign", {"xc": -x}), ("sign of the exponent", {"xx": -x})):
                w, pub = mk(x, **kw)
                pr.false(w, pub, name, seed=rnd.getrandbits(30))
        for x in (1 << (P["L"] - 1), -(1 << (P["L"] - 1)) + 1):
            w, pub = mk(x)
            pr.extremes(w, pub, {"z1": P["L"] + P["EPS"]}, range(0, 24, 4), width=16)
            pr.extremes(w, pub, {"z1": P["L"] + P["EPS"]}, range(24, 280, 16), width=64)


# ------------------------------------------------------------------ C14, C15
def affine(S, kind, ranges, heavy):
    rnd, P = S.rnd, params(S)
    q = P["q"]
    for i in range(2 if not heavy else 1):
        k0, k1 = key(S, i), key(S, 1 - i)
        st, st2 = SETUP(S, i), SETUP(S, i + 5)
        pr = Proof(S, kind, st["j"] if kind == "aff_g" else None)

        def mk(x, y, dx=0, dy=0, dr=1, yy=0, yr=1, xx=0, neg=False):
            s1, s2 = rnd.getrandbits(30), rnd.getrandbits(30)
            r0, r1 = k0.rho(s1), k1.rho(s2)
            c = k0.enc(rnd.randrange(k0.N), rnd.randrange(2, k0.N))
            d = pow(c, x + dx, k0.N2) * k0.enc((y + dy) if neg else -(y + dy), r0 * dr) % k0.N2
            w = {"x": sg(x), "y": sg(y), "rho": {"seed": s1}, "rho_y": {"seed": s2}}
            pub = {"k0": k0.j, "k1": k1.j, "c": hexw(c, 512), "d": hexw(d, 512), "y": hexw(k1.enc(y + yy, r1 * yr), 512), "x": hs(P, x + xx)}
            return w, pub
        js = []
        # a multiplier that is a multiple of the order has no exponent to commit to
        xs, ys = [x for x in witness_range(rnd, P["L"], S.K(2 if heavy else 6)) if x % q], witness_range(rnd, P["LP"], S.K(2 if heavy else 6))
        rnd.shuffle(ys)
        for x, y in zip(xs, ys):
            w, pub = mk(x, y)
            js.append((w, pub, pr.honest(w, pub, seed=rnd.getrandbits(30))))
        for w, pub, j in js[-S.K(1 if heavy else 2):]:
            if j is None:
                continue
            pr.tamper(pub, j, limit=S.K(120))
            pr.contexts(pub, j, other_pub(P, k0, pub, ("x",), [("c", k0), ("d", k0), ("y", k1)], [("k0", k1), ("k1", k0)]), [st2["j"]] if kind == "aff_g" else [])
        for _ in range(S.K(1 if heavy else 3)):
            x, y = rnd.randint(-2 ** 30, 2 ** 30), rnd.randint(-2 ** 150, 2 ** 150)
            for name, kw in (("multiplier", {"dx": 1}), ("multiplier", {"dx": q}), ("addend", {"dy": 1}), ("addend's sign", {"neg": True}), ("first randomizer", {"dr": 3}), ("encrypted addend", {"yy": 1}),
                             ("encrypted addend", {"yy": q}), ("second randomizer", {"yr": 3}), ("exponent", {"xx": 1})):
                w, pub = mk(x, y, **kw)
                pr.false(w, pub, name, seed=rnd.getrandbits(30))
        for x, y in ((1 << (P["L"] - 1), -(1 << (P["LP"] - 1)) + 1), (-(1 << (P["L"] - 1)) + 1, 1 << (P["LP"] - 1))):
            w, pub = mk(x, y)
            pr.extremes(w, pub, ranges, range(0, 80, 8 if heavy else 4), width=16)
            pr.extremes(w, pub, ranges, range(0, 60, 12), width=28)


@suite("C14")
def aff_g(S):
    P = params(S)
    affine(S, "aff_g", {"z1": P["L"] + P["EPS"], "z2": P["LP"] + P["EPS"]}, False)


@suite("C15")
def aff_g_star(S):
    P = params(S)
    affine(S, "aff_g_star", {"z": P["L"] + P["EPS"], "z_prime": P["LP"] + P["EPS"]}, True)


# ------------------------------------------------------------------ C16
@suite("C16")
def dec(S):
    rnd, P = S.rnd, params(S)
    q = P["q"]
    k = key(S, 0)
    st, st2 = SETUP(S, 0), SETUP(S, 5)
    pr = Proof(S, "dec", st["j"])
    clog = lambda n: (n - 1).bit_length()

    def mk(x, y, n, dx=0, dy=0, dr=1, xx=0, ss=0, kg=0):
        s1 = rnd.getrandbits(30)
        r = k.rho(s1)
        g = rnd.randrange(1, q)
        cap_k = k.enc(rnd.randrange(k.N), rnd.randrange(2, k.N))
        d = k.enc(y + dy, r * dr) * pow(cap_k, -(x + dx), k.N2) % k.N2
        w = {"x": sg(x), "y": sg(y), "rho": {"seed": s1}}
        pub = {"k0": k.j, "k": hexw(cap_k, 512), "x": hs(P, x + xx), "d": hexw(d, 512), "g": hs(P, g), "s": hs(P, g * (y + ss)), "n": n}
        return w, pub
    js = []
    for n in (2, 3, 4, 5, 9, 33):
        e = P["LP"] + P["EPS"] + 1 + clog_code(n)
        for x, y in zip(witness_range(rnd, P["L"], 1)[-S.K(2):], reversed(witness_range(rnd, e, 1)[-S.K(3):])):
            w, pub = mk(x, y, n)
            js.append((w, pub, pr.honest(w, pub, seed=rnd.getrandbits(30))))
    for w, pub, j in js[-1:]:
        if j is None:
            continue
        pr.tamper(pub, j, limit=S.K(120))
        pr.contexts(pub, j, other_pub(P, k, pub, ("x", "s", "g"), [("k", k), ("d", k)], [("k0", key(S, 1))]), [st2["j"]])
    for _ in range(S.K(1)):
        x, y = rnd.randint(-2 ** 30, 2 ** 30), rnd.randint(-2 ** 150, 2 ** 150)
        for name, kw in (("multiplier", {"dx": 1}), ("plaintext", {"dy": 1}), ("plaintext", {"dy": q}), ("randomizer", {"dr": 3}), ("exponent", {"xx": 1}), ("plaintext in the exponent", {"ss": 1})):
            w, pub = mk(x, y, 3, **kw)
            pr.false(w, pub, name, seed=rnd.getrandbits(30))
    n = 3
    e = P["LP"] + P["EPS"] + 1 + clog_code(n)
    for x, y in ((1 << (P["L"] - 1), -(1 << (e - 1)) + 1), (-(1 << (P["L"] - 1)) + 1, 1 << (e - 1))):
        w, pub = mk(x, y, n)
        pr.extremes(w, pub, {"z": P["L"] + P["EPS"], "w": e + P["EPS"]}, range(0, 80, 8), width=16)
        pr.extremes(w, pub, {"z": P["L"] + P["EPS"], "w": e + P["EPS"]}, range(0, 60, 12), width=40)


def clog_code(n):
    return (n - 1).bit_length()


# ------------------------------------------------------------------ C17
@suite("C17")
def elog(S):
    rnd, P = S.rnd, params(S)
    q = P["q"]
    pr = Proof(S, "elog")

    def mk(y, lam, l=0, m=0, yy=0, h=None):
        x, h = rnd.randrange(1, q), h or rnd.randrange(1, q)
        return {"y": hs(P, y), "lambda": hs(P, lam)}, {"l": hs(P, lam + l), "m": hs(P, y + lam * x + m), "x": hs(P, x), "y": hs(P, h * y + yy), "h": hs(P, h)}
    js = []
    for y, lam in [(1, 1), (q - 1, 1), (1, q - 1), (q // 2, q // 2 + 1)] + [(rnd.randrange(1, q), rnd.randrange(1, q)) for _ in range(S.K(12))]:
        w, pub = mk(y, lam)
        js.append((pub, pr.honest(w, pub, seed=rnd.getrandbits(30))))
    for pub, j in js[-S.K(4):]:
        if j is None:
            continue
        pr.tamper(pub, j)
        pr.contexts(pub, j, other_pub(P, None, pub, ("l", "m", "x", "y", "h")))
        # two items exchanged
        for a, b in (("l", "m"), ("x", "y"), ("y", "h"), ("l", "y")):
            pr.refuse("other statement: exchanged items", dict(pub, **{a: pub[b], b: pub[a]}), j)
    for _ in range(S.K(6)):
        for name, kw in (("first", {"l": 1}), ("second", {"m": 1}), ("third", {"yy": 1}), ("third", {"yy": rnd.randrange(1, q)})):
            for h in (None, 1):
                w, pub = mk(rnd.randrange(1, q), rnd.randrange(1, q), h=h, **kw)
                pr.false(w, pub, name + " equation", seed=rnd.getrandbits(30))


@suite("C17")
def sch(S):
    rnd, P = S.rnd, params(S)
    q = P["q"]
    pr = Proof(S, "sch")
    for x in [1, 2, q - 1, q // 2] + [rnd.randrange(1, q) for _ in range(S.K(12))]:
        pub = {"x": hs(P, x)}
        j = pr.honest({"x": hs(P, x)}, pub, seed=rnd.getrandbits(30))
        if j is None:
            continue
        pr.tamper(pub, j)
        pr.contexts(pub, j, [("x", {"x": hs(P, x + 1)}), ("x", {"x": hs(P, -x)})])
        pr.false({"x": hs(P, x)}, {"x": hs(P, x + 1 if (x + 1) % q else x + 2)}, "exponent", seed=rnd.getrandbits(30))


# ------------------------------------------------------------------ C18
@suite("C18")
def fac(S):
    rnd, P = S.rnd, params(S)
    for i in range(3):
        k = key(S, i)
        st, st2 = SETUP(S, i), SETUP(S, i + 5)
        pr = Proof(S, "fac", st["j"])
        pub = {"k0": k.j}
        for n in range(S.K(3)):
            j = pr.honest({"k": k.j}, pub, seed=rnd.getrandbits(30))
            if j is None:
                continue
            if n < 2:
                pr.tamper(pub, j)
                pr.contexts(pub, j, [("k0", {"k0": key(S, (i + 1) % 3).j})], [st2["j"]])
        e = P["L"] + P["EPS"] + P["PRIME_BITS"] - 2
        pr.extremes({"k": k.j}, pub, {"z1": e, "z2": e}, range(0, 64, 8), width=40)
        pr.extremes({"k": k.j}, pub, {"z1": e, "z2": e}, range(0, 64, 4), width=20)
    # factors of very different sizes
    r = random.Random(3)
    def odd_prime(bits):
        while True:
            p = r.getrandbits(bits) | 1 << (bits - 1) | 1
            if is_prime(p):
                return p
    # the prover asked to prove a modulus of other factors
    pr = Proof(S, "fac", SETUP(S, 0)["j"])
    for a, b in ((0, 1), (1, 2)):
        j = pr.prove({"k": key(S, a).j}, {"k0": key(S, a).j}, seed=5)
        if isinstance(j, dict):
            pr.refuse("false statement: other modulus", {"k0": key(S, b).j}, j)


# ------------------------------------------------------------------ C19
@suite("C19")
def mod_(S):
    rnd = S.rnd
    for i in range(3):
        k = key(S, i)
        pr = Proof(S, "mod")
        pub = {"k0": k.j}
        for n in range(S.K(2)):
            j = pr.honest({"k": k.j}, pub, seed=rnd.getrandbits(30))
            if j is None:
                continue
            if n == 0:
                pr.tamper(pub, j, limit=S.K(100))
                pr.contexts(pub, j, [("k0", {"k0": key(S, (i + 1) % 3).j})])


# ------------------------------------------------------------------ C20
@suite("C20")
def prm(S):
    rnd = S.rnd
    for i in range(S.K(2, 4)):
        seed = 21 + i
        s = S.get("pai.rp_new", seed=seed)
        st = {"n": s["n"], "t": s["t"], "s": s["s"]}
        N, t, sv = int(strip0x(s["n"]), 16), int(strip0x(s["t"]), 16), int(strip0x(s["s"]), 16)
        pr = Proof(S, "prm", st)
        w = {"seed": seed}
        for n in range(S.K(2)):
            j = pr.honest(w, {}, seed=rnd.getrandbits(30))
            if j is not None and n == 0:
                pr.tamper({}, j, limit=S.K(100))
                h = lambda x: format(x % N, "064x")
                pr.contexts({}, j, [], [{"n": st["n"], "t": st["t"], "s": h(sv * t)}, {"n": st["n"], "t": h(t * sv), "s": st["s"]}, SETUP(S, 0)["j"]])
        # parameters of another exponent
        for name, s2 in (("value", {"n": st["n"], "t": st["t"], "s": format(sv * t % N, "064x")}), ("value", {"n": st["n"], "t": st["t"], "s": format(-sv % N, "064x")}), ("base", {"n": st["n"], "t": format(t * t % N, "064x"), "s": st["s"]})):
            j = pr.prove(w, {}, setup=s2, seed=rnd.getrandbits(30))
            if isinstance(j, dict):
                pr.refuse("false statement: " + name, {}, j, setup=s2)
