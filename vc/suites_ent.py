"""Conformance suites of secret sharing, key shares, signatures and key derivation (C21..C25)."""
import itertools
from suites import *


def hq(P, x):
    return format(x % P["q"], "x")


def lagrange0(ids, i, q):
    r = 1
    for j in ids:
        if j != i:
            r = r * j * pow(j - i, -1, q) % q
    return r


def recombine(pairs, q):
    ids = [i for i, _ in pairs]
    return sum(v * lagrange0(ids, i, q) for i, v in pairs) % q


@suite("C21")
def shamir(S):
    rnd, P = S.rnd, params(S)
    q = P["q"]
    gen = {}

    def pt(x):
        x %= q
        if x not in gen:
            gen[x] = S.get("curve.mul_gen", a=hq(P, x))
        return gen[x]
    for n in (0, 1, 2, 3, 5, 8):
        S.expect("evaluation points are distinct and not zero", lambda l, n=n: len(l) == n and len(set(l)) == n and 0 not in l, "tools.eval_points", lambda l: [hexint(x) for x in l], n=n)
    for n in (1, 2, 3, 4, 5, 6):
        for t in range(1, n + 1):
            for _ in range(S.K(2)):
                a = rnd.choice([0, 1, q - 1, rnd.randrange(q)])
                ids = list(range(1, n + 1)) if rnd.random() < 0.5 else rnd.sample(range(1, 1 << 20), n)
                sh = S.expect("shares are produced", lambda l, n=n: len(l) == n, "tools.split", lambda l: [(hexint(i), hexint(v)) for i, v in l], ids=[format(i, "x") for i in ids], t=t, a=hq(P, a), seed=rnd.getrandbits(30))
                if not isinstance(sh, list):
                    continue
                S.check("shares keep their indices", sorted(i for i, _ in sh) == sorted(ids), "tools.split", {"ids": ids, "t": t}, sh, ids)
                subsets = [c for c in itertools.combinations(sh, t)]
                for c in rnd.sample(subsets, min(len(subsets), 4)):
                    S.check("any t shares determine the secret", recombine(c, q) == a, "tools.split", {"ids": ids, "t": t, "a": a, "subset": [i for i, _ in c]}, recombine(c, q), a)
                # shares not on a polynomial of a lower degree
                if t > 1:
                    for c in itertools.islice(itertools.combinations(sh, t - 1), 2):
                        S.check("fewer shares do not determine the secret", recombine(c, q) != a, "tools.split", {"ids": ids, "t": t, "a": a}, a, "another value")
                for k in range(t, n + 1):
                    c = rnd.sample(sh, k)
                    pairs = [[format(i, "x"), hq(P, v)] for i, v in c]
                    S.expect("recombination of at least t shares", a, "tools.join", hexint, pairs=pairs)
                    S.expect("recombination in the exponent", pt(a), "tools.join_points", pairs=pairs)
    for _ in range(S.K(20)):
        k = rnd.randrange(1, 6)
        c = [(i, rnd.randrange(q)) for i in rnd.sample(range(1, 1 << 31), k)]
        pairs = [[format(i, "x"), hq(P, v)] for i, v in c]
        S.expect("recombination of any values", recombine([(i % q, v) for i, v in c], q), "tools.join", hexint, pairs=pairs)
        S.expect("recombination in the exponent", pt(recombine([(i % q, v) for i, v in c], q)), "tools.join_points", pairs=pairs)
        i = c[0][0]
        S.expect("interpolation coefficient", lagrange0([x % q for x, _ in c], i % q, q), "tools.coeff", hexint, ids=[format(x, "x") for x, _ in c], x=format(i, "x"))
    for t in range(1, 6):
        for _ in range(S.K(3)):
            a = rnd.randrange(1, q)
            xs = [1, 2, 3, rnd.randrange(1, 1 << 30)] + list(range(4, 4 + t))
            p = S.get("tools.poly", t=t, a=hq(P, a), seed=rnd.getrandbits(30), xs=[format(x, "x") for x in xs])
            ys = [hexint(y) for y in p["secret"]]
            S.check("constant term of the public polynomial", p["coeff0"] == pt(a), "tools.poly", {"t": t, "a": a}, p["coeff0"], pt(a))
            S.check("public polynomial has t coefficients", len(p["public"]) == t, "tools.poly", {"t": t, "a": a}, len(p["public"]), t)
            S.check("polynomial value at zero", recombine(list(zip(xs, ys))[-t - 1:], q) == a, "tools.poly", {"t": t, "a": a}, ys, a)
            for x, y in zip(xs, ys):
                S.expect("public evaluation matches secret evaluation", pt(y), "tools.pub_eval", public=p["public"], x=format(x, "x"))


def share_vals(j, name):
    return {i: v for i, v in j[name]}


@suite("C22")
def threshold(S):
    rnd, P = S.rnd, params(S)
    q = P["q"]
    pt = lambda x: S.get("curve.mul_gen", a=hq(P, x))
    for n, t in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (5, 3), (6, 4)):
        for _ in range(S.K(2)):
            ids = sorted(rnd.sample(range(1, 1000), n))
            a = rnd.randrange(1, q)
            l = S.expect("threshold shares are produced", lambda l, n=n: isinstance(l, list) and len(l) == n, "tools.tks_new", ids=ids, t=t, seed=rnd.getrandbits(30), sk=hq(P, a))
            if not isinstance(l, list):
                continue
            g = pt(a)
            secs = {x["id"]: hexint(x["share"]["secret_share"]) for x in l}
            sid = {i: hexint(v) for i, v in l[0]["share"]["share_ids"]}
            for x in l:
                S.check("all shares correspond to the same key", x["vkey"] == g, "tools.tks_new", {"ids": ids, "t": t, "a": a}, x["vkey"], g)
                S.check("owner's public share", strip0x(share_vals(x["share"], "public_shares")[x["id"]]) == pt(secs[x["id"]])["c"], "tools.tks_new", {"ids": ids, "t": t}, x["share"], "g^secret")
                S.check("public data agree", x["share"]["public_shares"] == l[0]["share"]["public_shares"] and x["share"]["share_ids"] == l[0]["share"]["share_ids"], "tools.tks_new", {"ids": ids, "t": t}, x["share"], l[0]["share"])
                S.expect("verifying key of a threshold share", g, "tools.tks_vkey", share=x["share"])
            subs = [c for c in itertools.combinations(range(n), t)]
            for c in rnd.sample(subs, min(3, len(subs))):
                sub = [l[i] for i in c]
                S.check("any t shares determine the key", recombine([(sid[x["id"]], secs[x["id"]]) for x in sub], q) == a, "tools.tks_new", {"ids": ids, "t": t}, secs, a)
                tot, pubs = 0, None
                for x in sub:
                    r = S.expect("additive shares are produced", lambda r: isinstance(r, dict), "tools.tks_to_ks", share=x["share"], ids=[y["id"] for y in sub])
                    if not isinstance(r, dict):
                        break
                    S.check("the key is preserved", r["vkey"] == g, "tools.tks_to_ks", {"share": x["share"], "ids": [y["id"] for y in sub]}, r["vkey"], g)
                    s_ = hexint(r["share"]["secret"])
                    tot += s_
                    S.check("owner's public share", strip0x(share_vals(r["share"], "public")[x["id"]]) == pt(s_)["c"], "tools.tks_to_ks", {"share": x["share"]}, r["share"], "g^secret")
                    S.check("public data agree", pubs in (None, r["share"]["public"]) and sorted(i for i, _ in r["share"]["public"]) == sorted(y["id"] for y in sub), "tools.tks_to_ks", {"share": x["share"]}, r["share"]["public"], pubs)
                    pubs = r["share"]["public"]
                else:
                    S.check("additive shares sum to the key", tot % q == a, "tools.tks_to_ks", {"ids": [y["id"] for y in sub], "a": a}, tot % q, a)
    for n in (1, 2, 3, 5):
        ids = sorted(rnd.sample(range(1, 1000), n))
        a = rnd.randrange(1, q)
        l = S.get("tools.ks_new", ids=ids, seed=rnd.getrandbits(30), sk=hq(P, a))
        g = pt(a)
        out = []
        for x in l:
            r = S.expect("threshold share is produced", lambda r: isinstance(r, dict), "tools.tks_from_ks", share=x["share"])
            if not isinstance(r, dict):
                break
            out.append(r)
            S.expect("the key is preserved", g, "tools.tks_vkey", share=r)
            S.check("owner's public share", strip0x(share_vals(r, "public_shares")[x["id"]]) == pt(hexint(r["secret_share"]))["c"], "tools.tks_from_ks", {"share": x["share"]}, r, "g^secret")
            back = S.get("tools.tks_to_ks", share=r, ids=ids)
            S.check("conversion back", back["share"] == x["share"], "tools.tks_from_ks", {"share": x["share"]}, back["share"], x["share"])
        if len(out) == n:
            sid = {i: hexint(v) for i, v in out[0]["share_ids"]}
            v = recombine([(sid[r["owner"]], hexint(r["secret_share"])) for r in out], q)
            S.check("shares determine the key", v == a and out[0]["threshold"] == n, "tools.tks_from_ks", {"ids": ids, "a": a}, v, a)
    S.expect("impossible threshold refused", REJECT, "tools.tks_new", ids=[1, 2], t=3, seed=1, sk="5")


@suite("C23")
def keyshares(S):
    rnd, P = S.rnd, params(S)
    q = P["q"]
    pt = lambda x: S.get("curve.mul_gen", a=hq(P, x))
    for n in (1, 2, 3, 5):
        for _ in range(S.K(3)):
            ids = sorted(rnd.sample(range(1, 1000), n))
            a = rnd.randrange(1, q)
            l = S.get("tools.ks_new", ids=ids, seed=rnd.getrandbits(30), sk=hq(P, a))
            g = pt(a)
            secs = [hexint(x["share"]["secret"]) for x in l]
            S.check("shares sum to the key", sum(secs) % q == a and [x["id"] for x in l] == ids, "tools.ks_new", {"ids": ids, "a": a}, secs, a)
            S.check("shares are not degenerate", n == 1 or (len(set(secs)) == n and a not in secs), "tools.ks_new", {"ids": ids, "a": a}, secs, "distinct")
            for x, s_ in zip(l, secs):
                S.check("verifying key", x["vkey"] == g, "tools.ks_new", {"ids": ids, "a": a}, x["vkey"], g)
                S.check("public shares", x["share"]["public"] == l[0]["share"]["public"] and strip0x(share_vals(x["share"], "public")[x["id"]]) == pt(s_)["c"], "tools.ks_new", {"ids": ids, "a": a}, x["share"], "g^secret")
                S.expect("verifying key after a round trip", g, "tools.ks_vkey", share=x["share"])
            # a refresh: changes that add up to zero
            if n > 1:
                d = [rnd.randrange(1, q) for _ in range(n - 1)]
                d.append(-sum(d) % q)
                if 0 in d or any((x + y) % q == 0 for x, y in zip(secs, d)):
                    continue
                pubs = [[i, "0x" + pt(x)["c"]] for i, x in zip(ids, d)]
                new = []
                for k, x in enumerate(l):
                    ch = {"owner": ids[k], "secret_share_change": "0x" + d[k].to_bytes(P["repr"], "big").hex(), "public_share_changes": pubs}
                    r = S.expect("refreshed share", lambda r: isinstance(r, dict), "tools.ks_update", share=x["share"], change=ch)
                    if not isinstance(r, dict):
                        break
                    new.append(r)
                    S.check("refreshed secret", hexint(r["secret"]) == (secs[k] + d[k]) % q, "tools.ks_update", {"share": x["share"], "change": ch}, r["secret"], (secs[k] + d[k]) % q)
                    S.expect("the key is preserved", g, "tools.ks_vkey", share=r)
                    S.check("refreshed public shares", all(strip0x(v) == pt(secs[ids.index(i)] + d[ids.index(i)])["c"] for i, v in r["public"]) and len(r["public"]) == n, "tools.ks_update", {"share": x["share"], "change": ch}, r["public"], "old + change")
                    S.expect("change of another party refused", REJECT, "tools.ks_update", share=x["share"], change=dict(ch, owner=ids[(k + 1) % n]))
                    S.expect("incomplete change refused", REJECT, "tools.ks_update", share=x["share"], change=dict(ch, public_share_changes=pubs[:-1]))
                    bad = [[1001, pubs[0][1]]] + pubs[1:]
                    S.expect("change for other parties refused", REJECT, "tools.ks_update", share=x["share"], change=dict(ch, public_share_changes=sorted(bad)))
    for n in (1, 2):
        ids = sorted(rnd.sample(range(1, 1000), n + 1))
        l = S.get("tools.aux_new", ids=ids, seed=rnd.getrandbits(30))
        for x in l:
            a = x["aux"]
            S.check("auxiliary data of every party", a["owner"] == x["id"] and sorted(i for i, _ in a["public"]) == ids and a["public"] == l[0]["aux"]["public"], "tools.aux_new", {"ids": ids}, a, ids)
            pr = [hexint(y) for y in _leaf(a["secret"])]
            own = dict((i, v) for i, v in a["public"])[x["id"]]
            S.check("own Paillier key", len(pr) == 2 and pr[0] * pr[1] in [hexint(y) for y in _leaf(own)], "tools.aux_new", {"ids": ids}, own, "product of the secret primes")
            keep = sorted({x["id"]} | set(rnd.sample(ids, n)))
            r = S.expect("subset of auxiliary data", lambda r: isinstance(r, dict), "tools.aux_subset", aux=a, ids=keep)
            if isinstance(r, dict):
                S.check("subset of auxiliary data: content", r["public"] == [e for e in a["public"] if e[0] in keep] and r["secret"] == a["secret"] and r["owner"] == a["owner"], "tools.aux_subset", {"ids": keep}, r, "the kept parties")
            S.expect("subset without the owner refused", REJECT, "tools.aux_subset", aux=a, ids=[i for i in ids if i != x["id"]])
            S.expect("subset with unknown parties refused", REJECT, "tools.aux_subset", aux=a, ids=keep + [2000])
    sids = {}
    for ids in ([1], [2], [1, 2], [1, 3], [2, 3], [1, 2, 3]):
        for r in ("", "00", "0000", "01", "0100", "01000000"):
            v = json.dumps(S.get("tools.sid", ids=ids, rnd=r))
            S.check("session identifiers differ", v not in sids, "tools.sid", {"ids": ids, "rnd": r, "same_as": sids.get(v)}, v, "another identifier")
            sids[v] = (ids, r)


def _leaf(j):
    if isinstance(j, dict):
        for x in j.values():
            yield from _leaf(x)
    elif isinstance(j, list):
        for x in j:
            yield from _leaf(x)
    elif isinstance(j, str):
        yield j


@suite("C24")
def recoverable(S):
    rnd, P = S.rnd, params(S)
    q = P["q"]
    for _ in range(S.K(40)):
        x, k, m = (rnd.randrange(1, q) for _ in range(3))
        m = rnd.choice([m, m, 0, 1, q - 1])
        r = hexint(S.get("curve.x_coord", a=hq(P, k)))
        s_ = pow(k, -1, q) * (m + r * x) % q
        if r == 0 or s_ == 0:
            continue
        for sv in (s_, q - s_):
            j = S.expect("signature is built", lambda j: isinstance(j, dict), "curve.recoverable", r=hq(P, r), s=hq(P, sv), vkey=hq(P, x), m=hq(P, m))
            if isinstance(j, dict):
                ok = j["verifies"] and j["recovers"] and not j["high"] and hexint(j["r"]) == r and hexint(j["s"]) == min(s_, q - s_)
                S.check("signature verifies, recovers the key and is normalized", ok, "curve.recoverable", {"r": hq(P, r), "s": hq(P, sv), "vkey": hq(P, x), "m": hq(P, m)}, j, "valid, recovering, low s")
        for bad in ({"s": hq(P, s_ + 1 if (s_ + 1) % q else 1)}, {"m": hq(P, m + 1)}, {"vkey": hq(P, x + 1 if (x + 1) % q else 2)}, {"r": "0"}, {"s": "0"}):
            kw = dict({"r": hq(P, r), "s": hq(P, s_), "vkey": hq(P, x), "m": hq(P, m)}, **bad)
            S.expect("scalars that are not a signature are refused", lambda j: j is None or (isinstance(j, dict) and j["verifies"] and j["recovers"]), "curve.recoverable", **kw)
    S.expect("neutral verifying key refused", None, "curve.recoverable", r="5", s="5", vkey="0", m="1")


@suite("C25")
def derivation(S):
    rnd, P = S.rnd, params(S)
    q = P["q"]
    pt = lambda x: S.get("curve.mul_gen", a=hq(P, x))
    seen = {}
    for n, t in ((2, 2), (3, 2), (5, 3), (3, 1)):
        for path in ("m", "m/0", "m/1", "m/0/1", "m/1/0", "m/2147483647", "m/1/2/3", "m/0/0"):
            ids = sorted(rnd.sample(range(1, 1000), n))
            a = rnd.randrange(1, q) if (n, t) != (2, 2) else 12345
            l = S.get("tools.tks_new", ids=ids, t=t, seed=rnd.getrandbits(30), sk=hq(P, a))
            ds = []
            for x in l:
                r = S.expect("derived share", lambda r: isinstance(r, dict), "tools.tks_bip32", share=x["share"], path=path)
                if not isinstance(r, dict):
                    break
                ds.append(r)
            if len(ds) != n:
                continue
            sid = {i: hexint(v) for i, v in ds[0]["share"]["share_ids"]}
            secs = {d["share"]["owner"]: hexint(d["share"]["secret_share"]) for d in ds}
            for d, x in zip(ds, l):
                S.check("derived key of every share", d["vkey"] == ds[0]["vkey"] == d["top"] == d["via"], "tools.tks_bip32", {"share": x["share"], "path": path}, [d["vkey"], d["top"], d["via"]], ds[0]["vkey"])
                S.check("derived public shares", all(strip0x(v) == pt(secs[i])["c"] for i, v in d["share"]["public_shares"]) and len(d["share"]["public_shares"]) == n, "tools.tks_bip32", {"share": x["share"], "path": path}, d["share"], "g^secret")
                S.check("derived share keeps its identity", all(d["share"][k] == x["share"][k] for k in ("owner", "threshold", "share_ids")), "tools.tks_bip32", {"share": x["share"], "path": path}, d["share"], x["share"])
            for c in rnd.sample(list(itertools.combinations(ids, t)), 1):
                v = recombine([(sid[i], secs[i]) for i in c], q)
                S.check("derived shares determine the derived key", pt(v) == ds[0]["vkey"], "tools.tks_bip32", {"ids": ids, "t": t, "path": path}, v, ds[0]["vkey"])
                if path == "m":
                    S.check("empty path changes nothing", v == a, "tools.tks_bip32", {"ids": ids, "t": t, "path": path}, v, a)
            if (n, t) == (2, 2):
                k = json.dumps(ds[0]["vkey"])
                S.check("different paths give different keys", k not in seen, "tools.tks_bip32", {"path": path, "same_as": seen.get(k)}, k, "another key")
                seen[k] = path
    x = S.get("tools.tks_new", ids=[1, 2], t=2, seed=3, sk="7")[0]
    S.expect("hardened derivation refused", REJECT, "tools.tks_bip32", share=x["share"], path="m/0'")
