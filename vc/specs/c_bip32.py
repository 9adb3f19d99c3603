"""Contracts of src/curve/bip32.rs and the derivation of threshold shares (src/entities/threshold.rs): any share count, any path length"""
from spec import *
from c_sss import *
from c_shares import *
import core, folds, lib, hashlib

VK, SKEY = "ecdsa::VerifyingKey", "ecdsa::SigningKey"
BP = "curve::bip32::"
REFUSALS = [True]          # may calls into the bip32 crate be refused?


def vkey(p):
    return Agg(VK, [p])


def skey(s):
    return Agg(SKEY, [s])


@builder(VK)
def b_vkey(ex, st, t, name):
    return vkey(nonzero_point(name))


def nonzero_point(name):
    p = Res(GROUP, w={name: (name, z3.IntVal(1))})
    fact("vk " + name, z3.Not(z3.simplify(res_eq(p, Res(GROUP, w={})))))
    return p


def D(ex, st, v):
    return ext.D(ex, st, v)


def handle(*ps):
    def d(f):
        for p in ps:
            lib.HANDLERS[p] = f
        return f
    return d


@handle("ecdsa::VerifyingKey::<C>::from_affine")
def vk_from(ex, st, c):
    p = r(D(ex, st, c.vals[0]))
    return lib.branches(ex, st, z3.Not(lib.is_id(p)), ok(vkey(p)), err(Op("ecdsa::Error")))


@handle("ecdsa::VerifyingKey::<C>::as_affine")
def vk_aff(ex, st, c):
    return ex.ref(st, D(ex, st, c.vals[0]).fs[0])


@contract(PT + "to_verifying_key", props=["C22", "C25"])
def p_vkey(a):
    p = r(a[0])
    good = z3.simplify(z3.Not(lib.is_id(p)))
    return [(good, some(vkey(p))), (z3.Not(good), NONE)]


@contract(PT + "from_verifying_key", props=["C25"])
def p_from_vkey(a):
    return [(TRUE, pnt(a[0].fs[0]))]


@handle("<elliptic_curve::SecretKey<C> as core::convert::From<&elliptic_curve::NonZeroScalar<C>>>::from")
def nz_sk(ex, st, c):
    return D(ex, st, c.vals[0])


@handle("<ecdsa::SigningKey<C> as core::convert::From<&elliptic_curve::SecretKey<C>>>::from")
def sk_skey(ex, st, c):
    return skey(r(D(ex, st, c.vals[0])))


@contract("curve::arithmetic::<impl tools::secret::Secret<curve::arithmetic::Scalar<P>>>::to_signing_key", props=["C23", "C25"])
def s_skey(a):
    z = z3.simplify(res_eq(r(a[0]), Res(QMOD, e=z3.IntVal(0))))
    return [(z3.Not(z), some(skey(r(a[0])))), (z, NONE)]


# the traits connecting the keys with the bip32 crate: the production implementation is checked against these contracts, the generic code uses them
K2 = "params::k256::<impl curve::bip32::%sTweakable for ecdsa::%s<<params::k256::ProductionParams112 as params::traits::SchemeParams>::Curve>>::"


def some_skey(ex, st, t, name):
    x = fresh_scalar(name)
    fact("sk " + name, as_int(x) >= 1, as_int(x) < Q)
    v = skey(x)
    return ex.ref(st, v) if isinstance(t, tuple) and t[0] == "ref" else v


def some_vkey(ex, st, t, name):
    v = vkey(nonzero_point(name))
    return ex.ref(st, v) if isinstance(t, tuple) and t[0] == "ref" else v


for _p, _b in ((K2 % ("Public", "VerifyingKey") + "tweakable_pk", some_vkey), (K2 % ("Public", "VerifyingKey") + "key_from_tweakable_pk", some_vkey),
               (K2 % ("Secret", "SigningKey") + "tweakable_sk", some_skey), (K2 % ("Secret", "SigningKey") + "key_from_tweakable_sk", some_skey)):
    contract(_p, props=["C25"], args={0: _b})(lambda a: [(TRUE, a[0])])


def refusal(ex, st, good):
    """outcome of a call that may be refused for reasons that are not modelled"""
    if not REFUSALS[0]:
        return good
    x = ext.draw(st, "refused", lambda x: [x >= 0, x <= 1])
    return lib.branches(ex, st, x == 0, good, err(Op("bip32::Error")))


def tweak(e):
    return Agg("tweak", [e])


@handle("bip32::PublicKey::derive_child")
def pk_child(ex, st, c):
    k, t = D(ex, st, c.vals[0]), D(ex, st, c.vals[1])
    return refusal(ex, st, ok(vkey(res_add(k.fs[0], res_pow(lib.gen(), t.fs[0])))))


@handle("bip32::PrivateKey::derive_child")
def sk_child(ex, st, c):
    k, t = D(ex, st, c.vals[0]), D(ex, st, c.vals[1])
    return refusal(ex, st, ok(skey(res_add(r(k), Res(QMOD, e=t.fs[0])))))


def tweak_seq(name):
    f = scalar_fn(f"TW<{name}>", True)
    n = length(f"len({name})")
    return Seq(n=n, f=lambda j: tweak(as_int(f(norm(iv(j))))), key=f"TW<{name}>[..{key(n)}]")


def total(ts, n=None):
    return folds.sum_(ts.n, lambda j: ts.at(j).fs[0])


def tweaked(p, ts):
    return res_add(p, res_pow(lib.gen(), total(ts)))


def only_if_refused(st):
    """something was refused on the way here"""
    xs = sorted({x for f in st.pc for x in core.consts_of(f) if x.startswith("refused")})
    return z3.Or([z3.Int(x) != 0 for x in xs]) if xs else FALSE


def or_refused(want, what):
    def test(a, st, v):
        if is_err(v):
            return [("an error only if the backend refused something", only_if_refused(st))]
        return eq_goals(a.ex, st, v, ok(want), what)
    return Rel(lambda a, st: ok(want), test)


@contract(BP + "apply_tweaks_public", props=["C25"], args={0: some_vkey, 1: lambda ex, st, t, name: ex.ref(st, tweak_seq("tweaks"))}, use=False)
def apply_tweaks(a):
    return [(TRUE, or_refused(vkey(tweaked(a[0].fs[0], a[1])), "key plus the sum of the tweaks"))]


# ---------------------------------------------------------------- derivation of keys and shares, for the tweaks that belong to (verifying key, path)
def the_path(ex, st, t, name):
    return ex.ref(st, Agg("path", [z3.Int("path")]))


def tweaks_for(pk, path):
    return tweak_seq(f"{key(pk)}/{key(path)}")


def derived_tweaks(ex, st, c):
    return refusal(ex, st, ok(tweaks_for(D(ex, st, c.vals[0]), D(ex, st, c.vals[1]))))


lib.HANDLERS[BP + "derive_tweaks"] = derived_tweaks
PATH = Agg("path", [z3.Int("path")])


@contract(f"<{VK}<C> as curve::bip32::DeriveChildKey<C>>::derive_verifying_key_bip32", props=["C25"], args={0: some_vkey, 1: the_path}, use=False)
def derive_vk(a):
    return [(TRUE, or_refused(vkey(tweaked(a[0].fs[0], tweaks_for(a[0], PATH))), "derived key"))]


def joint(a):
    o, t, _, sids, pubs = tk_parts(a.mir, a[0])
    n = sids.fs[0].n
    j = lambda m: join_value(Seq(n=m, f=sids.fs[1].at), Seq(n=m, f=pubs.fs[1].at))
    return t, n, j


@contract(TK + "verifying_key", props=["C22", "C25"], args={0: by_ref(threshold_share)}, use=False)
def tk_verifying_key(a):
    t, n, j = joint(a)
    out = []
    for c, m in ((t <= n, t), (t > n, n)):
        z = z3.simplify(lib.is_id(j(m)))
        out += [(z3.And(c, z3.Not(z)), ok(vkey(j(m)))), (z3.And(c, z), err(ANY))]
    return out


@contract(FK + "verifying_key", props=["C23"], args={0: by_ref(key_share)}, use=False)
def ks_verifying_key(a):
    p = sum_points(ks_parts(a.mir, a[0])[2].fs[1])
    z = z3.simplify(lib.is_id(p))
    return [(z3.Not(z), vkey(p)), (z, PANICS)]


def joint_key(ex, st, c):
    """the verifying key of a share (its own contract says which one)"""
    v = D(ex, st, c.vals[0])
    return refusal(ex, st, ok(vkey(nonzero_point("VK<" + hashlib.sha256(key(v).encode()).hexdigest()[:16] + ">"))))


def of_share(ex, share):
    s = State()
    CUR[0] = s
    REFUSALS[0] = False
    try:
        return joint_key(ex, s, Call(None, None, [share], None, None, None, None)).fs[0]
    finally:
        REFUSALS[0] = True


def share_and_tweaks(ex):
    share = threshold_share(ex, "share")
    vk = of_share(ex, share)
    return share, vk, tweaks_for(vk, PATH)


@theorem("ThresholdKeyShare::derive_bip32: the same tweak for the secret share and every public share, nothing else changes", props=["C25"])
def t_derive(ex, rep):
    share, vk, ts = share_and_tweaks(ex)
    o, t, sec, sids, pubs = tk_parts(ex.mir, share)
    T = total(ts)
    old = with_opaque(ex, {TK + "verifying_key": joint_key})
    try:
        st, vals, outs = run_fn(ex, TK + "derive_bip32", self=share, derivation_path=PATH)
        good = 0
        for s, v in normal(rep, "derive_bip32", outs):
            CUR[0] = s
            if is_err(v):
                zero = res_eq(r(sec), Res(QMOD, e=z3.IntVal(0)))
                point = [lib.is_id(r(pubs.fs[1].at(z3.Int(x)))) for x in sorted({x for f in s.pc for x in core.consts_of(f) if x.startswith("i!")})]
                prove(rep, "derive_bip32: fails only if the backend refuses or a share is zero", s.pc, z3.Or([only_if_refused(s), zero] + point))
                continue
            good += 1
            no, nt, nsec, nsids, npubs = tk_parts(ex.mir, v.fs[0])
            gs = eq_goals(ex, s, no, o, "owner unchanged") + [("threshold unchanged", nt == t)] + eq_goals(ex, s, nsids, sids, "share identities unchanged")
            gs += [("the secret share plus the sum of the tweaks", res_goal(r(nsec), Res(QMOD, e=norm(as_int(r(sec)) + T))))]
            gs += eq_goals(ex, s, npubs.fs[0], pubs.fs[0], "public shares of the same parties")
            gs += eq_goals(ex, s, npubs.fs[1], Seq(n=pubs.fs[1].n, f=lambda j: pnt(tweaked(r(pubs.fs[1].at(j)), ts))), "every public share plus the sum of the tweaks")
            for l, g in gs:
                prove(rep, f"derive_bip32: {l}", s.pc, g)
        if not good:
            raise Unsupported("no share is derived")
        # what these shares combine to: the key plus the same tweaks
        lemma(rep, "Shares", "tweaked_shares_combine", "tweaked_public_shares_combine")
    finally:
        ex.handlers, ex.contracts = old


@theorem("ThresholdKeyShare::derive_verifying_key_bip32: the verifying key plus the sum of the same tweaks", props=["C25"])
def t_derive_vk(ex, rep):
    share, vk, ts = share_and_tweaks(ex)
    old = with_opaque(ex, {TK + "verifying_key": joint_key})
    try:
        p = f"<{TKS}<P, I> as curve::bip32::DeriveChildKey<<P as params::traits::SchemeParams>::Curve>>::derive_verifying_key_bip32"
        st, vals, outs = run_fn(ex, p, self=share, derivation_path=PATH)
        good = 0
        for s, v in normal(rep, "derive_verifying_key_bip32", outs):
            CUR[0] = s
            if is_err(v):
                prove(rep, "derive_verifying_key_bip32: fails only if the backend refuses", s.pc, only_if_refused(s))
                continue
            good += 1
            for l, g in eq_goals(ex, s, v.fs[0], vkey(tweaked(vk.fs[0], ts)), "the verifying key plus the sum of the tweaks"):
                prove(rep, f"derive_verifying_key_bip32: {l}", s.pc, g)
        if not good:
            raise Unsupported("no key is derived")
    finally:
        ex.handlers, ex.contracts = old


# ---------------------------------------------------------------- the tweaks of a path: a recurrence over its child numbers
def opaque_key(ex, st, t, name):
    return ex.ref(st, Agg("bip32pk", [z3.Int("pk")]))


def path_iter(ex, st, c):
    p = D(ex, st, c.vals[0])
    return Agg("iter", [Seq(n=length("len(path)"), f=lambda j: Agg("number", [p, norm(iv(j))]), key=f"numbers({key(p)})"), z3.IntVal(0)])


def key_bytes(ex, st, c):
    return Agg("keybytes", [D(ex, st, c.vals[0])])


def tweak_of(k, cc, i):
    return Agg("tweakof", [k, cc, i])


def derived_tweak(ex, st, c):
    k, cc, i = [D(ex, st, v) for v in c.vals]
    return refusal(ex, st, ok(Agg("tuple", [tweak_of(k, cc, i), Agg("chainof", [k, cc, i])])))


def opaque_child(ex, st, c):
    k, t = D(ex, st, c.vals[0]), D(ex, st, c.vals[1])
    return refusal(ex, st, ok(Agg("child", [k, t])))


TWEAK_CALLEES = {"bip32::PublicKey::to_bytes": key_bytes, "bip32::DerivationPath::iter": path_iter, "bip32::PublicKey::derive_tweak": derived_tweak, "bip32::PublicKey::derive_child": opaque_child,
                 "digest::Digest::new": lambda ex, st, c: Agg("dg", []),
                 "digest::Digest::chain_update": lambda ex, st, c: Agg("dg", list(D(ex, st, c.vals[0]).fs) + [D(ex, st, c.vals[1])]),
                 "digest::Digest::finalize": lambda ex, st, c: hash_bytes(D(ex, st, c.vals[0]))}


def hash_bytes(d):
    return lib.Opaque(Op("hash", d), length("DIGEST_LENGTH", 1))


@theorem("derive_tweaks: the tweaks of a path follow the BIP-32 recurrence over its child numbers", props=["C25"])
def t_tweaks(ex, rep):
    pk = Agg("bip32pk", [z3.Int("pk")])
    old = ex.handlers
    ex.handlers = dict(old, **TWEAK_CALLEES)
    ex.recurrences = []
    try:
        st, vals, outs = run_fn(ex, BP + "derive_tweaks", public_key=opaque_key, derivation_path=PATH)
        good = 0
        for s, v in normal(rep, "derive_tweaks", outs):
            CUR[0] = s
            if is_err(v):
                prove(rep, "derive_tweaks: fails only if the backend refuses (a hardened child number)", s.pc, only_if_refused(s))
                continue
            good += 1
            ts = v.fs[0]
            while isinstance(ts, Agg):
                ts = ts.fs[0]
            n = length("len(path)")
            prove(rep, "derive_tweaks: one tweak for every child number", s.pc, iv(ts.n) == n)
            # no path is accepted with one of its child numbers refused
            fa = [f for f in s.foralls if core.eqpoly(f.n, n)]
            j = z3.Int("i!t")
            ok_ = [set(core.consts_of(z3.And(list(p) + [TRUE]))) for f in fa for p, _ in f.at(j)]
            prove(rep, "derive_tweaks: every child number was accepted", s.pc, z3.BoolVal(any(any(x.startswith("refused") for x in cs) for cs in ok_)))
            s1 = s.copy()
            s1.pc += [j >= 0, j < n]
            for s2, t in elem_outs(ex, s1, ts, j):
                CUR[0] = s2
                if not (isinstance(t, Agg) and t.tag == "tweakof"):
                    raise Unsupported("the tweaks do not come from the backend")
                k, cc, i = t.fs
                step = {x[0]: (x[2], core.key(x[3]).replace(key(x[1]), key(j))) for x in ex.recurrences}
                rec = lambda x: step.get(x.args[0]) if isinstance(x, Op) and x.tag == "rec" and key(x.args[1]) == key(j) else None
                prove(rep, "derive_tweaks: tweak j is that of child number j", s2.pc, z3.BoolVal(key(i) == key(Agg("number", [PATH, j]))))
                prove(rep, "derive_tweaks: the first key is the given one", s2.pc, z3.BoolVal(key(rec(k)[0] if rec(k) else k) == key(pk)))
                prove(rep, "derive_tweaks: the key advances by the tweak", s2.pc, z3.BoolVal(rec(k) is not None and rec(k)[1] == key(Agg("child", [k, t]))))
                prove(rep, "derive_tweaks: the chain code advances", s2.pc, z3.BoolVal(rec(cc) is not None and rec(cc)[1] == key(Agg("chainof", [k, cc, i]))))
        if not good:
            raise Unsupported("no tweaks are returned")
    finally:
        ex.handlers, ex.recurrences = old, None
