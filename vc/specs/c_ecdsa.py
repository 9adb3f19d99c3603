"""Contracts of src/curve/ecdsa.rs (C24): assembling a recoverable signature, for all scalars, keys and messages.

The `ecdsa` crate is trusted: `Signature::from_scalars` refuses zero scalars, `normalize_s` negates a high `s`,
`trial_recovery_from_prehash` finds the identifier with which the key is recovered from the signature, which exists
exactly when the signature verifies (both are the equation of lemmas/Ecdsa.lean). What is proved is that the code
hands them the right scalars, key and message, and returns the identifier that belongs to the signature it returns.
"""
from spec import *
from c_shares import run_fn, normal
from c_bip32 import handle, D, VK, nonzero_point
import core, lib, ext

SIG = "ecdsa::Signature"
FS = "curve::ecdsa::RecoverableSignature::<P>::from_scalars"


def raw(v):
    while isinstance(v, Agg):
        v = v.fs[0]
    return v


def canon(x):
    return core.retrieve(x)


def high(x):
    return 2 * canon(x) > canon_q()


def canon_q():
    return core.Q


def sig(r, s):
    return Agg(SIG, [r, s])


@builder(SIG)
def b_sig(ex, st, t, name):
    return sig(Res(QMOD, e=z3.Int(name + ".r")), Res(QMOD, e=z3.Int(name + ".s")))


@builder("ecdsa::RecoveryId")
def b_rid(ex, st, t, name):
    return Op("recovery", Op(name))


def scal(ex, st, v):
    v = raw(D(ex, st, v))
    if isinstance(v, BE) or not isinstance(v, Res):
        raise Unsupported(f"a signature from {short(v, 60)}")
    return v


def zero(x):
    return z3.simplify(core.res_eq(x, Res(QMOD, e=z3.IntVal(0))))


VERIFIES = z3.Function("verifies", *[z3.IntSort()] * 6, z3.BoolSort())
PTS = {}


def point_no(p):
    """points are told apart by their normal form"""
    k = core.res_key(p)
    return z3.IntVal(PTS.setdefault(k, len(PTS)))


def verifies(p, b, s):
    return VERIFIES(point_no(p), b.n, b.v, canon(raw(s.fs[0])), canon(raw(s.fs[1])), z3.IntVal(0))


@handle("ecdsa::Signature::<C>::from_scalars")
def e_from(ex, st, c):
    r, s = scal(ex, st, c.vals[0]), scal(ex, st, c.vals[1])
    bad = z3.Or(zero(r), zero(s))
    return lib.branches(ex, st, bad, err(Op("ecdsa::Error")), ok(sig(r, s)))


@handle("ecdsa::normalized::<impl ecdsa::Signature<C>>::normalize_s", "ecdsa::Signature::<C>::normalize_s")
def e_norm(ex, st, c):
    v = D(ex, st, c.vals[0])
    s = raw(v.fs[1])
    return lib.branches(ex, st, high(s), some(sig(v.fs[0], Res(QMOD, e=-s.e))), NONE)


@handle("ecdsa::Signature::<C>::s", "ecdsa::Signature::<C>::r")
def e_part(ex, st, c):
    return D(ex, st, c.vals[0]).fs[1 if c.path.endswith("s") else 0]


@handle("elliptic_curve::scalar::IsHigh::is_high")
def e_high(ex, st, c):
    return high(raw(D(ex, st, c.vals[0])))


@handle("ecdsa::RecoveryId::trial_recovery_from_prehash")
def e_trial(ex, st, c):
    k = D(ex, st, c.vals[0])
    b = lib.as_be(lib.seqv(ex, st, c.vals[1]))
    s = D(ex, st, c.vals[2])
    if b is None:
        raise Unsupported("recovery with an opaque message")
    p = raw(k.fs[0])
    return lib.branches(ex, st, verifies(p, b, s), ok(Op("recovery", p, b, s)), err(Op("ecdsa::Error")))


@theorem("RecoverableSignature::from_scalars", ["C24"])
def t_from(ex, rep):
    lemma(rep, "Ecdsa", "negation_verifies", "signature_verifies", "recovered_iff_verifies", "recovered_key_unique")
    st, vals, outs = run_fn(ex, FS)
    r, s, k, m = [raw(v) for v in vals]
    q = canon_q()
    neg = Res(QMOD, e=-s.e)
    bad = z3.Or(zero(r), zero(s), lib.is_id(k))
    mb = BE(canon(m), SL)
    for z, v in normal(rep, "assembling", outs):
        hy = z.pc + [z3.Implies(z3.Not(zero(s)), canon(s) + canon(neg) == q), canon(s) >= 0, canon(s) < q]
        if v.var == 0 or not v.fs:
            # the scalars and their negation verify together (lemmas/Ecdsa.lean)
            prove(rep, "signatures of the message under the key are assembled", hy + [z3.Not(bad)],
                  z3.Not(z3.And(verifies(k, mb, sig(r, s)), verifies(k, mb, sig(r, neg)))))
            continue
        o = v.fs[0]
        g = fld(ex.mir, o, "signature")
        rid = fld(ex.mir, o, "recovery_id")
        if not (isinstance(rid, Op) and rid.tag == "recovery"):
            raise Unsupported("another way to find the recovery identifier")
        a, b = raw(g.fs[0]), raw(g.fs[1])
        prove(rep, "the scalars of the signature are the given ones up to the sign of s", hy, z3.And(core.res_eq(a, r), z3.Or(core.res_eq(b, s), core.res_eq(b, neg))))
        prove(rep, "the signature is normalized", hy, z3.Not(high(b)))
        p2, b2, s2 = rid.args
        prove(rep, "the recovery identifier is for the given key", hy, core.res_eq(p2, k))
        prove(rep, "the recovery identifier is for the given message", hy, z3.And(b2.n == SL, b2.v == canon(m)))
        prove(rep, "the recovery identifier is for the returned signature", hy, z3.And(core.res_eq(raw(s2.fs[0]), a), core.res_eq(raw(s2.fs[1]), b)))
        prove(rep, "the scalars are a signature of the message under the key", hy, z3.And(z3.Not(bad), verifies(k, mb, g)))


@theorem("RecoverableSignature::to_backend", ["C24"])
def t_back(ex, rep):
    st, vals, outs = run_fn(ex, "curve::ecdsa::RecoverableSignature::<P>::to_backend")
    v = vals[0]
    for z, o in normal(rep, "to_backend", outs):
        for i, f in enumerate(("signature", "recovery_id")):
            for l, g in eq_goals(ex, z, o.fs[i], fld(ex.mir, v, f), f):
                prove(rep, f"unwrapping: {l}", z.pc, g)
