"""Contracts of randomizers, ciphertext operations and ring-Pedersen commitments (src/paillier/encryption.rs, ring_pedersen.rs)"""
from spec import *
from c_paillier import *
import core, ext


def locals_of(ex, path, i):
    """type of argument i of a function, without references"""
    if path not in ex.mir.fns:
        raise Unsupported(f"{path} not found")
    t = tup(ex.mir.body("fn", path)["locals"][i + 1])
    while t[0] == "ref":
        t = t[2]
    return t


def exponents(*names, wide=True):
    """every kind of exponent the crate uses, for the generic parameters called `names`"""
    def f(ex):
        ts = [locals_of(ex, CT + "new_with_randomizer", 1), locals_of(ex, CT + "new_public_with_randomizer", 1)]
        if wide:
            ts += [locals_of(ex, CT + "new_wide_with_randomizer", 1), locals_of(ex, CT + "new_public_wide_with_randomizer", 1)]
        if len(names) == 1:
            return [{names[0]: t} for t in ts]
        return [{names[0]: x, names[1]: y} for x in ts for y in ts]
    return f


def new_rnd(ex, st, N, tag="rnd"):
    """a fresh invertible residue below N"""
    x = ext.draw(st, tag, lambda x: [x >= 0, x < N, GCD(x, norm(N)) == 1])
    core.CANON[x.decl().name()] = poly(N).key()
    ext.UNITS.add(x.decl().name())
    return x


def mk_rnd(ex, N, x):
    return mk(RND, ex.mir, randomizer=Agg(SEC, [x]), randomizer_mod=Agg(SEC, [Res(mod_n(N), e=x)]))


def residue_goals(N, v):
    return [("below the modulus", z3.And(v >= 0, v < N)), ("invertible", GCD(norm(v), norm(N)) == 1)]


PMM, PKK = PM + "::<P>::", PK + "::<P>::"


def inner_n(v):
    return unwrap1(v)


def unwrap1(v):
    while isinstance(v, Agg):
        v = v.fs[0]
    return v


@contract([PMM + "random_invertible_residue", PKK + "random_invertible_residue"], props=["C11"])
def c_rir(a):
    """a number in [0, N) invertible modulo N"""
    N = unwrap1(a[0])
    return [(TRUE, Rel(lambda b, st: new_rnd(b.ex, st, N), lambda b, st, v: residue_goals(N, v)))]


RN = RND + "::<P>::"


@contract(RN + "random", props=["C08"])
def c_rnd(a):
    N = arg_pk(a, 1)

    def test(b, st, v):
        x = fld(b.mir, v, "randomizer").fs[0]
        return residue_goals(N, x) + eq_goals(b.ex, st, fld(b.mir, v, "randomizer_mod"), Agg(SEC, [Res(mod_n(N), e=x)]), "randomizer_mod")
    return [(TRUE, Rel(lambda b, st: mk_rnd(b.ex, N, new_rnd(b.ex, st, N)), test))]


@contract(RN + "new", props=["C08"], args={"randomizer": shared(lambda ex, st, N, n: Agg(SEC, [b_rnd_int(N, n)])), "pk": s_pk})
def c_rnd_new(a):
    N = arg_pk(a)
    x = a[1].fs[0]
    return [(TRUE, mk_rnd(a.ex, N, x))]


def b_rnd_int(N, name):
    x = z3.Int(name)
    if name not in FACT:
        fact(name, x >= 0, x < N)
    core.CANON[name] = poly(N).key()
    ext.UNITS.add(name)
    return x


@contract(RN + "new_mod", props=["C09"], args={"randomizer_mod": shared(lambda ex, st, N, n: Agg(SEC, [elem(n, mod_n(N))]))})
def c_rnd_newmod(a):
    r = a[0].fs[0]
    return [(TRUE, mk(RND, a.mir, randomizer=Agg(SEC, [retrieve(r)]), randomizer_mod=Agg(SEC, [r])))]


def rnd_res(a, i):
    return fld(a.mir, a[i], "randomizer_mod").fs[0]


@contract(RN + "to_masked", props=["C09"], args={"self": s_rnd, "coeff": s_rnd})
def c_masked(a):
    """rho^e * coeff modulo N"""
    r, c = rnd_res(a, 0), rnd_res(a, 1)
    m = r.m
    w = wmul(m, wpow(m, as_word(r), a.signed(2)), as_word(c))
    return [(TRUE, Agg(MRND, [Agg(PUI, [retrieve(Res(m, w=w))])]))]


# ---------------------------------------------------------------- ciphertexts
def cres(a, i):
    return fld(a.mir, a[i], "ciphertext")


def ckey(a, i):
    return pk_n(a.ex, fld(a.mir, a[i], "pk"))


@contract(CTW + "::<P>::to_precomputed", props=["C10"])
def c_ctw_pre(a):
    N = arg_pk(a, 1)
    x = unwrap1(fld(a.mir, a[0], "ciphertext"))
    return [(TRUE, ctx(a, N, Res(mod_n2(N), e=x)))]


@contract(CT + "to_wire", props=["C10"])
def c_ct_wire(a):
    return [(TRUE, mk(CTW, a.mir, ciphertext=Agg(PUI, [retrieve(cres(a, 0))]), phantom=Agg("core::marker::PhantomData", ())))]


@contract(CT + "homomorphic_neg_ref", props=["C10"])
def c_neg(a):
    r = cres(a, 0)
    u = ext.unit_cond(r)
    return [(u, ctx(a, ckey(a, 0), Res(r.m, w=wpow(r.m, as_word(r), z3.IntVal(-1))))), (z3.simplify(z3.Not(u)), PANICS)]


def ct_mul(a):
    """c^x for a signed integer x"""
    r = cres(a, 0)
    u = ext.unit_cond(r)
    return [(u, ctx(a, ckey(a, 0), Res(r.m, w=wpow(r.m, as_word(r), a.signed(1))))), (z3.simplify(z3.Not(u)), ANY)]


EXPS = exponents("V")
contract([CT + "homomorphic_mul", CT + "homomorphic_mul_ref", f"<{CTX}<P> as core::ops::Mul<&V>>::mul", f"<&{CTX}<P> as core::ops::Mul<&V>>::mul"], props=["C10"], envs=EXPS)(ct_mul)


def ct_add(sgn):
    def f(a):
        x, y = cres(a, 0), cres(a, 1)
        N1, N2 = ckey(a, 0), ckey(a, 1)
        same = z3.simplify(N1 == N2)
        u = TRUE if sgn == 1 else ext.unit_cond(y)
        r = Res(x.m, w=wmul(x.m, as_word(x), as_word(y), sgn))
        cs = [(z3.simplify(z3.And(same, u)), ctx(a, N1, r)), (z3.simplify(z3.Not(same)), PANICS)]
        if not z3.is_true(u):
            cs.append((z3.simplify(z3.And(same, z3.Not(u))), PANICS))
        return cs
    return f


contract([CT + "homomorphic_add", CT + "homomorphic_add_ref", f"<{CTX}<P> as core::ops::Add>::add", f"<{CTX}<P> as core::ops::Add<&{CTX}<P>>>::add",
          f"<&{CTX}<P> as core::ops::Add<&{CTX}<P>>>::add"], props=["C10"])(ct_add(1))
contract([f"<{CTX}<P> as core::ops::Sub<&{CTX}<P>>>::sub"], props=["C10"])(ct_add(-1))


# ---------------------------------------------------------------- ring-Pedersen
RP = RPP + "::<P>::"


def rp_ring(a, i=0):
    v = a[i]
    return unwrap1(fld(a.mir, v, "modulus")), fld(a.mir, v, "base_value"), fld(a.mir, v, "base_randomizer")


def rpc(m, *rs):
    w = {}
    for r in rs:
        w = wmul(m, w, as_word(r))
    return Agg(RPC, [Res(m, w=w)])


def rpow(r, x):
    return Res(r.m, w=wpow(r.m, as_word(r), x))


def units(*rs):
    return z3.simplify(z3.And([ext.unit_cond(r) for r in rs]))


def guarded(u, v):
    return [(u, v), (z3.simplify(z3.Not(u)), ANY)] if not z3.is_true(u) else [(TRUE, v)]


@contract(RP + "commit", props=["C12"], envs=exponents("V", "R"))
def c_commit(a):
    N, s, t = rp_ring(a)
    return guarded(units(s, t), rpc(s.m, rpow(s, a.signed(1)), rpow(t, a.signed(2))))


@contract(RP + "commit_zero_value", props=["C12"], envs=exponents("R"))
def c_czv(a):
    N, s, t = rp_ring(a)
    return guarded(units(t), rpc(t.m, rpow(t, a.signed(1))))


@contract(RP + "commit_zero_randomizer", props=["C12"], envs=exponents("R"))
def c_czr(a):
    N, s, t = rp_ring(a)
    return guarded(units(s), rpc(s.m, rpow(s, a.signed(1))))


@contract(RPC + "::<P>::pow", props=["C12"], envs=exponents("V"))
def c_rpc_pow(a):
    r = a[0].fs[0]
    return guarded(units(r), Agg(RPC, [rpow(r, a.signed(1))]))


@contract(f"<&'a {RPC}<P> as core::ops::Mul>::mul", props=["C12"], args={"self": shared(lambda ex, st, N, n: Agg(RPC, [elem(n, mod_n(N), True)])), "rhs": shared(lambda ex, st, N, n: Agg(RPC, [elem(n, mod_n(N), True)]))})
def c_rpc_mul(a):
    x, y = a[0].fs[0], a[1].fs[0]
    if x.m.name != y.m.name:
        return [(TRUE, ANY)]
    return [(TRUE, Agg(RPC, [Res(x.m, w=wmul(x.m, as_word(x), as_word(y)))]))]


@contract(RPC + "::<P>::to_wire", props=["C12"])
def c_rpc_wire(a):
    return [(TRUE, Agg(RPCW, [Agg(PUI, [retrieve(a[0].fs[0])])]))]


@contract(RPCW + "::<P>::to_precomputed", props=["C12"])
def c_rpcw_pre(a):
    N = unwrap1(a[1])
    return [(TRUE, Agg(RPC, [Res(mod_n(N), e=unwrap1(a[0]))]))]


@contract(RP + "to_wire", props=["C12"])
def c_rp_wire(a):
    N, s, t = rp_ring(a)
    return [(TRUE, mk(RPPW, a.mir, modulus=mk_pmw(a.ex, N), base_randomizer=Agg(PUI, [retrieve(t)]), base_value=Agg(PUI, [retrieve(s)])))]


@contract(RPPW + "::<P>::to_precomputed", props=["C12"])
def c_rpw_pre(a):
    N = unwrap1(fld(a.mir, a[0], "modulus"))
    x = lambda n: Res(mod_n(N), e=unwrap1(fld(a.mir, a[0], n)))
    return [(TRUE, mk(RPP, a.mir, modulus=mk_pm(a.ex, N), base_randomizer=x("base_randomizer"), base_value=x("base_value")))]


# ---------------------------------------------------------------- secret keys
SK, SP, SPW = "paillier::keys::SecretKeyPaillier", "paillier::rsa::SecretPrimes", "paillier::rsa::SecretPrimesWire"
SKW = "paillier::keys::SecretKeyPaillierWire"
PB = z3.Int("PRIME_BITS")


def primes(name, blum=True):
    """distinct primes p, q = 3 mod 4 of PRIME_BITS bits each (with their two top bits set for Paillier keys); N = p q, phi = (p - 1)(q - 1)"""
    p, q, N, phi = z3.Int(f"p({name})"), z3.Int(f"q({name})"), modulus_int(name), z3.Int(f"phi({name})")
    if p.decl().name() not in FACT:
        for x in (p, q):
            fact(x.decl().name(), p != q, p * q < P2(MB), x < P2(PB), MOD(x, z3.IntVal(4)) == 3, x >= 3, x >= (3 * P2(norm(PB - 2)) if blum else P2(norm(PB - 1))), PRIME(x))
            core.PRIMES[x.decl().name()] = list(dict(list(poly(x).d)[0]))[0]
        fact(N.decl().name(), N >= 3, N < P2(MB), MOD(N, z3.IntVal(2)) == 1, N == p * q)
        fact(phi.decl().name(), phi == (p - 1) * (q - 1), phi >= 1, phi < N, GCD(N, phi) == 1)
        mp, mq, mn, mn2 = Mod(p), Mod(q), mod_n(N), mod_n2(N)
        a = lambda x: list(dict(list(poly(x).d)[0]))[0]
        core.UNITS.add((a(p), mq.name))
        core.UNITS.add((a(q), mp.name))
        core.UNITS.add((a(phi), mn.name))
        core.UNITS.add((a(N), poly(phi).key()))
        d = z3.Int(f"d({name})")
        fact(d.decl().name(), d >= 0, d < phi, MOD(norm(N * d), phi) == 1, d == INV(N, phi))
        core.ORDERS[mn.name] = (phi, [(a(N), a(d)), (a(N), a(INV(N, phi)))])
        core.ORDERS[mn2.name] = (norm(N * phi), [])
        core.FACTORS[a(N)] = (p, q)
    return p, q, N, phi


def of_primes(a, p, q):
    """name of the key that the primes belong to"""
    if isint(p) and isint(q) and p.num_args() == 0 and q.num_args() == 0:
        n, m = str(p), str(q)
        if n.startswith("p(") and m == "q(" + n[2:]:
            return n[2:-1]
    return None


def mk_primes(ex, name):
    p, q, N, phi = primes(name)
    return mk(SP, ex.mir, primes=mk(SPW, ex.mir, p=Agg(SEC, [p]), q=Agg(SEC, [q])), totient=Agg(SEC, [phi]))


def mk_sk(ex, name):
    p, q, N, phi = primes(name)
    u = z3.Int(f"u({name})")
    if u.decl().name() not in FACT:
        fact(u.decl().name(), u >= 0, u < N, MOD(norm(u + 1), p) == 0, MOD(norm(u - 1), q) == 0)
        core.CANON[u.decl().name()] = poly(N).key()
        k = list(dict(list(poly(u).d)[0]))[0]
        core.CONG[(k, Mod(p).name)], core.CONG[(k, Mod(q).name)] = z3.IntVal(-1), z3.IntVal(1)
    mn = mod_n(N)
    return mk(SK, ex.mir, primes=mk_primes(ex, name), inv_totient=Agg(SEC, [core.res_inv(Res(mn, e=phi))]),
              inv_modulus=mk(SUN, ex.mir, bound=MB, value=Agg(SEC, [z3.Int(f"d({name})")])),
              inv_p_mod_q=Agg(SEC, [Res(Mod(q), e=INV(p, q))]), nonsquare_sampling_constant=Agg(SEC, [Res(mn, e=u)]),
              monty_params_mod_p=Op("mparams", Mod(p)), monty_params_mod_q=Op("mparams", Mod(q)), public_key=mk_pk(ex, N))


@builder(SPW)
def b_spw(ex, st, t, name):
    primes(name, False)
    return fld(ex.mir, mk_primes(ex, name), "primes")


@builder(SP)
def b_sp(ex, st, t, name):
    primes(name, False)
    return mk_primes(ex, name)


@builder(SK)
def b_sk(ex, st, t, name):
    return mk_sk(ex, name)


def sk_name(n):
    return "N@" + n.split("@")[1].split(".")[0]


def sk_under(ex, st, t, name):
    while t[0] == "ref":
        return ex.ref(st, sk_under(ex, st, t[2], name), t[1])
    return mk_sk(ex, sk_name(name))


def enc_arg(ex, st, t, name):
    """an encryption of an arbitrary integer m with an arbitrary unit rho: every unit modulo N^2 is one"""
    while t[0] == "ref":
        return ex.ref(st, enc_arg(ex, st, t[2], name), t[1])
    N = modulus_int(sk_name(name))
    uid = name.split("@")[1].split(".")[0]
    return mk(CTX, ex.mir, pk=mk_pk(ex, N), ciphertext=enc_word(N, z3.Int(f"m@{uid}"), b_rnd_int(N, f"rho@{uid}")))


def centred(x, N):
    r = MOD(norm(x), norm(N))
    return z3.If(2 * r > N, r - N, r)


@theorem("decryption inverts encryption", ["C08", "C10"])
def t_decrypt(ex, rep):
    path = CT + "decrypt"
    st, vals, env = inputs(ex, path, {}, {"self": enc_arg, "sk": sk_under})
    CUR[0] = st
    uid = st.rp[1:-1]
    N, m = modulus_int(f"N@{uid}"), z3.Int(f"m@{uid}")
    outs = ex.exec_body(st, "fn", path, ex.mir.body("fn", path), env, vals)
    for k, (s, v) in enumerate(outs):
        nm = f"decrypt: path {k}"
        if isinstance(v, Panic):
            prove(rep, nm + f": no panic ({v.why})", s.pc, FALSE)
            continue
        w = sval(ex.mir, v)
        prove(rep, nm + ": the centred residue of the plaintext", s.pc, w.e == centred(m, N))


@theorem("the recovered randomizer is the one the ciphertext was made with", ["C09"])
def t_derive(ex, rep):
    path = CT + "derive_randomizer"
    st, vals, env = inputs(ex, path, {}, {"self": enc_arg, "sk": sk_under})
    CUR[0] = st
    uid = st.rp[1:-1]
    N, rho = modulus_int(f"N@{uid}"), z3.Int(f"rho@{uid}")
    outs = ex.exec_body(st, "fn", path, ex.mir.body("fn", path), env, vals)
    for k, (s, v) in enumerate(outs):
        nm = f"derive_randomizer: path {k}"
        if isinstance(v, Panic):
            prove(rep, nm + f": no panic ({v.why})", s.pc, FALSE)
            continue
        for l, g in eq_goals(ex, s, v, mk_rnd(ex, N, rho)):
            prove(rep, f"{nm}: {l}", s.pc, g)


@theorem("the rules about residues used by the normal forms", ["C08", "C09", "C10", "C11", "C12", "C16", "C19", "C20"])
def t_rules(ex, rep):
    lemma(rep, "Residues", "one_add_pow", "one_add_pow_eq_iff", "pow_modulus", "pow_totient", "totient_sq", "totient_two_primes",
          "pow_prime", "neg_one_nonsquare", "plus_minus_square", "two_primes", "unit_sq", "unit_is_encryption")
