"""Type invariants (builders) and contracts of src/paillier and src/params/conversion.rs"""
from spec import *
import ext, core

PMW, PM = "paillier::rsa::PublicModulusWire", "paillier::rsa::PublicModulus"
PKW, PK = "paillier::keys::PublicKeyPaillierWire", "paillier::keys::PublicKeyPaillier"
CTX, CTW = "paillier::encryption::Ciphertext", "paillier::encryption::CiphertextWire"
RND, MRND = "paillier::encryption::Randomizer", "paillier::encryption::MaskedRandomizer"
RPP, RPPW = "paillier::ring_pedersen::RPParams", "paillier::ring_pedersen::RPParamsWire"
RPC, RPCW = "paillier::ring_pedersen::RPCommitment", "paillier::ring_pedersen::RPCommitmentWire"
BU, BW, BH = z3.Int("BITS<Uint>"), z3.Int("BITS<WideUint>"), z3.Int("BITS<HalfUint>")
MB = norm(2 * z3.Int("PRIME_BITS"))


def modulus_int(name):
    """an odd modulus 3 <= N < 2^MODULUS_BITS"""
    N = z3.Int(f"N({name})")
    if N.decl().name() not in FACT:
        fact(N.decl().name(), N >= 3, N < P2(MB), MOD(N, z3.IntVal(2)) == 1)
    return N


def mod_n(N):
    return Mod(norm(N))


def mod_n2(N):
    return Mod(norm(N * N), sq=norm(N))


def mk_pmw(ex, N):
    return Agg(PMW, [Agg(PUI, [N])])


def mk_pm(ex, N):
    return mk(PM, ex.mir, modulus=mk_pmw(ex, N), monty_params_mod_n=Op("mparams", mod_n(N)))


def mk_pk(ex, N):
    m2 = mod_n2(N)
    return mk(PK, ex.mir, modulus=mk_pm(ex, N), monty_params_mod_n_squared=Op("mparams", m2), modulus_mod_modulus_squared=Res(m2, e=N),
              public_key_wire=mk(PKW, ex.mir, modulus=mk_pmw(ex, N)))


def pk_n(ex, pk):
    return fld(ex.mir, fld(ex.mir, pk, "modulus"), "modulus").fs[0].fs[0]


def elem(name, m, unit=False):
    """an arbitrary residue modulo m"""
    x = z3.Int(name)
    if name not in FACT:
        fact(name, x >= 0, x < m.e)
    core.CANON[name] = poly(m.e).key()
    if unit:
        ext.UNITS.add(name)
    return Res(m, e=x)


@builder(PMW)
def b_pmw(ex, st, t, name):
    return mk_pmw(ex, modulus_int(name))


@builder(PM)
def b_pm(ex, st, t, name):
    return mk_pm(ex, modulus_int(name))


@builder(PK)
def b_pk(ex, st, t, name):
    return mk_pk(ex, modulus_int(name))


@builder(PKW)
def b_pkw(ex, st, t, name):
    return mk(PKW, ex.mir, modulus=mk_pmw(ex, modulus_int(name)))


def b_ctx_for(ex, st, N, name, unit=True):
    return mk(CTX, ex.mir, pk=mk_pk(ex, N), ciphertext=elem(name, mod_n2(N), unit))


@builder(CTX)
def b_ctx(ex, st, t, name):
    return b_ctx_for(ex, st, modulus_int(name), name)


def b_rnd_for(ex, st, N, name):
    x = z3.Int(name)
    if name not in FACT:
        fact(name, x >= 0, x < N)
    core.CANON[name] = poly(N).key()
    ext.UNITS.add(name)
    return mk(RND, ex.mir, randomizer=Agg(SEC, [x]), randomizer_mod=Agg(SEC, [Res(mod_n(N), e=x)]))


@builder(RND)
def b_rnd(ex, st, t, name):
    return b_rnd_for(ex, st, modulus_int(name), name)


@builder(RPP)
def b_rpp(ex, st, t, name):
    N = modulus_int(name)
    m = mod_n(N)
    return mk(RPP, ex.mir, modulus=mk_pm(ex, N), base_randomizer=elem(f"t({name})", m, True), base_value=elem(f"s({name})", m, True))


@builder(RPC)
def b_rpc(ex, st, t, name):
    return Agg(RPC, [elem(name, mod_n(modulus_int(name)), True)])


def wire(name, bits):
    x = z3.Int(name)
    if name not in FACT:
        fact(name, x >= 0, x < P2(norm(bits)))
    return x


@builder(CTW)
def b_ctw(ex, st, t, name):
    return mk(CTW, ex.mir, ciphertext=Agg(PUI, [wire(name, BW)]), phantom=Agg("core::marker::PhantomData", ()))


@builder(RPCW)
def b_rpcw(ex, st, t, name):
    return Agg(RPCW, [Agg(PUI, [wire(name, BU)])])


@builder(MRND)
def b_mrnd(ex, st, t, name):
    return Agg(MRND, [Agg(PUI, [wire(name, BU)])])


# ---------------------------------------------------------------- conversions between scalars and integers
CV = "params::conversion::"


def sres(v):
    while isinstance(v, Agg):
        v = v.fs[0]
    return v


def scal(r):
    return Agg(SCAL, [r])


@contract([CV + "curve_order"], props=["C07"])
def c_order(a):
    return [(TRUE, Q)]


@contract([CV + "uint_from_scalar"], props=["C07"])
def c_uint_from_scalar(a):
    return [(TRUE, retrieve(sres(a[0])))]


@contract([CV + "secret_uint_from_scalar"], props=["C07"])
def c_suint_from_scalar(a):
    return [(TRUE, Agg(SEC, [retrieve(sres(a[0]))]))]


@contract([CV + "public_signed_from_scalar"], props=["C07"])
def c_ps_from_scalar(a):
    return [(TRUE, mk_ps(a.mir, retrieve(sres(a[0])), BU, BITS(Q)))]


@contract([CV + "secret_signed_from_scalar"], props=["C07"])
def c_ss_from_scalar(a):
    """the centred representative of the residue"""
    x = retrieve(sres(a[0]))
    return [(TRUE, mk_ss(a.mir, z3.If(2 * x > Q, x - Q, x), BU, NB - 1))]


@contract([CV + "scalar_from_wide_uint"], props=["C07"])
def c_s_from_wu(a):
    return [(TRUE, scal(Res(QMOD, e=uintv(a[0], BW))))]


@contract([CV + "secret_scalar_from_wide_uint"], props=["C07"])
def c_ss_from_wu(a):
    return [(TRUE, Agg(SEC, [scal(Res(QMOD, e=uintv(a[0].fs[0], BW)))]))]


@contract([CV + "scalar_from_signed", CV + "scalar_from_wide_signed"], props=["C07"])
def c_s_from_s(a):
    return [(TRUE, scal(Res(QMOD, e=a.signed(0))))]


@contract([CV + "secret_scalar_from_signed", CV + "secret_scalar_from_wide_signed"], props=["C07"])
def c_sec_from_s(a):
    return [(TRUE, Agg(SEC, [scal(Res(QMOD, e=a.signed(0)))]))]


# ---------------------------------------------------------------- encryption
EN = "paillier::encryption::"


def enc_word(N, m, rho):
    """(1 + N)^m * rho^N  modulo N^2"""
    md = mod_n2(N)
    g = norm(1 + N)
    f1 = Res(md, w={base_key(md, g): (g, norm(m))})
    return res_mul_w(f1, res_pow(rho_w(md, rho), N))


def rho_w(md, rho):
    return Res(md, e=rho)


def res_mul_w(a, b):
    return Res(a.m, w=wmul(a.m, as_word(a), as_word(b)))


def ctx(a, N, r):
    return mk(CTX, a.mir, pk=mk_pk(a.ex, N), ciphertext=r)


def arg_pk(a, i=0):
    return pk_n(a.ex, a[i])


def arg_rho(a, i):
    v = a[i]
    return fld(a.mir, v, "randomizer").fs[0] if v.tag == RND else v.fs[0].fs[0]


def signed_split(i):
    return lambda a: [a.signed(i) < 0]


class Share:
    """arguments of one call that refer to the same Paillier key"""
    N = None


def shared(b):
    def f(ex, st, t, name):
        """an argument (behind references) of a type that contains the shared modulus"""
        while t[0] == "ref":
            return ex.ref(st, f(ex, st, t[2], name), t[1])
        return b(ex, st, modulus_int("N@" + name.split("@")[1].split(".")[0]), name)
    return f


s_pk = shared(lambda ex, st, N, n: mk_pk(ex, N))
s_rnd = shared(lambda ex, st, N, n: b_rnd_for(ex, st, N, n))
s_ctx = shared(lambda ex, st, N, n: b_ctx_for(ex, st, N, n))

CT = EN + "Ciphertext::<P>::"


@contract([CT + "new_with_randomizer", CT + "new_wide_with_randomizer"], props=["C08"], args={"pk": s_pk, "randomizer": s_rnd}, split=signed_split(1))
def c_enc(a):
    N = arg_pk(a)
    return [(TRUE, ctx(a, N, enc_word(N, a.signed(1), arg_rho(a, 2))))]


@contract([CT + "new_public_with_randomizer", CT + "new_public_wide_with_randomizer"], props=["C08"], args={"pk": s_pk}, split=signed_split(1))
def c_encp(a):
    N = arg_pk(a)
    return [(TRUE, ctx(a, N, enc_word(N, a.signed(1), arg_rho(a, 2))))]
