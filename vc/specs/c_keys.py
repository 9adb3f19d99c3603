"""Contracts of key material (src/paillier/rsa.rs, keys.rs) and of the ring-Pedersen setup"""
from spec import *
from c_paillier import *
from c_enc import *
import core, ext, hashlib
import c_curve

SPM, SPWM = SP + "::<P>::", SPW + "::<P>::"
SKM, SKWM, PKWM, PMWM = SK + "::<P>::", SK + "Wire::<P>::", PKW + "::<P>::", PMW + "::<P>::"
RPS = "paillier::ring_pedersen::RPSecret"
SKW = SK + "Wire"


def pq(a, i=0):
    v = a[i]
    if v.tag == SK:
        v = fld(a.mir, v, "primes")
    if v.tag in (SP, SKW):
        v = fld(a.mir, v, "primes")
    return [unwrap1(fld(a.mir, v, x)) for x in "pq"]


def n_of(a, i=0):
    p, q = pq(a, i)
    n = of_primes(a, p, q)
    return modulus_int(n) if n else norm(p * q)


def need_name(a, i=0):
    n = of_primes(a, *pq(a, i))
    if n is None:
        raise Unsupported("anonymous primes")
    return n


def named(a):
    return [TRUE if of_primes(a, *pq(a)) else FALSE]


# ------------------------------------------------------------------ sampling of primes
def new_prime(st, two):
    x = ext.draw(st, "prime", lambda x: [x >= (3 * P2(norm(PB - 2)) if two else P2(norm(PB - 1))), x < P2(PB), MOD(x, z3.IntVal(4)) == 3, core.PRIME(x)])
    return x


def prime_goals(x, two):
    return [("a prime", core.PRIME(x)), ("of exactly PRIME_BITS bits", z3.And(x >= P2(norm(PB - 1)), x < P2(PB)))] + \
        ([("with its two top bits set", x >= 3 * P2(norm(PB - 2)))] if two else []) + [("congruent to 3 modulo 4", MOD(x, z3.IntVal(4)) == 3)]


@contract("paillier::rsa::random_paillier_blum_prime", props=["C11"])
def c_blum(a):
    return [(TRUE, Rel(lambda b, st: new_prime(st, True), lambda b, st, v: prime_goals(v, True)))]


def fresh_primes(two):
    def f(a):
        def make(b, st):
            return mk(SPW, b.mir, p=Agg(SEC, [new_prime(st, two)]), q=Agg(SEC, [new_prime(st, two)]))

        def test(b, st, v):
            p, q = [unwrap1(fld(b.mir, v, x)) for x in "pq"]
            return [(f"p: {l}", g) for l, g in prime_goals(p, two)] + [(f"q: {l}", g) for l, g in prime_goals(q, two)] + \
                [("p and q are separate draws", FALSE if eqpoly(p, q) else TRUE)]
        return [(TRUE, Rel(make, test))]
    return f


contract(SPWM + "random_paillier_blum", props=["C11"])(fresh_primes(True))
contract(SPWM + "random_safe", props=["C11", "C20"])(fresh_primes(False))


@contract(SPWM + "new", props=["C11"])
def c_spw(a):
    return [(TRUE, mk(SPW, a.mir, p=a[0], q=a[1]))]


@contract([PMWM + "new", SPWM + "modulus", SPM + "modulus_wire"], props=["C11"])
def c_mod(a):
    """N = p q"""
    return [(TRUE, Agg(PMW, [Agg(PUI, [n_of(a)])]))]


@contract([SPM + "new", SPWM + "into_precomputed"], props=["C11"], pre=named)
def c_sp_new(a):
    """phi = (p - 1)(q - 1)"""
    return [(TRUE, mk_primes(a.ex, need_name(a)))]


def accessor(path, value, props=("C11",)):
    @contract(path, props=list(props), pre=named)
    def f(a):
        n = need_name(a)
        p, q, N, phi = primes(n)
        return [(TRUE, value(a, p, q, N, phi))]


for nm in "pq":
    i = "pq".index(nm)
    accessor(SPM + nm + "_half_odd", lambda a, *v, i=i: Agg(SEC, [v[i]]))
    accessor(SPM + nm, lambda a, *v, i=i: Agg(SEC, [v[i]]))
    accessor(SPM + nm + "_nonzero", lambda a, *v, i=i: Agg(SEC, [v[i]]))
    accessor(SPM + nm + "_signed", lambda a, *v, i=i: mk_ss(a.mir, v[i], BU, PB))
    accessor(SKM + nm + "_signed", lambda a, *v, i=i: mk_ss(a.mir, v[i], BU, PB))
accessor(SPM + "totient_unsigned", lambda a, p, q, N, phi: mk(SUN, a.mir, bound=MB, value=Agg(SEC, [phi])))
accessor(SPM + "totient_wide_unsigned", lambda a, p, q, N, phi: mk(SUN, a.mir, bound=MB, value=Agg(SEC, [phi])))
accessor(SKM + "totient_wide_unsigned", lambda a, p, q, N, phi: mk(SUN, a.mir, bound=MB, value=Agg(SEC, [phi])))
accessor(SPM + "totient_nonzero", lambda a, p, q, N, phi: Agg(SEC, [phi]))


@contract(SPM + "random_residue_mod_totient", props=["C11", "C20"], pre=named)
def c_rrt(a):
    p, q, N, phi = primes(need_name(a))

    def make(b, st):
        return mk(SUN, b.mir, bound=MB, value=Agg(SEC, [ext.draw(st, "rnd", lambda x: [x >= 0, x < phi])]))

    def test(b, st, v):
        x = unwrap1(fld(b.mir, v, "value"))
        return [("below the totient", z3.And(x >= 0, x < phi)), ("bound", fld(b.mir, v, "bound") == MB)]
    return [(TRUE, Rel(make, test))]


# ------------------------------------------------------------------ precomputation
@contract([PMM + "new", PMWM + "into_precomputed"], props=["C11"])
def c_pm_new(a):
    N = unwrap1(a[0])
    odd = MOD(norm(N), z3.IntVal(2)) == 1
    return [(odd, mk_pm(a.ex, N)), (z3.Not(odd), PANICS)]


@contract(PKK + "new", props=["C11"])
def c_pk_new(a):
    N = unwrap1(fld(a.mir, a[0], "modulus"))
    return [(TRUE, mk_pk(a.ex, N))]


@contract(PKWM + "into_precomputed", props=["C11"])
def c_pkw_into(a):
    N = unwrap1(a[0])
    odd = MOD(norm(N), z3.IntVal(2)) == 1
    return [(odd, mk_pk(a.ex, N)), (z3.Not(odd), PANICS)]


@contract(SKWM + "public_key", props=["C11"])
def c_pubkey(a):
    return [(TRUE, mk(PKW, a.mir, modulus=mk_pmw(a.ex, n_of(a))))]


@builder(SKW)
def b_skw(ex, st, t, name):
    primes(name)
    return mk(SKW, ex.mir, primes=fld(ex.mir, mk_primes(ex, name), "primes"))


def congruent(x, c, m):
    d = strip_mod(norm(x - c), Mod(m))
    return z3.simplify(d == 0) if conc(d) is not None else z3.Or(d == 0, MOD(norm(d), norm(m)) == 0)


def c_sk_new(a):
    """every precomputed constant is what its name says"""
    n = need_name(a)
    p, q, N, phi = primes(n)

    def make(b, st):
        return mk_sk(b.ex, n)

    def test(b, st, v):
        gs = []
        exp = mk_sk(b.ex, n)
        for f, _ in b.mir.adts[SK]["variants"][0][1]:
            if f == "nonsquare_sampling_constant":
                u = fld(b.mir, v, f).fs[0]
                gs += [(f + ": residue modulo N", TRUE if u.m.name == mod_n(N).name else FALSE), (f + " = -1 mod p", congruent(as_int(u), z3.IntVal(-1), p)), (f + " = 1 mod q", congruent(as_int(u), z3.IntVal(1), q))]
            else:
                gs += eq_goals(b.ex, st, fld(b.mir, v, f), fld(b.mir, exp, f), f)
        return gs
    return [(TRUE, Rel(make, test))]


contract([SKM + "new", SKWM + "into_precomputed"], props=["C11"], pre=named)(c_sk_new)


# ------------------------------------------------------------------ residue number system
def rns(a, x, y):
    return Agg("tuple", [x, y])


def rns_arg(ex, st, t, name):
    while t[0] == "ref":
        return ex.ref(st, rns_arg(ex, st, t[2], name), t[1])
    p, q, N, phi = primes("self@" + name.split("@")[1].split(".")[0])
    return Agg("tuple", [elem(name + ".0", Mod(p)), elem(name + ".1", Mod(q))])


@contract(SKM + "rns_split", props=["C11"], pre=named)
def c_split(a):
    p, q, N, phi = primes(need_name(a))
    x = a[1]
    return [(TRUE, Agg("tuple", [Res(Mod(p), e=x), Res(Mod(q), e=x)]))]


@contract(SKM + "rns_join", props=["C11"], pre=named, args={"rns": rns_arg})
def c_join(a):
    """the number below N with the given residues"""
    p, q, N, phi = primes(need_name(a))
    x, y = a[1].fs

    def make(b, st):
        return ext.draw(st, "rns", lambda z: [z >= 0, z < N])

    def test(b, st, v):
        return [("below the modulus", z3.And(v >= 0, v < N)), ("residue modulo p", congruent(v, as_int(x), p)), ("residue modulo q", congruent(v, as_int(y), q))]

    def make2(b, st):
        z = make(b, st)
        core.CANON[z.decl().name()] = poly(N).key()
        k = list(dict(list(poly(z).d)[0]))[0]
        core.CONG[(k, Mod(p).name)] = as_int(x)
        core.CONG[(k, Mod(q).name)] = as_int(y)
        return z
    return [(TRUE, Rel(make2, test))]


def sqrt_arg(ex, st, t, name):
    while t[0] == "ref":
        return ex.ref(st, sqrt_arg(ex, st, t[2], name), t[1])
    uid = name.split("@")[1].split(".")[0]
    p, q, N, phi = primes("self@" + uid)
    m = (p, q)[SQRT_CASE[0]]
    return elem(name, Mod(m)) if name.startswith("x") else Agg(SEC, [m])


SQRT_CASE = [0]
HOOKS = []      # told of every residue that a contract introduces


def sqrt_of(x, m):
    return Res(x.m, w=wpow(x.m, as_word(x), norm(DIV(m, z3.IntVal(4)) + 1)))


@contract(SKM + "sqrt_part", props=["C11", "C19"], args={"x": sqrt_arg, "modulus": sqrt_arg})
def c_sqrt(a):
    """the candidate x^((m + 1) / 4), if it is a root of x"""
    x, m = a[1], unwrap1(a[2])
    c = sqrt_of(x, m)
    ok = res_eq(res_mul(c, c), x)
    return [(ok, some(c)), (z3.Not(ok), NONE)]


@contract(SKM + "rns_sqrt", props=["C11", "C19"], pre=named, args={"rns": rns_arg})
def c_rns_sqrt(a):
    p, q, N, phi = primes(need_name(a))
    x, y = a[1].fs
    c, d = sqrt_of(x, p), sqrt_of(y, q)
    ok = z3.simplify(z3.And(res_eq(res_mul(c, c), x), res_eq(res_mul(d, d), y)))
    return [(ok, some(Agg("tuple", [c, d]))), (z3.Not(ok), NONE)]


@theorem("a square has a square root, found in either residue", ["C11", "C19"])
def t_sqrt(ex, rep):
    path = SKM + "sqrt_part"
    for i in (0, 1):
        st, vals, env = inputs(ex, path, {}, {"x": lambda ex, st, t, n: ex.ref(st, Op("x")), "modulus": lambda ex, st, t, n: ex.ref(st, Op("x"))})
        uid = st.rp[1:-1]
        p, q, N, phi = primes("self@" + uid)
        m = (p, q)[i]
        CUR[0] = st
        y = elem(f"y@{uid}", Mod(m), True)
        vals[1] = ex.ref(st, res_mul(y, y))
        vals[2] = ex.ref(st, Agg(SEC, [m]))
        for k, (s, v) in enumerate(ex.exec_body(st, "fn", path, ex.mir.body("fn", path), env, vals)):
            nm = f"sqrt_part modulo {'pq'[i]}: path {k}"
            if isinstance(v, Panic) or v.var != 1:
                prove(rep, nm + ": a root is found", s.pc, FALSE)
            else:
                r = v.fs[0]
                prove(rep, nm + ": the root is the root", s.pc, res_eq(res_mul(r, r), res_mul(y, y)))


# ------------------------------------------------------------------ squares and non-squares
def square_sign(e, m):
    """sign s if the integer e is s times a product of even powers modulo m"""
    p = poly(strip_mod(e, m))
    if len(p.d) != 1:
        return None
    (k, c), = p.d.items()
    return c if c in (1, -1) and all(n % 2 == 0 for _, n in k) else None


def alternatives(e):
    """the possible values of a term with conditionals"""
    e = z3.simplify(e) if isint(e) else e
    for t in terms_of([e]):
        if t.decl().kind() == z3.Z3_OP_ITE and isint(t):
            r = []
            for b in (t.arg(1), t.arg(2)):
                r += alternatives(z3.substitute(e, (t, b)))
            return r
    return [e]


@contract(SKM + "random_nonsquare_residue", props=["C11", "C19"], pre=named)
def c_nonsq(a):
    """below N, invertible, a square modulo exactly one of the primes and the negative of one modulo the other (Jacobi symbol -1)"""
    p, q, N, phi = primes(need_name(a))

    def make(b, st):
        x = new_rnd(b.ex, st, N, "nonsquare")
        for f in HOOKS:
            f("nonsquare", x, N)
        return x

    def test(b, st, v):
        ok = []
        for e in alternatives(v):
            s = (square_sign(e, Mod(p)), square_sign(e, Mod(q)))
            ok.append(TRUE if s in ((1, -1), (-1, 1)) else FALSE)
        return [("below the modulus", z3.And(v >= 0, v < N)), ("no square: opposite characters modulo p and q", z3.And(ok))]
    return [(TRUE, Rel(make, test))]


@contract(PMM + "random_quadratic_residue", props=["C11", "C12", "C20"])
def c_rqr(a):
    """the square of an invertible residue"""
    N = unwrap1(a[0])

    def make(b, st):
        y = Res(mod_n(N), e=new_rnd(b.ex, st, N))
        return res_mul(y, y)

    def test(b, st, v):
        return [("residue modulo N", TRUE if v.m.name == mod_n(N).name else FALSE), ("a square of a unit", is_square(v))]
    return [(TRUE, Rel(make, test))]


def is_square(v):
    for k, (b, x) in as_word(v).items():
        if any(c % 2 for c in poly(x).d.values()):
            return FALSE
    return ext.unit_cond(v)


# ------------------------------------------------------------------ ring-Pedersen
@builder(RPS)
def b_rps(ex, st, t, name):
    p, q, N, phi = primes(name, False)
    lam = z3.Int(f"lambda({name})")
    if lam.decl().name() not in FACT:
        fact(lam.decl().name(), lam >= 0, lam < P2(norm(MB - 2)), lam < DIV(phi, z3.IntVal(4)))
    return mk(RPS, ex.mir, primes=mk_primes(ex, name), **{"lambda": mk(SUN, ex.mir, bound=norm(MB - 2), value=Agg(SEC, [lam]))})


@contract(RPS + "::<P>::modulus", props=["C11", "C20"], pre=lambda a: [])
def c_rps_mod(a):
    return [(TRUE, n_of_rps(a))]


def n_of_rps(a, i=0):
    v = fld(a.mir, fld(a.mir, a[i], "primes"), "primes")
    p, q = [unwrap1(fld(a.mir, v, x)) for x in "pq"]
    n = of_primes(a, p, q)
    return modulus_int(n) if n else norm(p * q)


@contract(RPS + "::<P>::random_residue_mod_totient", props=["C20"])
def c_rps_rr(a):
    pr = fld(a.mir, a[0], "primes")
    phi = unwrap1(fld(a.mir, pr, "totient"))

    def make(b, st):
        return mk(SUN, b.mir, bound=MB, value=Agg(SEC, [ext.draw(st, "rnd", lambda x: [x >= 0, x < phi])]))

    def test(b, st, v):
        x = unwrap1(fld(b.mir, v, "value"))
        return [("below the totient", z3.And(x >= 0, x < phi)), ("bound", fld(b.mir, v, "bound") == MB)]
    return [(TRUE, Rel(make, test))]


@contract(RPS + "::<P>::random", props=["C11", "C20"])
def c_rps_random(a):
    """lambda in [0, phi / 4), primes safe and separate"""
    def test(b, st, v):
        pr = fld(b.mir, v, "primes")
        w = fld(b.mir, pr, "primes")
        p, q = [unwrap1(fld(b.mir, w, x)) for x in "pq"]
        phi = unwrap1(fld(b.mir, pr, "totient"))
        lam = fld(b.mir, v, "lambda")
        l = unwrap1(fld(b.mir, lam, "value"))
        gs = [("totient", phi == norm((p - 1) * (q - 1))), ("lambda below a quarter of the totient", z3.And(l >= 0, l < DIV(norm((p - 1) * (q - 1)), z3.IntVal(4)))), ("lambda bound", fld(b.mir, lam, "bound") == norm(MB - 2))]
        return gs + [(f"{n}: {t}", g) for n, x in (("p", p), ("q", q)) for t, g in prime_goals(x, False)] + [("p and q are separate draws", FALSE if eqpoly(p, q) else TRUE)]

    def make(b, st):
        p, q = new_prime(st, False), new_prime(st, False)
        phi = norm((p - 1) * (q - 1))
        lam = ext.draw(st, "lambda", lambda l: [l >= 0, l < P2(norm(MB - 2)), l < DIV(phi, z3.IntVal(4))])
        pr = mk(SP, b.mir, primes=mk(SPW, b.mir, p=Agg(SEC, [p]), q=Agg(SEC, [q])), totient=Agg(SEC, [phi]))
        return mk(RPS, b.mir, primes=pr, **{"lambda": mk(SUN, b.mir, bound=norm(MB - 2), value=Agg(SEC, [lam]))})
    return [(TRUE, Rel(make, test))]


@contract(RPP + "::<P>::random_with_secret", props=["C11", "C12", "C20"])
def c_rws(a):
    """t an invertible square, s = t^lambda"""
    N = n_of_rps(a, 1)
    lam = unwrap1(fld(a.mir, fld(a.mir, a[1], "lambda"), "value"))

    def make(b, st):
        y = Res(mod_n(N), e=new_rnd(b.ex, st, N))
        t = res_mul(y, y)
        return mk(RPP, b.mir, modulus=mk_pm(b.ex, N), base_randomizer=t, base_value=res_pow(t, lam))

    def test(b, st, v):
        t, s = fld(b.mir, v, "base_randomizer"), fld(b.mir, v, "base_value")
        return eq_goals(b.ex, st, fld(b.mir, v, "modulus"), mk_pm(b.ex, N), "modulus") + [("t is a square of a unit", is_square(t)), ("s = t^lambda", res_goal(s, res_pow(t, lam)))]
    return [(TRUE, Rel(make, test))]


@contract(SKWM + "random", props=["C11"])
def c_skw_random(a):
    def make(b, st):
        return mk(SKW, b.mir, primes=mk(SPW, b.mir, p=Agg(SEC, [new_prime(st, True)]), q=Agg(SEC, [new_prime(st, True)])))

    def test(b, st, v):
        p, q = [unwrap1(fld(b.mir, fld(b.mir, v, "primes"), x)) for x in "pq"]
        return [(f"p: {l}", g) for l, g in prime_goals(p, True)] + [(f"q: {l}", g) for l, g in prime_goals(q, True)] + \
            [("p and q are separate draws", FALSE if eqpoly(p, q) else TRUE)]
    return [(TRUE, Rel(make, test))]


def power_of(s, t):
    """the residue s is some power of t"""
    ws, wt = as_word(s), as_word(t)
    if set(ws) != set(wt):
        return FALSE
    lams = set()
    for k in ws:
        (pt,) = [poly(wt[k][1])]
        if set(pt.d) != {()}:
            return FALSE
        c = pt.d[()]
        ps = poly(ws[k][1])
        if any(x % c for x in ps.d.values()):
            return FALSE
        lams.add(Poly({m: x // c for m, x in ps.d.items()}).key())
    return TRUE if len(lams) == 1 else FALSE


@contract(RPP + "::<P>::random", props=["C11", "C12"])
def c_rpp_random(a):
    def make(b, st):
        raise Unsupported("random ring-Pedersen parameters at a call site")

    def test(b, st, v):
        t, s = fld(b.mir, v, "base_randomizer"), fld(b.mir, v, "base_value")
        N = unwrap1(fld(b.mir, fld(b.mir, v, "modulus"), "modulus"))
        return eq_goals(b.ex, st, fld(b.mir, v, "modulus"), mk_pm(b.ex, N), "modulus") + \
            [("residues modulo N", TRUE if t.m.name == s.m.name == mod_n(N).name else FALSE), ("t is a square of a unit", is_square(t)), ("s is a power of t", power_of(s, t))]
    return [(TRUE, Rel(make, test))]


# ------------------------------------------------------------------ residues from a hash
def xofs_of(v, dg):
    """constants of v that are draws from the stream of dg; None if v depends on anything else that was drawn"""
    r = []
    for t in terms_of([v]):
        if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            if n in XOFS:
                if key(XOFS[n][0]) != key(dg):
                    return None
                r.append(n)
            elif n.startswith(("rnd", "prime", "lambda", "nonsquare")):
                return None
    return r


@contract([PMM + "invertible_residue_from_xof_reader", PKK + "invertible_residue_from_xof_reader"], props=["C04"], args={"reader": c_curve.xof_reader})
def c_xof_res(a):
    """an invertible residue below N, a function of the modulus and the hash stream alone"""
    N = unwrap1(a[0])
    rd = a[1]
    dg, pos = rd.args
    h = hashlib.sha256(f"{key(dg)}@{key(pos)} {key(norm(N))}".encode()).hexdigest()[:16]

    def make(b, st):
        x = z3.Int("res:" + h)
        if x.decl().name() not in FACT:
            fact(x.decl().name(), x >= 0, x < N, GCD(x, norm(N)) == 1)
            XOFS[x.decl().name()] = (dg, pos, norm(N))
        core.CANON[x.decl().name()] = poly(N).key()
        ext.UNITS.add(x.decl().name())
        for f in HOOKS:
            f("hash", x, N)
        return x

    def test(b, st, v):
        return residue_goals(N, v) + [("taken from the hash stream", TRUE if xofs_of(v, dg) else FALSE)]

    def npos(b, st):
        return Op("xof", dg, z3.Int("pos:" + h))

    def tpos(st, got):
        return [("the reader stays on the stream", TRUE if isinstance(got, Op) and got.tag == "xof" and key(got.args[0]) == key(dg) else FALSE)]
    return [(TRUE, Eff(Rel(make, test), {1: Rel(npos, tpos)}))]
