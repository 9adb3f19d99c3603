"""Contracts of src/tools/sss.rs and of secret_split: sums, products and polynomials over any number of shares"""
from spec import *
from c_curve import *
import core, folds

SH = "tools::sss::ShareId"
POL, PPOL = "tools::sss::Polynomial", "tools::sss::PublicPolynomial"
IDX = z3.IntSort()


def index_fn(name, sort=False):
    """function listing the distinct elements of a collection"""
    core.INJ.add(name)
    if sort:
        ext.SORTED.add(name)
    return z3.Function(name, IDX, IDX)


def length(name, lo=0, hi=2 ** 32):
    n = z3.Int(name)
    if name not in FACT:
        fact(name, n >= lo, n < hi, n < Q)
    return n


class scalar_fn:
    """scalars numbered by an index: their values are reduced"""
    def __init__(self, name, distinct=False, sort=False):
        self.f = index_fn(name, sort) if distinct else z3.Function(name, IDX, IDX)

    def __call__(self, j):
        return Res(QMOD, e=self.f(norm(iv(j))))


def share_id(v):
    return Agg(SH, [scal(v)])


def ids_seq(name, n, sort=True):
    f = scalar_fn(f"SID<{name}>", True, sort)
    return Seq(n=n, f=lambda j: share_id(f(j)), key=f"SID<{name}>[..{key(n)}]")


def id_of(v):
    return as_int(r(v))


def evaluate(n, coef, x):
    """coef(0) + coef(1) x + ... + coef(n-1) x^(n-1)"""
    c0 = coef(z3.IntVal(0))
    if c0.m.name == "G":
        return folds.psum(n, lambda i: res_pow(coef(i), folds.xp(x, i)))
    return Res(QMOD, e=folds.sum_(n, lambda i: as_int(coef(i)) * folds.xp(x, i)))


def lagrange(n, sid, x, j=None):
    """product over k of id_k / (id_k - x), without the k with id_k = x"""
    def factor(k):
        y = sid(k)
        e = core.res_eq(Res(QMOD, e=y), Res(QMOD, e=x))
        if z3.is_true(e):
            return z3.IntVal(1)
        if z3.is_false(e):
            return norm(y * folds.inv_q(y - x))
        old = core.CUR[0]
        s = old.copy() if old is not None else State()
        s.pc = s.pc + [z3.Not(e)]
        core.CUR[0] = s
        try:
            f = norm(y * folds.inv_q(y - x))
            assert folds.is_unit(norm(y - x))
        finally:
            core.CUR[0] = old
        return folds.canon_ite(e, z3.IntVal(1), f)
    return folds.prod_(n, factor)


# ---------------------------------------------------------------- polynomials
@contract("tools::sss::ShareId::<P>::new", props=["C21"])
def sid_new(a):
    return [(TRUE, share_id(Res(QMOD, e=a[0])))]


@contract("tools::sss::shamir_evaluation_points", props=["C21"], pre=lambda a: [a[0] < Q, a[0] < 2 ** 64])
def eval_points(a):
    n = a[0]
    return [(TRUE, Seq(n=n, f=lambda j: share_id(Res(QMOD, e=norm(iv(j) + 1)))))]


def env_of_coef(ex):
    P = ("param", "P")
    return [{"Coef": ("adt", PNT, (P,))}, {"Coef": ("adt", SCAL, (P,))}]


@contract("tools::sss::evaluate_polynomial", props=["C21"], envs=env_of_coef)
def eval_poly(a):
    s, x = a[0], as_int(r(a[1]))
    w = pnt if r(s.at(z3.IntVal(0))).m.name == "G" else scal
    return [(s.n == 0, PANICS), (s.n > 0, w(evaluate(s.n, lambda i: r(s.at(i)), x)))]


def coefs(mir, v, adt):
    return v.fs[0]


@contract("tools::sss::Polynomial::<P>::evaluate", props=["C21"])
def pol_eval(a):
    s = a[0].fs[0]
    return [(s.n == 0, PANICS), (s.n > 0, Agg(SEC, [scal(evaluate(s.n, lambda i: r(s.at(i)), id_of(a[1])))]))]


@contract("tools::sss::PublicPolynomial::<P>::evaluate", props=["C21"])
def ppol_eval(a):
    s = a[0].fs[0]
    return [(s.n == 0, PANICS), (s.n > 0, pnt(evaluate(s.n, lambda i: r(s.at(i)), id_of(a[1]))))]


@contract("tools::sss::Polynomial::<P>::public", props=["C21"])
def pol_public(a):
    s = a[0].fs[0]
    return [(TRUE, Agg(PPOL, [Seq(n=s.n, f=lambda j: pnt(res_pow(gen(), as_int(r(s.at(j))))))]))]


@contract("tools::sss::PublicPolynomial::<P>::coeff0", props=["C21"])
def pol_coeff0(a):
    s = a[0].fs[0]

    def test(a, st, v):
        if v.var == 1:
            return [("an error only for the empty polynomial", s.n == 0)]
        return [("no value for the empty polynomial", s.n > 0)] + eq_goals(a.ex, st, v.fs[0], s.at(z3.IntVal(0)))
    return [(TRUE, Rel(lambda a, st: None, test))]


CONTRACTS["tools::sss::PublicPolynomial::<P>::coeff0"].use = False


def random_coefficients(ex, st, s, c0, n, what):
    """s = c0, followed by n - 1 independently drawn coefficients"""
    old = core.CUR[0]
    gs = [(what + ": number of coefficients", s.n == n), (what + ": the constant term is the secret", res_goal(r(s.at(z3.IntVal(0))), c0))]
    i, j = z3.Int("i!a"), z3.Int("i!b")
    s2 = st.copy()
    s2.pc += [i >= 1, i < n, j >= 1, j < n, z3.Not(i == j)]
    core.CUR[0] = s2
    try:
        if feasible(s2.pc):
            x, y = as_int(r(s.at(i))), as_int(r(s.at(j)))
            for z in (x, y):
                if z.num_args() or not str(z.decl().name()).startswith("rnd"):
                    return gs + [(what + ": coefficients are random draws", FALSE)]
            gs.append((what + ": different coefficients are different draws", z3.BoolVal(not eqpoly(x, y))))
    finally:
        core.CUR[0] = old
    return gs


@contract("tools::sss::Polynomial::<P>::random", props=["C21"], use=False)
def pol_random(a):
    c0, d = r(a[1]), a[2]
    t = lambda a, st, v: random_coefficients(a.ex, st, v.fs[0], c0, z3.If(d >= 1, d, z3.IntVal(1)), "polynomial")
    return [(TRUE, Rel(None, t))]


# ---------------------------------------------------------------- interpolation
def b_id_refs(ex, st, t, name):
    n = length(f"len({name})")
    s = ids_seq(name, n)
    cell = ex.ref(st, s)
    return ext.mkiter(Seq(n=n, f=lambda j: Ref(cell.cell, cell.proj + (("i", j),))))


def iter_seq(a, i):
    return ext.itseq(a.ex, a.st, a.raw[i], True)


def elem_scalar(a, s, j):
    return id_of(a.ex.deref(a.st, s.at(j)))


@contract("tools::sss::interpolation_coeff", props=["C21"], args={0: b_id_refs}, use=False)
def interp(a):
    s = iter_seq(a, 0)
    return [(TRUE, scal(Res(QMOD, e=lagrange(s.n, lambda k: elem_scalar(a, s, k), id_of(a[1])))))]


def b_map(vals, kname=None, lo=0):
    """a map from distinct share identifiers to values"""
    def f(ex, st, t, name):
        n = length(f"len({kname or name})", lo)
        ks = ids_seq(kname or name, n)
        ref = t[0] == "ref"
        m = Agg("map", [ks, vals(name, n)])
        return ex.ref(st, m) if ref else m
    return f


def sec_scalars(name, n):
    f = scalar_fn(f"val<{name}>")
    return Seq(n=n, f=lambda j: Agg(SEC, [scal(f(j))]), key=f"val<{name}>[..{key(n)}]")


def points(name, n):
    return Seq(n=n, f=lambda j: pnt(pt_at(name, j)), key=f"pt<{name}>[..{key(n)}]")


def pt_at(name, j):
    b = f"pt<{name}>({key(iv(j))})"
    return Res(GROUP, w={b: (b, z3.IntVal(1))})


def join_value(ks, vs):
    """the Lagrange combination of values at zero"""
    n = ks.n
    sid = lambda j: id_of(ks.at(j))
    lam = lambda j: lagrange(n, sid, sid(j), j)
    with folds.at_index(n) as k:
        grp = r(vs.at(k)).m.name == "G"
    if grp:
        return folds.psum(n, lambda j: res_pow(r(vs.at(j)), lam(j)))
    return Res(QMOD, e=folds.sum_(n, lambda j: as_int(r(vs.at(j))) * lam(j)))


@contract("tools::sss::shamir_join_scalars", props=["C21"], args={0: b_map(sec_scalars)}, use=False)
def join_scalars(a):
    return [(TRUE, Agg(SEC, [scal(join_value(*a[0].fs))]))]


@contract("tools::sss::shamir_join_points", props=["C21"], args={0: b_map(points)}, use=False)
def join_points(a):
    return [(TRUE, pnt(join_value(*a[0].fs)))]


def b_indices(ex, st, t, name):
    s = ids_seq(name, length(f"len({name})"))
    return ex.ref(st, s)


def polynomial_shares(ex, st, m, ids, secret, t):
    """m maps every id x of `ids` to f(x) for one polynomial f = secret + c_1 X + ... + c_(t-1) X^(t-1) with random c_i"""
    ks, vs = m.fs
    gs = [("number of shares", ks.n == ids.n)]
    old = core.CUR[0]
    seen = []
    for nm in ("i!a", "i!b"):
        j = z3.Int(nm)
        s2 = st.copy()
        s2.pc += [j >= 0, j < ids.n]
        core.CUR[0] = s2
        try:
            gs += [(l, z3.Implies(z3.And(j >= 0, j < ids.n), g)) for l, g in eq_goals(ex, s2, ks.at(j), ids.at(j), "identifier of the share")]
            x = id_of(ids.at(j))
            p = poly(as_int(r(vs.at(j)))) - poly(secret)
            if p.zero():
                gs.append(("a share that is the secret, for threshold one", t == 1))
                seen.append("")
                continue
            xk = poly(x)
            for at in sorted({q for m_ in p.d for q, _ in m_ if q in folds.SUMS}):
                if (p - xk * poly(z3.Int(at))).zero():
                    p = poly(z3.Int(at))
                    break
            sums = [folds.SUMS.get(m_[0][0]) for m_ in p.d if len(m_) == 1]
            if len(p.d) != 1 or list(p.d.values()) != [1] or not sums or sums[0] is None or sums[0][0] != "SUM":
                return gs + [("the share is the secret plus a sum over the other coefficients", FALSE)]
            _, n, body, k = sums[0]
            gs.append(("number of further coefficients", n == t - 1))
            b = poly(body)
            xp = str(folds.xp(x, k).decl().name())
            if len(b.d) != 1 or list(b.d.values()) != [1] or len(list(b.d)[0]) != 2 or (xp, 1) not in list(b.d)[0]:
                return gs + [("coefficient i is multiplied by the i-th power of the identifier", FALSE)]
            c = [a for a, e in list(b.d)[0] if a != xp][0]
            gs.append(("the coefficients are random draws, one for each power", z3.BoolVal(c.startswith("rnd") and str(k) in c and nm not in c)))
            seen.append(c)
        finally:
            core.CUR[0] = old
    return gs + [("all shares are values of the same polynomial", z3.BoolVal(seen[0] == seen[1]))]


@contract("tools::sss::shamir_split", props=["C21"], args={3: b_indices}, use=False, pre=lambda a: [a[2] >= 1], split=lambda a: [a[2] <= 1])
def shamir_split(a):
    sec, t, ids = as_int(r(a[1])), a[2], a[3]
    return [(TRUE, Rel(None, lambda a, st, v: polynomial_shares(a.ex, st, v, ids, sec, t)))]


# ---------------------------------------------------------------- additive shares
def additive(ex, st, s, secret, n):
    """s: n scalars that add up to the secret"""
    CUR[0] = st
    return [("number of shares", s.n == n), ("the shares add up to the secret", res_goal(Res(QMOD, e=folds.sum_(s.n, lambda j: as_int(r(s.at(j))))), secret))]


@contract("curve::arithmetic::secret_split", props=["C23"], use=False, pre=lambda a: [a[2] >= 1])
def secret_split(a):
    sec, n = r(a[1]), a[2]
    return [(TRUE, Rel(None, lambda a, st, v: additive(a.ex, st, v, sec, n)))]
