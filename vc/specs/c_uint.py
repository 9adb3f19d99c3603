"""Contracts of src/uint"""
from spec import *

S, Pb, U = "uint::secret_signed::SecretSigned::<T>::", "uint::public_signed::PublicSigned::<T>::", "uint::secret_unsigned::SecretUnsigned::<T>::"
IM = "<uint::secret_signed::SecretSigned<T> as "
zmax = lambda a, b: z3.If(a >= b, a, b)


def add_case(a, e, bound):
    B = a.B("T")
    return [(TRUE, ct(mk_ss(a.mir, e, B, bound), z3.simplify(bound < B)))]


@contract([IM + "crypto_bigint::CheckedAdd>::checked_add", IM + "crypto_bigint::CheckedAdd<uint::public_signed::PublicSigned<T>>>::checked_add"], props=["C01"])
def checked_add(a):
    return add_case(a, a.signed(0) + a.signed(1), zmax(a.bound(0), a.bound(1)) + 1)


@contract(IM + "crypto_bigint::CheckedSub>::checked_sub", props=["C01"])
def checked_sub(a):
    return add_case(a, a.signed(0) - a.signed(1), zmax(a.bound(0), a.bound(1)) + 1)


@contract([IM + "crypto_bigint::CheckedMul>::checked_mul", IM + "crypto_bigint::CheckedMul<uint::public_signed::PublicSigned<T>>>::checked_mul"], props=["C01"])
def checked_mul(a):
    return add_case(a, a.signed(0) * a.signed(1), a.bound(0) + a.bound(1))


def op_case(a, e, bound):
    B = a.B("T")
    return [(bound < B, mk_ss(a.mir, e, B, bound)), (bound >= B, PANICS)]


@contract([IM + "core::ops::Add>::add", IM + "core::ops::Add<&uint::secret_signed::SecretSigned<T>>>::add", IM + "core::ops::Add<uint::public_signed::PublicSigned<T>>>::add"], props=["C01"])
def add(a):
    return op_case(a, a.signed(0) + a.signed(1), zmax(a.bound(0), a.bound(1)) + 1)


@contract([IM + "core::ops::Sub>::sub"], props=["C01"])
def sub_(a):
    return op_case(a, a.signed(0) - a.signed(1), zmax(a.bound(0), a.bound(1)) + 1)


@contract([IM + "core::ops::Mul>::mul", IM + "core::ops::Mul<&uint::secret_signed::SecretSigned<T>>>::mul", IM + "core::ops::Mul<uint::public_signed::PublicSigned<T>>>::mul",
           "<&uint::secret_signed::SecretSigned<T> as core::ops::Mul<uint::public_signed::PublicSigned<T>>>::mul"], props=["C01"])
def mul_(a):
    return op_case(a, a.signed(0) * a.signed(1), a.bound(0) + a.bound(1))


@contract([S + "neg", IM + "core::ops::Neg>::neg", "<&uint::secret_signed::SecretSigned<T> as core::ops::Neg>::neg"], props=["C01"])
def neg_(a):
    return [(TRUE, mk_ss(a.mir, -a.signed(0), a.B("T"), a.bound(0)))]


@contract([S + "is_negative", Pb + "is_negative"], props=["C01"])
def is_negative(a):
    return [(TRUE, z3.simplify(a.signed(0) < 0))]


@contract([S + "bound", Pb + "bound", U + "bound"], props=["C01"])
def bound_(a):
    return [(TRUE, a.bound(0))]


@contract(S + "zero", props=["C01"])
def zero_(a):
    return [(TRUE, mk_ss(a.mir, 0, a.B("T"), 0))]


def absv(a, i=0):
    x = a.signed(i)
    return IF(x < 0, -x, x)


@contract(S + "abs_value", props=["C01"])
def abs_value(a):
    return [(TRUE, Agg(SEC, [absv(a)]))]


@contract(S + "abs", props=["C01"])
def abs_(a):
    return [(TRUE, mk(SUN, a.mir, bound=a.bound(0), value=Agg(SEC, [absv(a)])))]


@contract([S + "to_public"], props=["C01"])
def to_public(a):
    return [(TRUE, mk_ps(a.mir, a.signed(0), a.B("T"), a.bound(0)))]


@contract(S + "to_wide", props=["C01"], pre=lambda a: [a.B("W") >= a.B("T")])
def to_wide_(a):
    return [(TRUE, mk_ss(a.mir, a.signed(0), a.B("W"), a.bound(0)))]


@contract(S + "mul_wide_public", props=["C01"], pre=lambda a: [a.B("W") > a.bound(0) + a.bound(1)])
def mul_wide_public(a):
    return [(TRUE, mk_ss(a.mir, a.signed(0) * a.signed(1), a.B("W"), a.bound(0) + a.bound(1)))]


# range of the paper's ±2^exp: [-2^(exp-1)+1, 2^(exp-1)]
def in_range(v, e):
    h = P2(norm(e - 1))
    return z3.And(v >= -h + 1, v <= h)


@contract([S + "is_in_exponent_range"], props=["C02"], pre=lambda a: [a[1] >= 1, a[1] <= a.B("T")])
def is_in_range(a):
    return [(TRUE, z3.simplify(in_range(a.signed(0), a[1])))]


@contract(Pb + "is_in_exponent_range", props=["C02"], pre=lambda a: [a[1] >= 1, a[1] <= a.B("T")])
def pis_in_range(a):
    return [(TRUE, z3.simplify(in_range(a.signed(0), a[1])))]


@contract(S + "assert_exponent_range", props=["C02"], pre=lambda a: [a[1] >= 1, a[1] <= a.B("T")])
def assert_range(a):
    c = z3.simplify(in_range(a.signed(0), a[1]))
    return [(c, UNIT), (z3.Not(c), PANICS)]


@contract(S + "ensure_exponent_range", props=["C02"], pre=lambda a: [a[1] >= 1, a[1] <= a.B("T")])
def ensure_range(a):
    c = z3.simplify(z3.And(in_range(a.signed(0), a[1]), a[1] < a.B("T") - 1))
    return [(TRUE, ct(mk_ss(a.mir, a.signed(0), a.B("T"), a[1] + 1), c))]


# ---------------------------------------------------------------- PublicSigned
@contract(Pb + "abs", props=["C01"])
def p_abs(a):
    return [(TRUE, absv(a))]


@contract(Pb + "value", props=["C01"])
def p_value(a):
    r = a.ex.lastref(a.st, a.raw[0])
    return [(TRUE, Ref(r.cell, r.proj + (("f", a.mir.field(PSG, "value")),)))]


@contract([Pb + "neg", "<uint::public_signed::PublicSigned<T> as core::ops::Neg>::neg"], props=["C01"])
def p_neg(a):
    return [(TRUE, mk_ps(a.mir, -a.signed(0), a.B("T"), a.bound(0)))]


@contract(Pb + "to_wide", props=["C01"], pre=lambda a: [a.B("W") >= a.B("T")])
def p_to_wide(a):
    return [(TRUE, mk_ps(a.mir, a.signed(0), a.B("W"), a.bound(0)))]


# ---------------------------------------------------------------- constructors
def opt_cases(cond, v):
    return [(cond, some(v)), (z3.simplify(z3.Not(cond)), NONE)]


@contract(Pb + "new_from_abs", props=["C03"])
def p_new_from_abs(a):
    x, b, neg = a[0], a[1], a[2]
    x = uintv(x, a.B("T"))
    return opt_cases(z3.simplify(z3.And(b < a.B("T"), x < P2(norm(b)))), mk_ps(a.mir, z3.If(neg, -x, x), a.B("T"), b))


@contract(Pb + "new_positive", props=["C03"])
def p_new_positive(a):
    x = uintv(a[0], a.B("T"))
    return opt_cases(z3.simplify(z3.And(a[1] < a.B("T"), x < P2(norm(a[1])))), mk_ps(a.mir, x, a.B("T"), a[1]))


def twos(x, B):
    """the signed integer a word stands for"""
    if isinstance(x, W) and x.e.num_args() == 0:
        return x.e
    u = uintv(x, B)
    return z3.If(u >= P2(norm(B - 1)), u - P2(norm(B)), u)


@contract(Pb + "new_from_unsigned", props=["C03"])
def p_new_from_unsigned(a):
    B = a.B("T")
    x = signed_view(a, a[0], B)
    return opt_cases(z3.simplify(z3.And(a[1] < B, lt_p2(a.st, x, a[1]))), mk_ps(a.mir, x, B, a[1]))


def signed_view(a, w, B):
    """signed value of a word; a word known to be in the signed range is itself"""
    if isinstance(w, W):
        h = P2(norm(B - 1))
        if below_p2(a.st, w.e, norm(B - 1)) or check(a.st.pc, z3.And(w.e < h, w.e >= -h), 3000) == "proved":
            return w.e
    u = uintv(w, B)
    if check(a.st.pc, u < P2(norm(B - 1)), 3000) == "proved":
        return u
    return z3.If(u >= P2(norm(B - 1)), u - P2(norm(B)), u)


@contract(S + "new_from_unsigned", props=["C03"])
def s_new_from_unsigned(a):
    B = a.B("T")
    x = signed_view(a, a[0].fs[0], B)
    return [(TRUE, ct(mk_ss(a.mir, x, B, a[1]), z3.simplify(z3.And(a[1] < B, lt_p2(a.st, x, a[1])))))]


@contract(S + "new_positive", props=["C03"])
def s_new_positive(a):
    B = a.B("T")
    x = uintv(a[0].fs[0], B)
    return [(TRUE, ct(mk_ss(a.mir, x, B, a[1]), z3.simplify(z3.And(a[1] < B, x < P2(norm(a[1]))))))]


@contract(S + "new_from_abs", props=["C03"])
def s_new_from_abs(a):
    B = a.B("T")
    x = uintv(a[0].fs[0], B)
    return [(x <= P2(norm(B - 1)), ct(mk_ss(a.mir, z3.If(a[2], -x, x), B, a[1]), z3.simplify(z3.And(a[1] < B, x < P2(norm(a[1])))))),
            (x > P2(norm(B - 1)), ANY)]


@contract(S + "new_modulo", props=["C03"], pre=lambda a: [uintv(a[0].fs[0], a.B("T")) < a[1], a[1] >= 1, a[2] >= 1, a[2] <= a.B("T"), a[1] < P2(norm(a[2]))])
def s_new_modulo(a):
    """the representative in (-m/2, m/2]"""
    B = a.B("T")
    x, m = uintv(a[0].fs[0], B), a[1]
    c = z3.If(2 * x > m + 1, x - m, z3.If(2 * x <= m, x, z3.If(z3.And(2 * x == m + 1), x - m, x)))
    c = z3.If(2 * x > m, x - m, x)
    return [(TRUE, ct(mk_ss(a.mir, c, B, a[2] - 1), z3.And(c < P2(norm(a[2] - 1)), -c < P2(norm(a[2] - 1)))))]


@contract([Pb + "one"], props=["C03"])
def p_one(a):
    return [(TRUE, mk_ps(a.mir, 1, a.B("T"), 1))]


@contract([Pb + "zero"], props=["C03"])
def p_zero(a):
    return [(TRUE, mk_ps(a.mir, 0, a.B("T"), 0))]


# ---------------------------------------------------------------- samplers
def the_draw(goal_e, lo_hi):
    pass


def uniform(mk_v, lo, hi, bound, B, tag):
    """the result is lo + r for a draw r that is uniform over [0, hi - lo]"""
    def make(a, st):
        lo_, hi_ = lo(a), hi(a)
        r = draw(st, "rnd", lambda x: [x >= 0, x <= hi_ - lo_])
        v = mk_v(a.mir, r + lo_, B(a), bound(a))
        for _, g in inv_goals(a.ex, v):
            st.pc.append(g)
        return v

    def test(a, st, v):
        w = sval(a.mir, v)
        e = w.e if isinstance(w, W) else w
        gs = [("bound", fld(a.mir, v, "bound") == bound(a))]
        ds = [x for x in terms_of([e]) if x.num_args() == 0 and x.decl().name().startswith("rnd")]
        if len(ds) != 1:
            raise Unsupported(f"sampler with {len(ds)} draws")
        d = ds[0]
        cand = norm(e - d)
        # e == d + lo, and the draw ranges over exactly [0, hi - lo]
        gs.append((f"{tag}: value = draw + lower end", ext.veq(W(e, B(a)), W(norm(d + lo(a)), B(a)))))
        ub = [f for f in FACT[d.decl().name()]]
        x = z3.Int("any!")
        fs = z3.And([z3.substitute(f, (d, x)) for f in ub])
        gs.append((f"{tag}: draw is uniform over the whole range", fs == z3.And(x >= 0, x <= hi(a) - lo(a))))
        return gs + inv_goals(a.ex, v)
    return Rel(make, test)


def sampler_cases(a, exp, scale, Bw):
    h = P2(norm(exp - 1))
    okc = z3.And(exp > 0, exp < a.B("T"))
    bnd = (lambda a: norm(exp + BITS(norm(scale)))) if scale is not None else (lambda a: exp)
    sc = scale if scale is not None else z3.IntVal(1)
    r = uniform(mk_ss, lambda a: norm(1 - sc * h), lambda a: norm(sc * h), bnd, lambda a: Bw, "sampler")
    return [(okc, r), (z3.Not(okc), PANICS)]


@contract(S + "random_in_exponent_range", props=["C03"])
def rnd_range(a):
    return sampler_cases(a, a[1], None, a.B("T"))


def scale_of(a):
    v = a[2]
    return core.modp(v.e, P2(norm(v.B))) if isinstance(v, W) else v


def scale_pre(a, g):
    s = scale_of(a)
    return [s >= 1, a[1] + BITS(norm(s)) < a.B(g)]


@contract(S + "random_in_exponent_range_scaled", props=["C03"], pre=lambda a: scale_pre(a, "W") + [a.B("W") >= a.B("T")])
def rnd_range_scaled(a):
    return sampler_cases(a, a[1], scale_of(a), a.B("W"))


@contract(S + "random_in_exponent_range_scaled_wide", props=["C03"], pre=lambda a: scale_pre(a, "XW") + [a.B("XW") >= a.B("W")])
def rnd_range_scaled_wide(a):
    return sampler_cases(a, a[1], scale_of(a), a.B("XW"))


# ---------------------------------------------------------------- exponentiation
E_ = "<T as uint::traits::Exponentiable<uint::"


def res_arg(ex, st, t, name):
    """an arbitrary element of an arbitrary multiplicative group of residues"""
    m = Mod(z3.Int("M"))
    if "M" not in FACT:
        fact("M", z3.Int("M") >= 2)
    return ex.ref(st, Res(m, w={"g": (z3.Int("g"), z3.IntVal(1))}))


def invertible(r):
    return unit_cond(r)


@contract(E_ + "secret_signed::SecretSigned<V>>>::pow", props=["C12"], args={0: res_arg})
def pow_ss(a):
    g = a[0]
    r = res_pow(g, a.signed(1))
    u = unit_of_power(g, a.signed(1))
    return [(u, r), (z3.simplify(z3.Not(u)), ANY)]


def unit_of_power(g, x):
    return invertible(g)


@contract(E_ + "public_signed::PublicSigned<V>>>::pow", props=["C12"], args={0: res_arg})
def pow_ps(a):
    g = a[0]
    r = res_pow(g, a.signed(1))
    u = invertible(g)
    c = z3.simplify(z3.Or(u, a.signed(1) >= 0))
    return [(c, r), (z3.simplify(z3.Not(c)), PANICS)]


@contract(E_ + "secret_unsigned::SecretUnsigned<V>>>::pow", props=["C12"], args={0: res_arg})
def pow_su(a):
    x = sval(a.mir, a[1])
    x = x if isint(x) else x
    return [(TRUE, res_pow(a[0], x))]


# ---------------------------------------------------------------- integers from the hash
def xof_reader(ex, st, t, name):
    return ex.ref(st, Op("xof", Op("digest", Op("raw", Op("any"))), z3.Int("pos")), True)


@contract("<T as uint::traits::FromXofReader>::from_xof_reader", props=["C04"], args={0: xof_reader})
def from_xof(a):
    B, n = a.B("T"), a[1]
    by = norm(DIV(norm(n + 7), z3.IntVal(8)))
    rd = a[0]
    x = xof_draw(a.ex, a.st, rd, by)
    v = mod(x, P2(n))
    return [(n <= B, Eff(v, {0: Op("xof", rd.args[0], norm(rd.args[1] + by))})), (n > B, PANICS)]


@contract(Pb + "from_xof_reader_in_exponent_range", props=["C04"], args={0: xof_reader})
def p_from_xof(a):
    B, n = a.B("T"), a[1]
    by = norm(DIV(norm(n + 7), z3.IntVal(8)))
    rd = a[0]
    x = xof_draw(a.ex, a.st, rd, by)
    v = mod(x, P2(n)) - P2(norm(n - 1)) + 1
    okc = z3.And(n > 0, n < B)
    return [(okc, Eff(mk_ps(a.mir, v, B, n), {0: Op("xof", rd.args[0], norm(rd.args[1] + by))})), (z3.Not(okc), PANICS)]
