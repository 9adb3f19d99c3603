"""Contracts of src/curve/arithmetic.rs"""
from spec import *
import core
import hashlib

SC, PT = "curve::arithmetic::Scalar::<P>::", "curve::arithmetic::Point::<P>::"
CB = z3.Int("BYTES<CurveUint>")


def scal(r):
    return Agg(SCAL, [r])


def pnt(r):
    return Agg(PNT, [r])


def xof_reader(ex, st, t, name):
    return ex.ref(st, Op("xof", Op("digest", Op("raw", Op("any"))), z3.Int("pos")), True)


def xof_scalar(ex, st, rd):
    """the scalar derived from the reader at its current position: an unbiased reduction of twice the needed bytes"""
    dg, pos = rd.args
    name = "chal:" + hashlib.sha256(f"{key(dg)}@{key(pos)}".encode()).hexdigest()[:16]
    XOFS[name] = (dg, pos, norm(2 * CB))
    x = z3.Int(name)
    if name not in FACT:
        fact(name, x >= 0, x < Q)
    core.CANON[name] = "1*q"
    return x


def s_xof(a):
    rd = a[0]

    def make(a, st):
        return scal(Res(QMOD, e=xof_scalar(a.ex, st, rd)))

    def test(a, st, v):
        lo = xof_draw(a.ex, st, rd, CB)
        hi = xof_draw(a.ex, st, Op("xof", rd.args[0], norm(rd.args[1] + CB)), CB)
        return eq_goals(a.ex, st, v, scal(Res(QMOD, e=hi * P2(z3.Int("BITS<CurveUint>")) + lo)))
    return [(TRUE, Eff(Rel(make, test), {0: Op("xof", rd.args[0], norm(rd.args[1] + 2 * CB))}))]


contract(SC + "from_xof_reader", props=["C04"], args={0: xof_reader})(s_xof)


def r(v):
    while isinstance(v, Agg):
        v = v.fs[0]
    return v


@contract(SC + "mul_by_generator", props=["C07"])
def mulgen(a):
    return [(TRUE, pnt(res_pow(gen(), as_int(r(a[0])))))]


@contract(SC + "try_from_be_bytes", props=["C05"])
def s_tryfrom(a):
    b = as_be(a[0])
    if b is None:
        return [(TRUE, ANY)]
    good = z3.simplify(z3.And(b.n == SL, b.v < Q))
    return [(good, ok(scal(Res(QMOD, e=b.v)))), (z3.simplify(z3.Not(good)), Rel(lambda a, st: err(Op("msg")), lambda a, st, v: [("rejected", z3.BoolVal(v.var == 1))]))]


AI = "<curve::arithmetic::Scalar<P> as "


@contract(AI + "uint::traits::BoxedEncoding>::to_be_bytes", props=["C05"])
def s_tobytes(a):
    return [(TRUE, BE(retrieve(r(a[0])), SL))]


@contract(SC + "to_be_bytes", props=["C05"])
def s_tobytes2(a):
    return [(TRUE, BE(retrieve(r(a[0])), SL))]


def binr(f, w):
    return lambda a: [(TRUE, w(f(r(a[0]), r(a[1]))))]


adds = lambda x, y: res_add(x, y)
subs = lambda x, y: res_add(x, y, -1)
S_, P_ = "curve::arithmetic::Scalar<P>", "curve::arithmetic::Point<P>"
contract([f"<{S_} as core::ops::Add>::add", f"<&{S_} as core::ops::Add<&{S_}>>::add"], props=["C07"])(binr(adds, scal))
contract([f"<{S_} as core::ops::Sub>::sub"], props=["C07"])(binr(subs, scal))
contract([f"<{S_} as core::ops::Mul>::mul", f"<{S_} as core::ops::Mul<&{S_}>>::mul"], props=["C07"])(binr(res_mul, scal))
contract([f"<{P_} as core::ops::Add>::add"], props=["C07"])(binr(adds, pnt))
contract([f"<{P_} as core::ops::Mul<{S_}>>::mul", f"<{P_} as core::ops::Mul<&{S_}>>::mul", f"<&{P_} as core::ops::Mul<&{S_}>>::mul", f"<&{P_} as core::ops::Mul<{S_}>>::mul"],
         props=["C07"])(binr(lambda p, s: res_pow(p, as_int(s)), pnt))


@contract(f"<{S_} as core::ops::Neg>::neg", props=["C07"])
def s_neg(a):
    return [(TRUE, scal(Res(QMOD, e=-as_int(r(a[0])))))]
