"""Contracts of bit vectors (src/tools/bitvec.rs)"""
from spec import *
from c_uint import xof_reader
import core, ext

BV = "tools::bitvec::BitVec"


def nbytes(n):
    return norm(DIV(norm(n + 7), z3.IntVal(8)))


def bit_of(s, j):
    """bit j of a byte string: bit 7 - j mod 8 of byte j div 8"""
    j = norm(iv(j))
    return MOD(norm(DIV(s.at(norm(DIV(j, z3.IntVal(8)))), P2(norm(7 - mod(j, z3.IntVal(8)))))), z3.IntVal(2)) == 1


@contract(BV + "::from_xof_reader", props=["C04", "C06"], args={"reader": xof_reader})
def bv_xof(a):
    """bit j is bit j of the next ceil(n / 8) bytes of the stream"""
    rd, n = a[0], a[1]
    by = nbytes(n)
    x = xof_draw(a.ex, a.st, rd, by)
    return [(TRUE, Eff(Agg(BV, [Seq(n=n, f=lambda j: bit_of(BE(x, by), j))]), {0: Op("xof", rd.args[0], norm(rd.args[1] + by))}))]


@contract(f"<{BV} as core::ops::BitXorAssign<&{BV}>>::bitxor_assign", props=["C04", "C29", "C31"])
def bv_xor(a):
    """exclusive or; the shorter one is extended with zeros; never fails"""
    x, y = a[0].fs[0], a[1].fs[0]
    n = ite(x.n >= y.n, x.n, y.n)
    bit = lambda s, j: z3.And(j < s.n, s.at(j))
    return [(TRUE, Eff(Agg("tuple", []), {0: Agg(BV, [Seq(n=n, f=lambda j: z3.Xor(bit(x, iv(j)), bit(y, iv(j))))])}))]
