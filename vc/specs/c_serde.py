"""Serialized forms (C05): what is written can be read back, and nothing else is accepted.

`SliceLike` (serde-encoded-bytes) carries byte strings unchanged; a deserializer hands over an arbitrary byte string.
"""
from spec import *
from c_shares import run_fn, normal, is_err
from c_hash import slice_bytes
import core, ext, lib

PSG, PKD = "uint::public_signed::PublicSigned", "uint::public_signed::PackedSigned"
FROM_S = f"<{PKD} as core::convert::From<{PSG}<T>>>::from"
INTO_S = f"<{PSG}<T> as core::convert::TryFrom<{PKD}>>::try_from"
BV, PBV = "tools::bitvec::BitVec", "tools::bitvec::PackedBitVec"
FROM_B = f"<{PBV} as core::convert::From<{BV}>>::from"
INTO_B = f"<{BV} as core::convert::TryFrom<{PBV}>>::try_from"
SER, DES = "as serde::Serialize>::serialize", "as serde::Deserialize<'de>>::deserialize"
SC, PT = "curve::arithmetic::Scalar", "curve::arithmetic::Point"


def anybytes(name):
    n, v = z3.Int(f"len({name})"), z3.Int(name)
    if str(n) not in FACT:
        fact(str(n), n >= 0, n < 2 ** 63)
        fact(name, v >= 0, v < p256(n))
    return BE(v, n)


def ser(ex, st, t, name):
    return Agg("hashing_serializer::HashingSerializer", [ex.ref(st, Op("digest"), True)])


def written(ex, s, vals):
    """the byte string handed to the serializer"""
    d = ex.deref(s, [v for v in vals if isinstance(v, Agg) and v.tag.endswith("HashingSerializer")][0].fs[0])
    if len(d.args) != 1 or d.args[0].tag != "bytes":
        raise Unsupported("serialized as something else than one byte string")
    return d.args[0].args[0]


def des(name):
    return lambda ex, st, t, n: Op("deser", anybytes(name))


# ---------------------------------------------------------------- signed integers
def packed(ex, v):
    return fld(ex.mir, v, "bound"), fld(ex.mir, v, "is_negative"), fld(ex.mir, v, "abs_bytes")


def parts(ex, v):
    return raw(sval(ex.mir, v)), fld(ex.mir, v, "bound")


@theorem("PackedSigned: what is packed is unpacked", ["C05"])
def t_packed(ex, rep):
    st, vals, outs = run_fn(ex, FROM_S)
    v = vals[0]
    for s, p in normal(rep, FROM_S, outs):
        s2, _, outs2 = run_fn(ex, INTO_S, after=s, val=p)
        for t, r in normal(rep, INTO_S, outs2):
            if is_err(r):
                prove(rep, "the packed form of an integer is accepted", t.pc, FALSE)
                continue
            for l, g in eq_goals(ex, t, r.fs[0], v, "the unpacked integer"):
                prove(rep, f"round trip: {l}", t.pc, g)


@theorem("PackedSigned: only integers within their bound are accepted", ["C05"])
def t_unpack(ex, rep):
    st, vals, outs = run_fn(ex, INTO_S)
    b, neg, bs = packed(ex, vals[0])
    B = z3.Int("BITS<T>")
    fits = z3.And(b < B, bs.v < P2(b))
    for s, r in normal(rep, INTO_S, outs):
        if is_err(r):
            prove(rep, "refused: too long, bound does not fit, or magnitude not below the bound", s.pc, z3.Not(z3.And(fits, bs.n <= z3.Int("BYTES<T>"))))
            continue
        x, rb = parts(ex, r.fs[0])
        prove(rep, "accepted: the bound fits the type and the magnitude is below it", s.pc, fits)
        prove(rep, "accepted: the encoded integer", s.pc, x == z3.If(neg, -bs.v, bs.v))
        prove(rep, "accepted: the encoded bound", s.pc, rb == b)


# ---------------------------------------------------------------- byte strings of a fixed length
def fixed(rep, ex, name, ser_path, des_path, width, limit, value, build=None):
    """written with `width` bytes; read back; other lengths and values that are out of range are refused"""
    st, vals, outs = run_fn(ex, ser_path, **{"self": build} if build else {}, serializer=ser)
    x = vals[0]
    for s, r in normal(rep, ser_path, outs):
        prove(rep, f"{name}: is serialized", s.pc, z3.BoolVal(not is_err(r)))
        w = written(ex, s, vals)
        prove(rep, f"{name}: is written with the width of its type", s.pc, w.n == width)
        _, _, outs2 = run_fn(ex, des_path, after=s, deserializer=lambda ex, st, t, n: Op("deser", w))
        for t, v in normal(rep, des_path, outs2):
            if is_err(v):
                prove(rep, f"{name}: what was written is accepted", t.pc, FALSE)
            else:
                for l, g in eq_goals(ex, t, v.fs[0], ex.deref(s, x), name):
                    prove(rep, f"{l}: round trip", t.pc, g)
    _, _, outs = run_fn(ex, des_path, deserializer=des("encoding"))
    b = anybytes("encoding")
    good = z3.And(b.n == width, b.v < limit) if limit is not None else b.n == width
    for s, v in normal(rep, des_path, outs):
        if is_err(v):
            prove(rep, f"{name}: only malformed encodings are refused", s.pc, z3.Not(good))
        else:
            prove(rep, f"{name}: malformed encodings are refused", s.pc, good)
            prove(rep, f"{name}: is what the bytes encode", s.pc, value(v.fs[0]) == b.v)


def raw(v):
    while isinstance(v, Agg):
        v = v.fs[0]
    return v.e if isinstance(v, W) else v


@theorem("Scalar: serialization", ["C05"])
def t_scalar(ex, rep):
    fixed(rep, ex, "a scalar", f"<{SC}<P> {SER}", f"<{SC}<P> {DES}", SL, Q, lambda v: core.retrieve(raw(v)))


@theorem("PublicUint: serialization", ["C05"])
def t_uint(ex, rep):
    fixed(rep, ex, "an integer", f"<uint::public_uint::PublicUint<T> {SER}", f"<uint::public_uint::PublicUint<T> {DES}", z3.Int("BYTES<T>"), None, raw)


@theorem("Secret: serialization", ["C05"])
def t_secret(ex, rep):
    fixed(rep, ex, "a secret integer", f"<tools::secret::Secret<T> {SER}", f"<tools::secret::Secret<T> {DES}", z3.Int("BYTES<T>"), None, raw)


# ---------------------------------------------------------------- points
@theorem("Point: serialization", ["C05"])
def t_point(ex, rep):
    name = "a point"
    st, vals, outs = run_fn(ex, f"<{PT}<P> {SER}", serializer=ser)
    x = ex.deref(st, vals[0])
    non = z3.Not(lib.is_id(raw(x)))
    for s, r in outs:
        if isinstance(r, Panic):
            prove(rep, f"{name} other than the neutral one is serialized", s.pc + [non], FALSE)
            continue
        if not feasible(s.pc + [non]):
            continue
        w = written(ex, s, vals)
        prove(rep, f"{name}: is written with a fixed width", s.pc + [non], w.n == SL + 1)
        _, _, outs2 = run_fn(ex, f"<{PT}<P> {DES}", after=s, deserializer=lambda ex, st, t, n: Op("deser", w))
        for t, v in normal(rep, "deserialize", outs2):
            if is_err(v):
                prove(rep, f"{name}: what was written is accepted", t.pc + [non], FALSE)
            else:
                for l, g in eq_goals(ex, t, v.fs[0], x, name):
                    prove(rep, f"{l}: round trip", t.pc, g)


@theorem("Point: malformed encodings are refused", ["C05"])
def t_point_bad(ex, rep):
    b = anybytes("encoding")
    _, _, outs = run_fn(ex, f"<{PT}<P> {DES}", deserializer=des("encoding"))
    k = key(b)
    wf, co, on = (core.atom(f"sec1-{x} {k}") for x in ("wellformed", "compressed", "identity"))
    on = core.atom(f"on-curve {k}")
    tag = b.at(z3.IntVal(0))
    pt = lib.gpoint("dec(" + k + ")")
    # SEC1: the encodings that are wellformed; the compressed ones
    hy = [z3.Implies(wf, co == z3.And(b.n == SL + 1, z3.Or(tag == 2, tag == 3))), z3.Implies(co, z3.Not(lib.is_id(pt))),
          z3.Implies(wf, core.atom(f"sec1-identity {k}") == lib.is_id(pt)), z3.Implies(wf, b.n >= 1),
          z3.Implies(z3.And(wf, z3.Or(tag == 2, tag == 3)), b.n == SL + 1)]
    good = z3.And(wf, co, on)
    for s, v in normal(rep, "deserialize", outs):
        if is_err(v):
            prove(rep, "a point: only malformed encodings are refused", s.pc + hy, z3.Not(good))
        else:
            prove(rep, "a point: encodings that are not canonical are refused", s.pc + hy, good)
            prove(rep, "a point: is the encoded one", s.pc + hy, core.res_eq(raw(v.fs[0]), pt))


# ---------------------------------------------------------------- bit strings
@theorem("BitVec: only encodings with enough bytes are accepted", ["C05"])
def t_bits(ex, rep):
    st, vals, outs = run_fn(ex, INTO_B)
    p = vals[0]
    n, bs = fld(ex.mir, p, "bits"), fld(ex.mir, p, "byte_vec")
    from c_bits import bit_of, nbytes
    for s, r in normal(rep, INTO_B, outs):
        if is_err(r):
            prove(rep, "refused: fewer bytes than the number of bits needs", s.pc, z3.Not(nbytes(n) <= bs.n))
            continue
        prove(rep, "accepted: there are enough bytes", s.pc, nbytes(n) <= bs.n)
        bits = r.fs[0].fs[0]
        prove(rep, "accepted: the declared number of bits", s.pc, bits.n == n)
        j = z3.Int("j!")
        prove(rep, "accepted: the encoded bits", s.pc + [j >= 0, j < n], bits.at(j) == bit_of(bs, j))
