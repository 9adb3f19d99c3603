"""More assumed contracts: byte strings, hashing, serde, elliptic-curve backend, associated constants of the parameter traits."""
from ext import *
import ext, core, engine
from mir import ts, sub, tup

SL = z3.Int("SL")                 # byte length of a serialized scalar
NB = z3.Int("NUM_BITS")           # bit length of the curve order
fact("q", Q >= 3, MOD(Q, z3.IntVal(2)) == 1, Q < P2(NB), Q >= P2(NB - 1), NB >= 8, NB <= 4096)
fact("NUM_BITS", NB >= 8, NB <= 4096)
fact("SL", SL >= 1, SL <= 512, 8 * SL >= NB)


# ---------------------------------------------------------------- byte strings
class BE(Seq):
    """big-endian bytes of the integer v, n bytes"""
    __slots__ = ("v",)

    def __init__(self, v, n):
        self.v, n = norm(iv(v)), norm(iv(n))
        Seq.__init__(self, n=n, f=lambda j: byte_at(self.v, n, j), key=f"BE({key(self.v)};{key(n)})")

    def __repr__(self):
        return f"BE({self.v}; {self.n})"


def p256(k):
    return P2(norm(8 * iv(k)))


def div_(a, b):
    if conc(a) == 0:
        return z3.IntVal(0)
    if conc(b) == 1 or conc(norm(b)) == 1:
        return a
    return DIV(norm(a), norm(b))


def byte_at(v, n, j):
    return modp(div_(v, p256(norm(n - 1 - j))), z3.IntVal(256))


def as_be(s):
    """view a byte sequence as BE"""
    if isinstance(s, BE):
        return s
    if s.items is not None and all(conc(x) is not None for x in s.items):
        v = 0
        for x in s.items:
            v = v * 256 + conc(x)
        return BE(v, len(s.items))
    if s.items is not None:
        e = z3.IntVal(0)
        n = len(s.items)
        for i, x in enumerate(s.items):
            if not isint(x):
                return None
            e = e + x * (256 ** (n - 1 - i))
        return BE(norm(e), n)
    return None


def be_slice(s, a, b):
    v = s.v
    if not eqpoly(b, s.n):
        v = div_(v, p256(norm(s.n - b)))
    if not (conc(a) == 0):
        v = modp(v, p256(norm(b - a)))
    return BE(v, norm(b - a))


_slice0, _put0 = Ex.slice, Ex.put


def slice_(self, v, a, b):
    if isinstance(v, BE):
        if conc(a) == 0 and eqpoly(b, v.n):
            return v
        if eqpoly(a, b):
            return Seq(items=())
        return be_slice(v, iv(a), iv(b))
    return _slice0(self, v, a, b)


def put_(self, v, proj, new):
    if proj and isinstance(v, BE):
        p = proj[0]
        if p[0] == "i":
            nb = self.put(v.at(p[1]), proj[1:], new)
            w = p256(norm(v.n - 1 - p[1]))
            return BE(v.v - byte_raw(v, p[1]) * w + nb * w, v.n)
        if p[0] == "s":
            a, b = iv(p[1]), iv(p[2])
            inner = as_be(self.put(self.slice(v, a, b), proj[1:], new))
            if inner is not None:
                w = p256(norm(v.n - b))
                return BE(v.v - be_slice(v, a, b).v * w + inner.v * w, v.n)
    if proj and proj[0][0] == "s" and isinstance(v, Seq) and not isinstance(v, BE):
        b = as_be(v) if v.items is None or len(v.items) else None
        if isinstance(b, BE) and not (conc(proj[0][1]) is not None and conc(proj[0][2]) is not None):
            return put_(self, b, proj, new)
    return _put0(self, v, proj, new)


def byte_raw(v, i):
    if conc(i) == 0:      # the leading byte needs no reduction
        return div_(v.v, p256(norm(v.n - 1)))
    return v.at(i)


Ex.slice, Ex.put = slice_, put_


@h("alloc::vec::from_elem")
def vfrom2(ex, st, c):
    v, n = c.vals
    if c.args and c.args[0] == "u8" and conc(v) == 0:
        return BE(0, n)
    return ext.vfrom(ex, st, c)


ext_icloned = HANDLERS["core::iter::Iterator::cloned"]


class ByteIter(Seq):
    __slots__ = ("src",)


@h("core::iter::Iterator::cloned", "core::iter::Iterator::copied")
def icloned2(ex, st, c):
    v = c.vals[0]
    if isinstance(v, Agg) and v.tag == "iter" and v.fs[0].key_ and isinstance(v.fs[0].key_, tuple):
        src = v.fs[0].key_[1]
        s = ex.read(st, src.cell, src.proj)
        return mkiter(s)
    return ext_icloned(ex, st, c)


ext_siter = HANDLERS["core::slice::<impl [T]>::iter"]


@h("core::slice::<impl [T]>::iter")
def siter2(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    s = ex.read(st, r.cell, r.proj)
    if isinstance(s, (BE, Opaque)):
        q = Seq(n=s.n, f=lambda j: Ref(r.cell, r.proj + (("i", j),)), key=("src", r))
        return mkiter(q)
    return ext_siter(ex, st, c)


class Opaque(Seq):
    """byte string known only as a term (e.g. the compressed encoding of a point)"""
    __slots__ = ("op",)

    def __init__(self, op, n):
        self.op = op
        Seq.__init__(self, n=n, f=lambda j: Op("byte", op, j), key=f"bytes({key(op)})")

    def __repr__(self):
        return f"bytes({self.op!r})"


# equality of byte strings
_veq0 = ext.veq


def veq2(a, b):
    if isinstance(a, Seq) and isinstance(b, Seq) and (isinstance(a, BE) or isinstance(b, BE)):
        x, y = as_be(a), as_be(b)
        if x is not None and y is not None:
            return z3.simplify(z3.And(_veq0(x.n, y.n), _veq0(x.v, y.v)))
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.op.tag == b.op.tag:
        return z3.simplify(z3.And([_veq0(x, y) for x, y in zip(a.op.args, b.op.args)]))
    return _veq0(a, b)


ext.veq = veq2


# ---------------------------------------------------------------- associated constants
def const_value(self, st, path, args, t):
    n = path.rpartition("::")[2]
    if path in ("crypto_bigint::Bounded::BITS",):
        return bits_of(args[0])
    if path in ("crypto_bigint::Bounded::BYTES",):
        return bytes_of(args[0])
    if path.startswith("crypto_bigint::Uint::<LIMBS>::"):
        ty = ("adt", "crypto_bigint::Uint", (args[0],))
        if n == "BITS":
            return bits_of(ty)
        if n == "BYTES":
            return bytes_of(ty)
        if n == "ZERO":
            return z3.IntVal(0)
        if n == "ONE":
            return z3.IntVal(1)
    if path == "elliptic_curve::Curve::ORDER":
        return Q
    if path == "elliptic_curve::Field::ONE":
        return Res(QMOD, e=1)
    if path == "elliptic_curve::Field::ZERO":
        return Res(QMOD, e=0)
    if path == "elliptic_curve::PrimeField::NUM_BITS":
        return NB
    if path == "elliptic_curve::crypto_bigint::Zero::ZERO":
        return z3.IntVal(0)
    if path == "paillier::params::PaillierParams::PRIME_BITS" or path == "params::traits::SchemeParams::SECURITY_BITS":
        a = args[0]
        # an impl of the crate decides it if the type is concrete
        tr = path.rpartition("::")[0]
        f = self.mir.find_impl(tr, args) if a[0] == "adt" else None
        if f and n in f[0]["items"]:
            return None
        return z3.Int(n)
    if path == "crypto_bigint::Limb::BYTES":
        return z3.IntVal(8)
    if path in ("paillier::params::PaillierParams::MODULUS_BITS",) or path.startswith("params::traits::SchemeParams::"):
        ck = (path, ts(args[0]) if args[0][0] == "adt" else "*")
        if ck in self.const_cache:
            return self.const_cache[ck]
        v = self.default_const(st, path, args)
        self.const_cache[ck] = v
        return v
    return None


def default_const(self, st, path, args):
    """default value of a trait constant, with its overflow assertions taken as compile-time facts"""
    f = self.mir.consts[path]
    env = self.env_of(f["generics"], args)
    s = st.copy()
    s.pc = []
    outs = self.exec_body(s, "const", path, self.mir.body("const", path), env, ())
    outs = [o for o in outs if not isinstance(o[1], Panic)]
    if len(outs) != 1:
        raise Unsupported(f"const {path} with {len(outs)} outcomes")
    for p in outs[0][0].pc:
        if not any(p.get_id() == a.get_id() for a in core.AXIOMS):
            core.AXIOMS.append(p)
    return outs[0][1]


Ex.const_value = const_value
Ex.default_const = default_const

SB, PB = z3.Int("SECURITY_BITS"), z3.Int("PRIME_BITS")
fact("SECURITY_BITS", SB >= 1, SB <= 4096)
fact("PRIME_BITS", PB >= 8, PB <= 2 ** 20)

T_P = ("param", "P")
PAIL = ("alias", "params::traits::SchemeParams::Paillier")


def setup_params(ex):
    """the facts const_assert!(Params::SELF_CONSISTENT) establishes for every parameter set, from the code's own formula"""
    ex.const_cache = {}
    core.AXIOMS.clear()
    ax = []
    st = State()
    Self = ("param", "P")
    for path in ("paillier::params::PaillierParams::SELF_CONSISTENT", "params::traits::SchemeParams::SELF_CONSISTENT"):
        f = ex.mir.consts[path]
        g = f["generics"]
        env = ex.env_of(g, (Self,))
        outs = ex.exec_body(st, "const", path, ex.mir.body("const", path), env, ())
        cs = []
        for s, v in outs:
            if isinstance(v, Panic):
                continue
            cs.append(z3.And(s.pc + [v]))
        ax.append(z3.simplify(z3.Or(cs)))
    return ax


def paillier_bits(name):
    """BITS of an associated integer type of the Paillier parameters, whatever the path to the parameters"""
    return z3.Int(f"BITS<{name}>")


_ts0 = ext.ts


def canon_ty(t):
    """canonical name of a big-integer type: the associated types are identified by their name"""
    s = _ts0(t)
    for n in ("HalfUint", "WideUint", "Uint", "ExtraWideUint"):
        if s.endswith(f" as paillier::params::PaillierParams::{n}>") or s.endswith(f" as params::traits::SchemeParams::{n}>"):
            return n
    if s.endswith(" as elliptic_curve::Curve::Uint>"):
        return "CurveUint"
    if s.endswith(" as elliptic_curve::crypto_bigint::Concat::Output>"):
        return "2xCurveUint"
    return s


ext.ts = canon_ty


def _bits_axioms():
    b = {n: (z3.Int(f"BITS<{n}>"), z3.Int(f"BYTES<{n}>"), z3.Int(f"LIMBS<{n}>")) for n in ("HalfUint", "Uint", "WideUint", "ExtraWideUint", "CurveUint", "2xCurveUint")}
    r = []
    for n, (bi, by, li) in b.items():
        r += [bi == 64 * li, by == 8 * li, li >= 1, li <= 2 ** 20]
        FACT[str(bi)] = []
        FACT[str(by)] = []
    B = {n: x[0] for n, x in b.items()}
    # ExtraWideUint = nlimbs!(PRIME_BITS * 5) in each declared parameter set (the declared SELF_CONSISTENT alone leaves no room for the carry of FacProof)
    r += [B["ExtraWideUint"] >= 5 * PB, B["Uint"] == 2 * B["HalfUint"], B["WideUint"] == 2 * B["Uint"], B["ExtraWideUint"] >= B["WideUint"], B["2xCurveUint"] == 2 * B["CurveUint"],
          B["CurveUint"] >= NB, B["CurveUint"] <= B["Uint"], 8 * SL <= B["CurveUint"]]
    return r


PARAM_AXIOMS = _bits_axioms()


# ---------------------------------------------------------------- local integer traits on type parameters
def uint_ty(t):
    return unwrap_ty(t)


@h("uint::traits::Extendable::to_wide")
def to_wide(ex, st, c):
    return uintv(D(ex, st, c.vals[0]), bits_of(c.args[0]))


@h("uint::traits::Extendable::try_from_wide")
def try_from_wide(ex, st, c):
    v = uintv(D(ex, st, c.vals[0]), bits_of(c.args[1]))
    return branches(ex, st, z3.simplify(v < P2(norm(bits_of(c.args[0])))), some(v), NONE)


@h("uint::traits::MulWide::mul_wide")
def mul_wide(ex, st, c):
    a = uintv(D(ex, st, c.vals[0]), bits_of(c.args[0]))
    b = uintv(D(ex, st, c.vals[1]), bits_of(c.args[1]))
    return norm(a * b)


@h("uint::traits::BoxedEncoding::to_be_bytes")
def bx_to(ex, st, c):
    t = c.args[0]
    return BE(uintv(D(ex, st, c.vals[0]), bits_of(t)), bytes_of(t))


@h("uint::traits::BoxedEncoding::try_from_be_bytes")
def bx_from(ex, st, c):
    t = c.args[0]
    s = seqv(ex, st, c.vals[0])
    b = as_be(s)
    if b is None:
        raise Unsupported("bytes of unknown structure")
    return branches(ex, st, z3.simplify(b.n == bytes_of(t)) if not eqpoly(b.n, bytes_of(t)) else TRUE, ok(b.v), err(Op("msg")))


@h("uint::traits::Exponentiable::pow")
def expo_pow(ex, st, c):
    raise Unsupported("pow on " + ts(c.args[0]))


# ---------------------------------------------------------------- extendable-output hashing
DIGEST_TAG = "digest"


@h("<D as core::default::Default>::default_")
def _x(ex, st, c):
    return None


_default_handlers = {}


@h("core::default::Default::default")
def default(ex, st, c):
    t = c.args[0] if c.args else c.destty
    s = ts(t)
    if s.endswith("SchemeParams::Digest>") or s == "D":
        return Op("digest")
    if s.endswith("CurveArithmetic::Scalar>"):
        return Res(QMOD, e=0)
    if s.endswith("CurveArithmetic::ProjectivePoint>"):
        return Res(GROUP, w={})
    f = ex.mir.find_impl("core::default::Default", (t,))
    if f:
        p = f[0]["items"]["default"]
        return ex.exec_body(st, "fn", p, ex.mir.body("fn", p), f[1], [])
    if isinstance(t, tuple) and t[0] == "array" and ts(t[1]) in ("u8", "u16", "u32", "u64", "usize"):
        n = z3.IntVal(t[2][1]) if t[2][0] == "cval" else ex.cparam(t[2][1])
        return Seq(n=n, f=lambda j: z3.IntVal(0))
    raise Unsupported(f"default of {s}")


@h("rand_core::SeedableRng::from_seed", "rand::SeedableRng::from_seed")
def from_seed(ex, st, c):
    return Op("rng", c.vals[0])


@h("crypto_primes::RandomPrimeWithRng::is_prime_with_rng")
def is_prime_rng(ex, st, c):
    """the primality test is taken to be exact"""
    return core.PRIME(norm(uintv(D(ex, st, c.vals[0]), bits_of(c.args[0]))))


def dig_append(ex, st, ref, items):
    r = ex.lastref(st, ref)
    d = ex.read(st, r.cell, r.proj)
    if not (isinstance(d, Op) and d.tag == "digest"):
        raise Unsupported(f"digest expected, got {d!r}"[:100])
    ex.write(st, r.cell, r.proj, Op("digest", *d.args, *items))


@h("digest::Update::update")
def dupdate(ex, st, c):
    s = D(ex, st, c.vals[1])
    dig_append(ex, st, c.vals[0], [Op("raw", s)])
    return UNIT


@h("digest::ExtendableOutput::finalize_xof")
def dfinal(ex, st, c):
    return Op("xof", c.vals[0], z3.IntVal(0))


XOFS = {}     # name of a drawn value -> digest term


def xof_draw(ex, st, rd, n):
    dg, pos = rd.args
    k = key(dg)
    name = "xof:" + hashlib.sha256(f"{k}@{key(pos)}+{key(n)}".encode()).hexdigest()[:16]
    XOFS[name] = (dg, pos, n)
    x = z3.Int(name)
    if name not in FACT:
        fact(name, x >= 0, x < p256(n))
    return x


import hashlib


@h("digest::XofReader::read")
def xread(ex, st, c):
    rr = ex.lastref(st, c.vals[0])
    rd = ex.read(st, rr.cell, rr.proj)
    if not (isinstance(rd, Op) and rd.tag == "xof"):
        raise Unsupported(f"xof reader expected, got {rd!r}"[:100])
    br = ex.lastref(st, c.vals[1])
    buf = ex.read(st, br.cell, br.proj)
    if not isinstance(buf, Seq):
        raise Unsupported("xof target")
    n = norm(buf.n)
    x = xof_draw(ex, st, rd, n)
    ex.write(st, rr.cell, rr.proj, Op("xof", rd.args[0], norm(rd.args[1] + n)))
    ex.write(st, br.cell, br.proj, BE(x, n))
    return UNIT


@h("digest::XofReader::read_boxed")
def xreadb(ex, st, c):
    rd = D(ex, st, c.vals[0])
    n = norm(c.vals[1])
    return BE(xof_draw(ex, st, rd, n), n)


# ExtendableOutput provided method read_boxed lives on XofReader in digest; both spellings
HANDLERS["digest::ExtendableOutput::finalize_boxed"] = None
del HANDLERS["digest::ExtendableOutput::finalize_boxed"]


@h("tools::hashing::Chain::as_digest_mut")
def as_dig(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    v = ex.read(st, r.cell, r.proj)
    if isinstance(v, Agg):
        return Ref(r.cell, r.proj + (("f", 0),))
    return r


@h("tools::hashing::Chain::chain_raw_bytes")
def chain_raw(ex, st, c):
    d = c.vals[0]
    if isinstance(d, Op) and d.tag == "digest":
        return Op("digest", *d.args, Op("raw", D(ex, st, c.vals[1])))
    if isinstance(d, (Op, Opaque)) and d.tag != "digest":
        return Op("digest", Op("before", d), Op("raw", D(ex, st, c.vals[1])))
    raise Unsupported("chain_raw_bytes")


@h("tools::hashing::Hashable::chain")
def hchain(ex, st, c):
    """hashing of a value of a type parameter"""
    v, d = D(ex, st, c.vals[0]), c.vals[1]
    if isinstance(d, Agg):
        return d.put(0, Op("digest", *d.fs[0].args, Op("val", v)))
    if isinstance(d, Op) and d.tag == "digest":
        return Op("digest", *d.args, Op("val", v))
    raise Unsupported("chain")


# serde: the data model of hashing-serializer (every leaf is written to the digest; structs and sequences are prefixed by their length)
def ser_of(ex, st, S):
    """the digest reference inside a serializer value"""
    S = D(ex, st, S)
    if isinstance(S, Agg) and S.tag.endswith("HashingSerializer"):
        return S.fs[0]
    if isinstance(S, Agg) and S.tag == "recser":
        return S.fs[0]
    raise Unsupported(f"serializer {S!r}"[:100])


def is_rec(ex, st, S):
    S = D(ex, st, S)
    return isinstance(S, Agg) and S.tag == "recser"


@h("serde::Serialize::serialize")
def serialize(ex, st, c):
    return ser_value(ex, st, c.args[0], c.vals[0], c.vals[1])


def ser_value(ex, st, t, v, S):
    """serialize the value behind reference v, of type t"""
    dref = ser_of(ex, st, S)
    while isinstance(t, tuple) and t[0] == "ref":
        t = t[2]
        x = ex.read(st, v.cell, v.proj) if isinstance(v, Ref) else v
        if isinstance(x, Ref):
            v = x
    val = D(ex, st, v)
    f = ex.mir.find_impl("serde::Serialize", (t, ("other", "S")))
    if f is None:
        f = ex.mir.find_impl("serde::Serialize", (t,))
    if f and "serialize" in f[0]["items"]:
        p = f[0]["items"]["serialize"]
        g = ex.mir.fns[p]["generics"]
        env = dict(f[1])
        for x in g:
            if x[1] != "lt" and x[0] not in env:
                env[x[0]] = ("adt", "hashing_serializer::HashingSerializer", ())
        c0 = ex.contracts.get(p)
        if c0 is not None and p not in ex.active:
            ex.used_contracts.add(p)
            o = c0.apply(ex, st, [v, S], env)
            if o is not None:
                return o
        ex.inlined.add(p)
        return ex.exec_body(st, "fn", p, ex.mir.body("fn", p), env, [v, S])
    s = ts(t)
    if s.startswith("core::marker::PhantomData"):
        return [(st, ok(UNIT))]
    if isinstance(t, str) or isint(val) or isbool(val):
        dig_append(ex, st, dref, [Op("leaf", s, val)])
        return [(st, ok(UNIT))]
    if isinstance(val, Seq):
        el = None
        u = t
        if u[0] == "adt":
            inner = [x for x in u[2] if x != ("lt",)][0]
            el = inner[1] if isinstance(inner, tuple) and inner[0] == "slice" else inner
        elif u[0] in ("slice", "array"):
            el = u[1]
        if el is None:
            raise Unsupported(f"serialization of {s}")
        dig_append(ex, st, dref, [Op("len", norm(val.n))])
        if isinstance(val, BE):
            dig_append(ex, st, dref, [Op("bytes", val)])
            return [(st, ok(UNIT))]
        if val.items is not None:
            outs = [(st, ok(UNIT))]
            for x in val.items:
                new = []
                for s1, r in outs:
                    if isinstance(r, Panic) or r.var == 1:
                        new.append((s1, r))
                    else:
                        new += ser_value(ex, s1, el, ex.ref(s1, x), S)
                outs = new
            return outs
        j = z3.Int("j!")
        s1 = st.copy()
        cell = ex.alloc(s1, Op("digest"))
        s1.pc = s1.pc + [j >= 0, j < val.n]
        S1 = Agg("hashing_serializer::HashingSerializer", [Ref(cell)])
        o = [x for x in ser_value(ex, s1, el, ex.ref(s1, val.at(j)), S1) if not isinstance(x[1], Panic)]
        ks = {key(ex.read(s2, cell)) for s2, _ in o}
        if len(ks) != 1:
            raise Unsupported("serialization of an element branches")
        dig_append(ex, st, dref, [Op("each", norm(val.n), ex.read(o[0][0], cell))])
        return [(st, ok(UNIT))]
    if isinstance(val, Agg) and val.tag == "tuple":
        dig_append(ex, st, dref, [Op("len", z3.IntVal(len(val.fs)))])
        outs = [(st, ok(UNIT))]
        for i, x in enumerate(val.fs):
            new = []
            for s1, r in outs:
                new += ser_value(ex, s1, t[1][i], ex.ref(s1, x), S) if not (isinstance(r, Panic) or r.var == 1) else [(s1, r)]
            outs = new
        return outs
    dig_append(ex, st, dref, [Op("val", val)])
    return [(st, ok(UNIT))]


@h("serde::Serializer::serialize_struct", "serde::Serializer::serialize_tuple_struct")
def ser_struct(ex, st, c):
    dig_append(ex, st, ser_of(ex, st, c.vals[0]), [Op("len", c.vals[2])])
    return ok(c.vals[0])


@h("serde::Serializer::serialize_tuple")
def ser_tuple(ex, st, c):
    dig_append(ex, st, ser_of(ex, st, c.vals[0]), [Op("len", c.vals[1])])
    return ok(c.vals[0])


@h("serde::ser::SerializeStruct::serialize_field")
def ser_field(ex, st, c):
    return ser_value(ex, st, c.args[1], c.vals[2], c.vals[0])


@h("serde::ser::SerializeTupleStruct::serialize_field", "serde::ser::SerializeTuple::serialize_element", "serde::ser::SerializeSeq::serialize_element")
def ser_tfield(ex, st, c):
    return ser_value(ex, st, c.args[1], c.vals[1], c.vals[0])


@h("serde::ser::SerializeStruct::end", "serde::ser::SerializeTupleStruct::end", "serde::ser::SerializeTuple::end", "serde::ser::SerializeSeq::end")
def ser_end(ex, st, c):
    return ok(UNIT)


@h("serde::Serializer::serialize_newtype_struct")
def ser_newtype(ex, st, c):
    return ser_value(ex, st, c.args[1], c.vals[2], c.vals[0])


@h("serde_encoded_bytes::SliceLike::<Enc>::serialize")
def slser(ex, st, c):
    dig_append(ex, st, ser_of(ex, st, c.vals[1]), [Op("bytes", seqv(ex, st, c.vals[0]))])
    return ok(UNIT)


@h("serde_encoded_bytes::SliceLike::<Enc>::deserialize")
def sldeser(ex, st, c):
    """yields an arbitrary byte string handed to TryFrom<&[u8]> of the target"""
    de = D(ex, st, c.vals[0])
    if not (isinstance(de, Op) and de.tag == "deser"):
        raise Unsupported("deserializer")
    b = de.args[0]
    ty = c.destty
    tgt = [x for x in ty[2] if x != ("lt",)][0]
    s = ts(tgt)
    if s.startswith("alloc::boxed::Box<[u8]"):
        return ok(b)
    f = ex.mir.find_impl("core::convert::TryFrom", (tgt, ("ref", False, ("slice", "u8"))))
    if f:
        p = f[0]["items"]["try_from"]
        ex.inlined.add(p)
        r = ex.ref(st, b)
        out = []
        for s1, v in ex.exec_body(st, "fn", p, ex.mir.body("fn", p), f[1], [r]):
            out.append((s1, v if isinstance(v, Panic) or v.var == 0 else err(Op("msg"))))
        return out
    raise Unsupported(f"deserialize into {s}")


# ---------------------------------------------------------------- elliptic-curve backend
def gpoint(name):
    return Res(GROUP, w={name: (name, z3.IntVal(1))})


def gen():
    return gpoint("G")


@h("elliptic_curve::Group::generator")
def ecgen(ex, st, c):
    return gen()


@h("elliptic_curve::Group::identity")
def ecid(ex, st, c):
    return Res(GROUP, w={})


@h("elliptic_curve::group::Curve::to_affine")
def ecaff(ex, st, c):
    return D(ex, st, c.vals[0])


@h("elliptic_curve::sec1::ToEncodedPoint::to_encoded_point")
def ecenc(ex, st, c):
    p = D(ex, st, c.vals[0])
    return Op("sec1", p, c.vals[1])


def is_id(p):
    return res_eq(p, Res(GROUP, w={}))


def enc_len(op):
    p = op.args[0]
    c = z3.simplify(is_id(p))
    if z3.is_false(c):
        return norm(SL + 1)
    return z3.If(c, z3.IntVal(1), norm(SL + 1))


@h("sec1::point::EncodedPoint::<Size>::as_bytes")
def ecbytes(ex, st, c):
    o = D(ex, st, c.vals[0])
    if not z3.is_true(z3.simplify(o.args[1])):
        raise Unsupported("uncompressed encoding")
    out = []
    for s, v in ex.fork(st, is_id(o.args[0])):
        out.append((s, ex.ref(s, Opaque(o, z3.IntVal(1) if v else norm(SL + 1)))))
    return out


@h("sec1::point::EncodedPoint::<Size>::from_bytes")
def ecfrombytes(ex, st, c):
    s = seqv(ex, st, c.vals[0])
    if isinstance(s, Opaque) and s.op.tag == "sec1":
        return ok(Op("sec1", s.op.args[0], s.op.args[1]))
    o = Op("parsed", s)
    good = atom(f"sec1-wellformed {key(s)}")
    return branches(ex, st, good, ok(o), err(Op("msg")))


@h("sec1::point::EncodedPoint::<Size>::is_compressed")
def ecis(ex, st, c):
    o = D(ex, st, c.vals[0])
    if o.tag == "sec1":
        return z3.And(o.args[1], z3.Not(is_id(o.args[0])))
    return atom(f"sec1-compressed {key(o.args[0])}")


@h("sec1::point::EncodedPoint::<Size>::is_identity")
def ecisid(ex, st, c):
    o = D(ex, st, c.vals[0])
    return is_id(o.args[0]) if o.tag == "sec1" else atom(f"sec1-identity {key(o.args[0])}")


@h("elliptic_curve::sec1::FromEncodedPoint::from_encoded_point")
def ecfromenc(ex, st, c):
    o = D(ex, st, c.vals[0])
    if o.tag == "sec1":
        return ct(o.args[0], TRUE)
    return ct(gpoint("dec(" + key(o.args[0]) + ")"), atom(f"on-curve {key(o.args[0])}"))


@h("elliptic_curve::point::AffineCoordinates::x")
def ecx(ex, st, c):
    p = D(ex, st, c.vals[0])
    x = z3.Int("xcoord{" + res_key(p) + "}")
    n = str(x.decl().name())
    if n not in FACT:
        fact(n, x >= 0, x < p256(SL))
    return BE(x, SL)


@h("elliptic_curve::ops::Reduce::reduce_bytes")
def ecreduce(ex, st, c):
    b = as_be(seqv(ex, st, c.vals[0]))
    if b is None:
        raise Unsupported("reduce of opaque bytes")
    return Res(QMOD, e=b.v)


@h("elliptic_curve::Field::invert")
def ecinv(ex, st, c):
    v = D(ex, st, c.vals[0])
    return ct(scalar_inv(v), unit_cond(v))


@h("elliptic_curve::ScalarPrimitive::<C>::random")
def ecrnd(ex, st, c):
    return Res(QMOD, e=draw(st, "rndscalar", lambda x: [x >= 0, x < Q]))


@h("elliptic_curve::NonZeroScalar::<C>::random")
def ecrndnz(ex, st, c):
    x = draw(st, "rndscalar*", lambda x: [x >= 1, x < Q])
    return Res(QMOD, e=x)


HANDLERS["<elliptic_curve::NonZeroScalar<C> as core::convert::AsRef<<C as elliptic_curve::CurveArithmetic>::Scalar>>::as_ref"] = same


@h("elliptic_curve::NonZeroScalar::<C>::new")
def nzsnew(ex, st, c):
    v = c.vals[0]
    return ct(v, z3.simplify(z3.Not(res_eq(v, Res(QMOD, e=0)))))


def scalar_int(v):
    return retrieve(v)


@h("elliptic_curve::PrimeField::from_repr_vartime")
def ecrepr(ex, st, c):
    b = as_be(c.vals[0])
    if b is None:
        raise Unsupported("from_repr of opaque bytes")
    return branches(ex, st, z3.simplify(b.v < Q), lambda s: some(Res(QMOD, e=b.v)), NONE)


@h("elliptic_curve::PrimeField::from_repr")
def ecrepr2(ex, st, c):
    b = as_be(c.vals[0])
    return ct(Res(QMOD, e=b.v), z3.simplify(b.v < Q))


@h("elliptic_curve::scalar::FromUintUnchecked::from_uint_unchecked")
def ecfromuint(ex, st, c):
    return Res(QMOD, e=c.vals[0])


@h("elliptic_curve::crypto_bigint::Encoding::to_be_bytes")
def cb5to(ex, st, c):
    return BE(D(ex, st, c.vals[0]), bytes_of(c.args[0]))


@h("elliptic_curve::crypto_bigint::ArrayEncoding::from_be_byte_array")
def cb5from(ex, st, c):
    b = as_be(c.vals[0])
    return b.v


@h("elliptic_curve::crypto_bigint::Concat::concat")
def cb5concat(ex, st, c):
    hi, lo = D(ex, st, c.vals[0]), D(ex, st, c.vals[1])
    return norm(hi * P2(norm(bits_of(c.args[0]))) + lo)


@h("elliptic_curve::crypto_bigint::Split::split")
def cb5split(ex, st, c):
    v = D(ex, st, c.vals[0])
    B = z3.Int("BITS<CurveUint>")
    return Agg("tuple", [DIV(norm(v), P2(B)), modp(v, P2(B))])


@h("digest::typenum::Unsigned::to_usize")
def tn(ex, st, c):
    s = ts(c.args[0])
    if "FieldBytesSize" in s and "CompressedPointSize" not in s:
        return SL
    raise Unsupported(f"to_usize of {s}")


def ga_len(t):
    s = _ts0(t)
    if s.endswith("CompressedPointSize>"):
        return norm(SL + 1)
    if s.endswith("FieldBytesSize>"):
        return SL
    if s.endswith("ArrayEncoding::ByteSize>"):
        return z3.Int("BYTES<CurveUint>")
    raise Unsupported(f"array length {s}")


@h("digest::generic_array::GenericArray::<T, N>::from_exact_iter")
def gaexact(ex, st, c):
    s = itseq(ex, st, c.vals[0])
    n = ga_len(c.args[1])
    if eqpoly(s.n, n):
        return some(s)
    return branches(ex, st, z3.simplify(s.n == n), some(s), NONE)


@h("digest::generic_array::impls::<impl core::default::Default for digest::generic_array::GenericArray<T, N>>::default")
def gadef(ex, st, c):
    for t in (c.destty,) + tuple(c.args):
        if isinstance(t, tuple) and t[0] == "adt" and t[1].endswith("GenericArray"):
            return BE(0, ga_len([x for x in t[2] if x != ("lt",)][1]))
    t = c.destty if c.destty is not None else c.args[0]
    if _ts0(t).endswith("FieldBytes"):
        return BE(0, SL)
    raise Unsupported(f"default of {_ts0(t)}")


# conversions: Into<U>
ext_into = HANDLERS["<T as core::convert::Into<U>>::into"]


@h("<T as core::convert::Into<U>>::into", "core::convert::Into::into")
def into(ex, st, c):
    if len(c.args) >= 2:
        T, U = c.args[0], c.args[1]
        v = c.vals[0]
        f = ex.mir.find_impl("core::convert::From", (U, T))
        if f and "from" in f[0]["items"]:
            p = f[0]["items"]["from"]
            return ex.call(st, {"path": p, "args": (), "trait": None, "rpath": p, "rargs": tuple(f[1].get(g[0], ("lt",)) for g in ex.mir.fns[p]["generics"])}, [v], None, None, c.line)
        return conv_val(ex, st, v, T, U)
    return c.vals[0]


def conv_val(ex, st, v, T, U):
    u = ts(U)
    if isinstance(v, Agg) and v.tag == CTO and u.startswith(OPTION):
        return branches(ex, st, v.fs[1], lambda s: some(v.fs[0]), lambda s: NONE)
    if isinstance(v, Res) and v.m.name == "q" and ("generic_array::GenericArray" in u or "FieldBytes" in u):
        return BE(retrieve(v), SL)
    if isinstance(v, Ref) and (u.startswith("alloc::boxed::Box<[") or u.startswith("alloc::vec::Vec")):
        return D(ex, st, v)
    return v


@h("core::convert::From::from", "<T as core::convert::From<T>>::from")
def from_(ex, st, c):
    if len(c.args) >= 2:
        U, T = c.args[0], c.args[1]
        v = c.vals[0]
        if isint(v) and ts(U).endswith("CurveArithmetic::Scalar>"):
            return Res(QMOD, e=v)
        return conv_val(ex, st, v, T, U)
    return c.vals[0]


for p in ("<alloc::boxed::Box<[T]> as core::convert::From<&[T]>>::from", "alloc::boxed::convert::<impl core::convert::From<&[T]> for alloc::boxed::Box<[T]>>::from",
          "<alloc::vec::Vec<T> as core::convert::From<&[T]>>::from"):
    @h(p)
    def _bx(ex, st, c):
        return D(ex, st, c.vals[0])


@h("elliptic_curve::subtle::ConstantTimeEq::ct_eq_")
def _n(ex, st, c):
    return None


@h("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def ordcmp(ex, st, c):
    a, b = D(ex, st, c.vals[0]), D(ex, st, c.vals[1])
    if isinstance(a, Res):
        a, b = retrieve(a), retrieve(b)
    if not (isint(a) and isint(b)):
        raise Unsupported("cmp")
    out = []
    w = some if c.path.endswith("partial_cmp") else (lambda x: x)
    for s, v in ex.fork(st, a < b):
        if v:
            out.append((s, w(Agg("core::cmp::Ordering", (), 0))))
        else:
            for s2, v2 in ex.fork(s, a == b):
                out.append((s2, w(Agg("core::cmp::Ordering", (), 1 if v2 else 2))))
    return out


# ---------------------------------------------------------------- crypto-bigint limb level: Uint<L>
@h("crypto_bigint::Uint::<LIMBS>::as_limbs", "crypto_bigint::Uint::<LIMBS>::as_limbs_mut")
def limbs(ex, st, c):
    """limbs little-endian; represented by reversing a big-endian string of 64-bit digits"""
    raise Unsupported("limb access")


def install2(ex):
    ext.install(ex)
    ex.const_cache = {}
    core.FACTS_FOR = ext.facts_for
    engine.FACTS_FOR = ext.facts_for
    core.AXIOMS.clear()
    ax = setup_params(ex)
    core.AXIOMS.extend(PARAM_AXIOMS + ax)


HANDLERS["ecdsa::SigningKey::<C>::as_nonzero_scalar"] = lambda ex, st, c: ex.ref(st, (lambda k: k.fs[0] if isinstance(k, Agg) else k)(D(ex, st, c.vals[0])), False)
