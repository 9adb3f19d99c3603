"""Contracts (as executable functional specifications) of the functions outside the crate: core, alloc, subtle,
crypto-bigint, secrecy, ... Everything here is assumed, and listed as such in the evidence."""
import hashlib
from engine import *
import engine as _e
import core
import folds

HANDLERS = {}
FACT = {}        # constant name -> facts about it


def h(*paths):
    def d(f):
        for p in paths:
            HANDLERS[p] = f
        return f
    return d


def fact(name, *fs):
    FACT.setdefault(name, [])
    FACT[name] += fs


folds.FACT_HOOK[0] = fact


def strip_ref(t):
    while isinstance(t, tuple) and t[0] in ("ref", "ptr"):
        t = t[2]
    return t


WRAPPERS = {"crypto_bigint::NonZero", "crypto_bigint::Odd", "crypto_bigint::Wrapping", "tools::secret::Secret", "secrecy::SecretBox", "alloc::boxed::Box", "elliptic_curve::crypto_bigint::NonZero"}


def unwrap_ty(t):
    t = strip_ref(t)
    while isinstance(t, tuple) and t[0] == "adt" and t[1] in WRAPPERS:
        t = strip_ref([x for x in t[2] if x != ("lt",)][0])
    return t


BITS_REL = []    # hooks: (type string) -> facts


def bits_of(t):
    t = unwrap_ty(t)
    if isinstance(t, tuple) and t[0] == "adt" and t[1].endswith("crypto_bigint::Uint"):
        a = [x for x in t[2] if x != ("lt",)][0]
        if a[0] == "cval":
            return z3.IntVal(64 * a[1])
        n = z3.Int("const_" + ts(a))
        if str(n) not in FACT:
            fact(str(n), n >= 1, n <= 2 ** 20)
        return norm(64 * n)
    if isinstance(t, str) and t in INT_RANGES:
        return z3.IntVal(INT_RANGES[t][1].bit_length())
    s = ts(t)
    n = z3.Int(f"BITS<{s}>")
    if str(n) not in FACT:
        l = z3.Int(f"BYTES<{s}>")
        lm = z3.Int(f"LIMBS<{s}>")
        fact(str(n), n == 64 * lm, lm >= 1, lm <= 2 ** 20)
        fact(str(l), n == 8 * l)
        for hk in BITS_REL:
            hk(s, n)
    return n


def bytes_of(t):
    t = unwrap_ty(t)
    b = bits_of(t)
    p = poly(b)
    if all(c % 8 == 0 for c in p.d.values()):
        return Poly({k: c // 8 for k, c in p.d.items()}).expr()
    return z3.Int(f"BYTES<{ts(t)}>")


def uintv(v, B):
    """the unsigned value of a big integer"""
    if isinstance(v, W):
        return mod(v.e, P2(norm(iv(B))))
    if isint(v):
        return v
    raise Unsupported(f"big integer expected, got {v!r}"[:160])


def wexp(v):
    """an integer congruent to the value mod 2^B"""
    if isinstance(v, W):
        return v.e
    if isint(v):
        return v
    raise Unsupported(f"big integer expected, got {v!r}"[:160])


def D(ex, st, v):
    return ex.deref(st, v)


def ct(v, c):
    return Agg(CTO, (v, c))


def branches(ex, st, cond, yes, no):
    """fork on cond; yes/no: value, Panic or callables"""
    r = []
    for s, b in ex.fork(st, cond):
        v = yes if b else no
        r.append((s, v(s) if callable(v) else v))
    return r


# ---------------------------------------------------------------- clone, deref & co
@h("core::clone::Clone::clone")
def clone(ex, st, c):
    return D(ex, st, c.vals[0]) if not isinstance(strip1(c), tuple) or True else None


def strip1(c):
    return None


def clone1(ex, st, c):
    """clone of exactly the referent"""
    r = c.vals[0]
    return ex.read(st, r.cell, r.proj) if isinstance(r, Ref) else r


for p in ("core::clone::Clone::clone", "core::clone::impls::<impl core::clone::Clone for &T>::clone", "core::clone::impls::<impl core::clone::Clone for u32>::clone",
          "core::clone::impls::<impl core::clone::Clone for usize>::clone", "<alloc::boxed::Box<[T], A> as core::clone::Clone>::clone", "<alloc::vec::Vec<T, A> as core::clone::Clone>::clone",
          "<alloc::collections::BTreeMap<K, V, A> as core::clone::Clone>::clone", "<crypto_bigint::Odd<T> as core::clone::Clone>::clone", "<manul::utils::SerializableMap<K, V> as core::clone::Clone>::clone",
          "core::clone::impls::<impl core::clone::Clone for bool>::clone", "core::clone::impls::<impl core::clone::Clone for u8>::clone",
          "<alloc::boxed::Box<T, A> as core::clone::Clone>::clone", "<core::option::Option<T> as core::clone::Clone>::clone",
          "<crypto_bigint::NonZero<T> as core::clone::Clone>::clone", "<core::marker::PhantomData<T> as core::clone::Clone>::clone",
          "digest::generic_array::impls::<impl core::clone::Clone for digest::generic_array::GenericArray<T, N>>::clone",
          "<alloc::collections::BTreeSet<T, A> as core::clone::Clone>::clone", "alloc::borrow::ToOwned::to_owned", "alloc::slice::<impl [T]>::to_vec",
          "<T as alloc::borrow::ToOwned>::to_owned", "alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned"):
    HANDLERS[p] = clone1


def same(ex, st, c):
    return c.vals[0]


for p in ("<alloc::vec::Vec<T, A> as core::ops::Deref>::deref", "<alloc::vec::Vec<T, A> as core::ops::DerefMut>::deref_mut", "<crypto_bigint::NonZero<T> as core::ops::Deref>::deref",
          "<crypto_bigint::Odd<T> as core::ops::Deref>::deref", "crypto_bigint::NonZero::<T>::as_ref", "crypto_bigint::Odd::<T>::as_ref", "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut",
          "<[T] as core::convert::AsRef<[T]>>::as_ref", "<[T] as core::convert::AsMut<[T]>>::as_mut", "<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref", "<alloc::boxed::Box<T, A> as core::convert::AsMut<T>>::as_mut",
          "<alloc::vec::Vec<T, A> as core::convert::AsMut<[T]>>::as_mut", "<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref", "crypto_bigint::NonZero::<T>::get",
          "<secrecy::SecretBox<S> as secrecy::ExposeSecret<S>>::expose_secret", "<secrecy::SecretBox<S> as secrecy::ExposeSecretMut<S>>::expose_secret_mut",
          "<secrecy::SecretBox<S> as core::convert::From<alloc::boxed::Box<S>>>::from", "secrecy::SecretBox::<S>::new", "secrecy::ExposeSecret::expose_secret", "secrecy::ExposeSecretMut::expose_secret_mut",
          "<T as core::convert::Into<U>>::into", "core::hint::must_use", "<I as core::iter::IntoIterator>::into_iter", "core::iter::IntoIterator::into_iter",
          "<manul::utils::SerializableMap<K, V> as core::ops::Deref>::deref", "alloc::boxed::Box::<T>::new", "core::convert::identity", "core::ops::Deref::deref", "core::ops::DerefMut::deref_mut",
          "<digest::generic_array::GenericArray<T, N> as core::ops::Deref>::deref", "<digest::generic_array::GenericArray<T, N> as core::ops::DerefMut>::deref_mut",
          "digest::generic_array::impls::<impl core::convert::AsRef<[T]> for digest::generic_array::GenericArray<T, N>>::as_ref", "alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::into_boxed_slice",
          "alloc::slice::<impl [T]>::into_vec", "crypto_bigint::Odd::<T>::get", "crypto_bigint::Odd::<T>::as_nz_ref", "core::slice::<impl [T]>::as_ref", "<T as core::convert::From<T>>::from",
          "core::option::Option::<T>::as_ref_", "alloc::boxed::box_assume_init_into_vec_unsafe_"):
    HANDLERS[p] = same


@h("core::convert::AsRef::as_ref")
def as_ref(ex, st, c):
    t = c.args[1] if len(c.args) > 1 else None
    if isinstance(t, tuple) and t[0] == "slice" and isinstance(t[1], tuple) and t[1][0] == "adt" and t[1][1] == "crypto_bigint::Limb":
        v = D(ex, st, c.vals[0])
        if isint(v):
            B = bits_of(strip_ref(c.args[0]))
            return ex.ref(st, Seq(n=norm(DIV(norm(B), z3.IntVal(64))), f=lambda j: Agg("crypto_bigint::Limb", [mod(DIV(norm(v), norm(P2(norm(64 * j)))) if conc(j) != 0 else v, z3.IntVal(2 ** 64))]), key=f"limbs({key(v)})"), False)
    v = D(ex, st, c.vals[0])
    if isinstance(v, Op) and v.tag == "sec1":
        return HANDLERS["sec1::point::EncodedPoint::<Size>::as_bytes"](ex, st, c)
    return c.vals[0]


@h("core::convert::From::from", "core::convert::Into::into")
def conv(ex, st, c):
    return c.vals[0]


def from_bool(ex, st, c):
    v = c.vals[0]
    return norm(z3.If(v, z3.IntVal(1), z3.IntVal(0))) if isbool(v) else v


for n_ in ("u8", "u16", "u32", "u64", "usize", "u128", "i8", "i16", "i32", "i64", "isize", "i128"):
    HANDLERS[f"core::convert::num::<impl core::convert::From<bool> for {n_}>::from"] = from_bool


@h("core::bool::<impl bool>::then", "core::bool::<impl bool>::then_some")
def bthen(ex, st, c):
    out = []
    for s, b in ex.fork(st, c.vals[0]):
        if not b:
            out.append((s, NONE))
        elif c.path.endswith("then_some"):
            out.append((s, some(c.vals[1])))
        else:
            out += [(s2, v if isinstance(v, Panic) else some(v)) for s2, v in ex.call_fnv(s, c.vals[1], [])]
    return out


@h("<T as core::convert::TryInto<U>>::try_into")
def try_into(ex, st, c):
    # T: TryInto<U> via U: TryFrom<T>
    T, U = c.args[0], c.args[1]
    f = ex.mir.find_impl("core::convert::TryFrom", (U, T))
    if f:
        p = f[0]["items"]["try_from"]
        return ex.exec_body(st, "fn", p, ex.mir.body("fn", p), f[1], c.vals)
    if isinstance(T, str) and isinstance(U, str):
        lo, hi = INT_RANGES[U]
        v = c.vals[0]
        return branches(ex, st, z3.And(v >= lo, v <= hi), ok(v), err(Op("TryFromIntError")))
    raise Unsupported(f"try_into {ts(T)} -> {ts(U)}")


@h("core::convert::num::ptr_try_from_impls::<impl core::convert::TryFrom<usize> for u64>::try_from")
def tf(ex, st, c):
    return ok(c.vals[0])


@h("zeroize::Zeroize::zeroize", "<Z as zeroize::Zeroize>::zeroize")
def zz(ex, st, c):
    return UNIT


# ---------------------------------------------------------------- formatting, panics, errors
def opaque(tag):
    def f(ex, st, c):
        return Op(tag)
    return f


for p in ("alloc::fmt::format", "core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::new", "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_display",
          "core::fmt::Arguments::<'a>::new_const", "alloc::string::ToString::to_string", "<T as alloc::string::ToString>::to_string", "alloc::string::String::new", "core::fmt::rt::Argument::<'_>::new_lower_hex"):
    HANDLERS[p] = opaque("msg")
HANDLERS["manul::protocol::LocalError::new"] = opaque("LocalError")


@h("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::assert_failed", "core::panicking::unreachable_display", "core::panicking::panic_explicit", "core::panicking::panic_display",
   "core::option::unwrap_failed", "core::result::unwrap_failed", "core::panicking::panic_const::panic_const_div_by_zero")
def pan(ex, st, c):
    return Panic("")


# ---------------------------------------------------------------- Choice / CtOption
@h("<elliptic_curve::subtle::Choice as core::convert::From<u8>>::from")
def ch_from(ex, st, c):
    return z3.simplify(c.vals[0] == 1)


@h("elliptic_curve::subtle::<impl core::convert::From<elliptic_curve::subtle::Choice> for bool>::from", "elliptic_curve::subtle::Choice::unwrap_u8_")
def ch_bool(ex, st, c):
    return c.vals[0]


@h("elliptic_curve::subtle::Choice::unwrap_u8")
def ch_u8(ex, st, c):
    return z3.If(D(ex, st, c.vals[0]), z3.IntVal(1), z3.IntVal(0))


def boolop(f):
    def g(ex, st, c):
        return z3.simplify(f(*[D(ex, st, v) for v in c.vals]))
    return g


CH = "<elliptic_curve::subtle::Choice as core::ops::"
HANDLERS[CH + "BitAnd>::bitand"] = boolop(lambda a, b: z3.And(a, b))
HANDLERS[CH + "BitOr>::bitor"] = boolop(lambda a, b: z3.Or(a, b))
HANDLERS[CH + "BitXor>::bitxor"] = boolop(lambda a, b: z3.Xor(a, b))
HANDLERS[CH + "Not>::not"] = boolop(lambda a: z3.Not(a))


def boolassign(f):
    def g(ex, st, c):
        r = ex.lastref(st, c.vals[0])
        ex.write(st, r.cell, r.proj, z3.simplify(f(ex.read(st, r.cell, r.proj), D(ex, st, c.vals[1]))))
        return UNIT
    return g


HANDLERS[CH + "BitAndAssign>::bitand_assign"] = boolassign(lambda a, b: z3.And(a, b))
HANDLERS[CH + "BitOrAssign>::bitor_assign"] = boolassign(lambda a, b: z3.Or(a, b))
HANDLERS["<bool as core::ops::BitXorAssign<&bool>>::bitxor_assign"] = boolassign(lambda a, b: z3.Xor(a, b))
HANDLERS["<bool as core::ops::BitXorAssign>::bitxor_assign"] = boolassign(lambda a, b: z3.Xor(a, b))


@h("elliptic_curve::subtle::CtOption::<T>::new")
def ctnew(ex, st, c):
    return ct(c.vals[0], c.vals[1])


@h("elliptic_curve::subtle::CtOption::<T>::expect", "elliptic_curve::subtle::CtOption::<T>::unwrap")
def ctexpect(ex, st, c):
    o = c.vals[0]
    return branches(ex, st, o.fs[1], lambda s: o.fs[0], lambda s: Panic(""))


@h("elliptic_curve::subtle::CtOption::<T>::is_some")
def ctissome(ex, st, c):
    return D(ex, st, c.vals[0]).fs[1]


@h("elliptic_curve::subtle::CtOption::<T>::is_none")
def ctisnone(ex, st, c):
    return z3.simplify(z3.Not(D(ex, st, c.vals[0]).fs[1]))


@h("elliptic_curve::subtle::CtOption::<T>::map")
def ctmap(ex, st, c):
    o = c.vals[0]
    return [(s, v if isinstance(v, Panic) else ct(v, o.fs[1])) for s, v in ex.call_fnv(st, c.vals[1], [o.fs[0]])]


@h("elliptic_curve::subtle::CtOption::<T>::and_then")
def ctandthen(ex, st, c):
    o = c.vals[0]
    return [(s, v if isinstance(v, Panic) else ct(v.fs[0], z3.simplify(z3.And(o.fs[1], v.fs[1])))) for s, v in ex.call_fnv(st, c.vals[1], [o.fs[0]])]


@h("elliptic_curve::subtle::<impl core::convert::From<elliptic_curve::subtle::CtOption<T>> for core::option::Option<T>>::from")
def ct_opt(ex, st, c):
    o = c.vals[0]
    return branches(ex, st, o.fs[1], lambda s: some(o.fs[0]), lambda s: NONE)


def ite(c, a, b):
    """value-level if-then-else for scalar-like values; None if it needs a fork"""
    cc = concb(c)
    if cc is not None:
        return a if cc else b
    if key(a) == key(b):
        return a
    d = decided(c)
    if d is not None:
        return a if d else b
    if isinstance(a, W) or isinstance(b, W):
        B = a.B if isinstance(a, W) else b.B
        return W(z3.If(c, wexp(a), wexp(b)), B)
    if isint(a) and isint(b):
        return z3.If(c, a, b)
    if isbool(a) and isbool(b):
        return z3.simplify(z3.If(c, a, b))
    if isinstance(a, Agg) and isinstance(b, Agg) and a.tag == b.tag and a.var == b.var and len(a.fs) == len(b.fs):
        fs = [ite(c, x, y) for x, y in zip(a.fs, b.fs)]
        if all(f is not None for f in fs):
            return Agg(a.tag, fs, a.var)
    return None


def decided(c):
    """truth value of c under the current path condition, if it has one"""
    cc = concb(c)
    if cc is not None or CUR[0] is None:
        return cc
    pc = CUR[0].pc
    if not pc:
        return None
    if not feasible(pc + [c]):
        return False
    if not feasible(pc + [z3.Not(c)]):
        return True
    return None


def IF(c, a, b):
    d = decided(c)
    return z3.If(c, a, b) if d is None else (a if d else b)


def select(ex, st, c, a, b):
    """c ? a : b with fork if needed"""
    v = ite(c, a, b)
    if v is not None:
        return [(st, v)]
    return branches(ex, st, c, lambda s: a, lambda s: b)


@h("elliptic_curve::subtle::ConditionallySelectable::conditional_select", "subtle::ConditionallySelectable::conditional_select")
def csel(ex, st, c):
    a, b = D(ex, st, c.vals[0]), D(ex, st, c.vals[1])
    return select(ex, st, c.vals[2], b, a)


@h("elliptic_curve::subtle::ConditionallySelectable::conditional_assign")
def casn(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    out = []
    for s, v in select(ex, st, c.vals[2], D(ex, st, c.vals[1]), ex.read(st, r.cell, r.proj)):
        ex.write(s, r.cell, r.proj, v)
        out.append((s, UNIT))
    return out


@h("elliptic_curve::subtle::ConditionallyNegatable::conditional_negate")
def cneg(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    a = ex.read(st, r.cell, r.proj)
    out = []
    n = neg_val(a)
    for s, v in select(ex, st, c.vals[1], n, a):
        ex.write(s, r.cell, r.proj, v)
        out.append((s, UNIT))
    return out


def neg_val(a):
    if isinstance(a, Res):
        if a.m.kind == "group":
            return res_inv(a)
        return Res(a.m, e=-as_int(a))
    if isinstance(a, W):
        return W(-a.e, a.B)
    raise Unsupported(f"negation of {a!r}"[:120])


def cmpop(op):
    def f(ex, st, c):
        a, b = D(ex, st, c.vals[0]), D(ex, st, c.vals[1])
        return vcmp(op, a, b, c)
    return f


def vcmp(op, a, b, c=None):
    if isinstance(a, Res) and isinstance(b, Res):
        if op == "eq":
            return res_eq(a, b)
        if op == "ne":
            return z3.simplify(z3.Not(res_eq(a, b)))
        raise Unsupported("ordering of residues")
    if isinstance(a, W) or isinstance(b, W):
        B = a.B if isinstance(a, W) else b.B
        a, b = uintv(a, B), uintv(b, B)
    if isint(a) and isint(b):
        if op == "eq" and eqpoly(a, b):
            return TRUE
        return z3.simplify({"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[op]())
    if isbool(a) and isbool(b):
        return z3.simplify(a == b if op == "eq" else z3.Not(a == b))
    e = veq(a, b)
    return e if op == "eq" else z3.simplify(z3.Not(e))


def veq(a, b):
    """structural equality of arbitrary values as a formula"""
    if isint(a) and isint(b):
        d = poly(a) - poly(b)
        ij = core.same_function(d)
        return TRUE if d.zero() else core.idx_eq(*ij) if ij is not None else z3.simplify(a == b)
    if isinstance(a, W) or isinstance(b, W):
        B = a.B if isinstance(a, W) else b.B
        if isinstance(a, W) and isinstance(b, W) and eqpoly(a.e, b.e):
            return TRUE
        return uintv(a, B) == uintv(b, B)
    if isbool(a) and isbool(b):
        return z3.simplify(a == b)
    if isinstance(a, Res) and isinstance(b, Res):
        return res_eq(a, b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.tag != b.tag or a.var != b.var or len(a.fs) != len(b.fs):
            return FALSE
        return z3.simplify(z3.And([veq(x, y) for x, y in zip(a.fs, b.fs)])) if a.fs else TRUE
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items):
                return FALSE
            return z3.simplify(z3.And([veq(x, y) for x, y in zip(a.items, b.items)])) if a.items else TRUE
    if key(a) == key(b):
        return TRUE
    if type(a) is not type(b):
        raise Unsupported(f"equality of {a!r} and {b!r}"[:200])
    ks = sorted([key(a), key(b)])
    return atom(f"{ks[0]} == {ks[1]}")


for n in ("eq", "ne"):
    for p in ("core::cmp::PartialEq", "core::cmp::impls::<impl core::cmp::PartialEq<&B> for &A>", "<alloc::boxed::Box<T, A> as core::cmp::PartialEq>", "<alloc::vec::Vec<T, A> as core::cmp::PartialEq>",
              "<core::option::Option<T> as core::cmp::PartialEq>", "<crypto_bigint::NonZero<T> as core::cmp::PartialEq>", "<crypto_bigint::Odd<T> as core::cmp::PartialEq>",
              "core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>", "alloc::vec::partial_eq::<impl core::cmp::PartialEq<alloc::vec::Vec<U, A2>> for alloc::vec::Vec<T, A1>>"):
        def peq(ex, st, c, n=n):
            return eq_dispatch(ex, st, c, n)
        HANDLERS[f"{p}::{n}"] = peq
for n in ("lt", "le", "gt", "ge"):
    HANDLERS[f"core::cmp::PartialOrd::{n}"] = cmpop(n)


def eq_dispatch(ex, st, c, n):
    """equality; local PartialEq impls are executed"""
    a, b = D(ex, st, c.vals[0]), D(ex, st, c.vals[1])
    if isinstance(a, Agg) and isinstance(a.tag, str) and a.tag in ex.mir.adts:
        ta = unwrap_refs(c.args[0])
        tb = unwrap_refs(c.args[1] if len(c.args) > 1 else c.args[0])
        f = ex.mir.find_impl("core::cmp::PartialEq", (ta, tb))
        if f and "eq" in f[0]["items"]:
            p = f[0]["items"]["eq"]
            r = []
            ra, rb = ex.ref(st, a), ex.ref(st, b)
            ex.inlined.add(p)
            for s, v in ex.exec_body(st, "fn", p, ex.mir.body("fn", p), f[1], [ra, rb]):
                r.append((s, v if isinstance(v, Panic) or n == "eq" else z3.simplify(z3.Not(v))))
            return r
    return [(st, vcmp(n, a, b, c))]


def unwrap_refs(t):
    while isinstance(t, tuple) and (t[0] == "ref" or (t[0] == "adt" and t[1] == "alloc::boxed::Box")):
        t = t[2] if t[0] == "ref" else t[2][0]
    return t


for n, m in (("ConstantTimeEq::ct_eq", "eq"), ("ConstantTimeEq::ct_ne", "ne"), ("ConstantTimeGreater::ct_gt", "gt"), ("ConstantTimeLess::ct_lt", "lt")):
    HANDLERS["elliptic_curve::subtle::" + n] = cmpop(m)


@h("core::cmp::max", "core::cmp::Ord::max")
def cmax(ex, st, c):
    a, b = c.vals
    return z3.If(a >= b, a, b) if not (conc(a) is not None and conc(b) is not None) else z3.IntVal(max(conc(a), conc(b)))


@h("core::cmp::min", "core::cmp::Ord::min", "core::cmp::impls::<impl core::cmp::Ord for usize>::min", "core::cmp::impls::<impl core::cmp::Ord for u32>::min")
def cmin(ex, st, c):
    a, b = c.vals
    if eqpoly(a, b):
        return a
    return z3.If(a <= b, a, b) if not (conc(a) is not None and conc(b) is not None) else z3.IntVal(min(conc(a), conc(b)))


# ---------------------------------------------------------------- Option / Result
O, R = "core::option::Option::<T>::", "core::result::Result::<T, E>::"


@h(O + "expect", O + "unwrap")
def oexp(ex, st, c):
    o = c.vals[0]
    if isinstance(o, Agg) and o.tag == CTO:
        return ctexpect(ex, st, c)
    return o.fs[0] if o.var == 1 else Panic("")


@h(O + "is_some")
def oiss(ex, st, c):
    return z3.BoolVal(D(ex, st, c.vals[0]).var == 1)


@h(O + "is_none")
def oisn(ex, st, c):
    return z3.BoolVal(D(ex, st, c.vals[0]).var == 0)


@h(O + "map")
def omap(ex, st, c):
    o, f = c.vals
    if o.var == 0:
        return NONE
    return [(s, v if isinstance(v, Panic) else some(v)) for s, v in ex.call_fnv(st, f, [o.fs[0]])]


@h(O + "and_then")
def oand(ex, st, c):
    o, f = c.vals
    return NONE if o.var == 0 else ex.call_fnv(st, f, [o.fs[0]])


@h(O + "filter")
def ofilter(ex, st, c):
    o, f = c.vals
    if o.var == 0:
        return NONE
    out = []
    for s, v in ex.call_fnv(st, f, [ex.ref(st, o.fs[0], False)]):
        out += [(s, v)] if isinstance(v, Panic) else [(s2, o if b else NONE) for s2, b in ex.fork(s, v)]
    return out


@h(O + "is_some_and")
def oissomeand(ex, st, c):
    return FALSE if c.vals[0].var == 0 else ex.call_fnv(st, c.vals[1], [c.vals[0].fs[0]])


@h(O + "is_none_or")
def oisnoneor(ex, st, c):
    return TRUE if c.vals[0].var == 0 else ex.call_fnv(st, c.vals[1], [c.vals[0].fs[0]])


@h(O + "or_else")
def oorelse(ex, st, c):
    return c.vals[0] if c.vals[0].var == 1 else ex.call_fnv(st, c.vals[1], [])


@h(O + "ok_or")
def okor(ex, st, c):
    o, e = c.vals
    return ok(o.fs[0]) if o.var == 1 else err(e)


@h(O + "ok_or_else")
def okorelse(ex, st, c):
    o, f = c.vals
    if o.var == 1:
        return ok(o.fs[0])
    return [(s, v if isinstance(v, Panic) else err(v)) for s, v in ex.call_fnv(st, f, [])]


@h(O + "unwrap_or")
def ounwor(ex, st, c):
    if isinstance(c.vals[0], Agg) and c.vals[0].tag == "reduced":
        # the reduction of an empty sequence is the neutral element
        if key(c.vals[0].fs[1]) != key(c.vals[1]):
            raise Unsupported("default of a reduction is not its neutral element")
        return c.vals[0].fs[0]
    return c.vals[0].fs[0] if c.vals[0].var == 1 else c.vals[1]


@h(O + "unwrap_or_else")
def ounwore(ex, st, c):
    return c.vals[0].fs[0] if c.vals[0].var == 1 else ex.call_fnv(st, c.vals[1], [])


@h(O + "as_ref")
def oasref(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    o = ex.read(st, r.cell, r.proj)
    return NONE if o.var == 0 else some(Ref(r.cell, r.proj + (("f", 0),)))


@h(O + "cloned", O + "copied", "core::option::Option::<&T>::cloned", "core::option::Option::<&T>::copied")
def ocl(ex, st, c):
    o = c.vals[0]
    return NONE if o.var == 0 else some(ex.read(st, o.fs[0].cell, o.fs[0].proj))


@h(R + "expect", R + "unwrap")
def rexp(ex, st, c):
    o = c.vals[0]
    return o.fs[0] if o.var == 0 else Panic("")


@h(R + "ok")
def rok(ex, st, c):
    o = c.vals[0]
    return some(o.fs[0]) if o.var == 0 else NONE


@h(R + "is_ok")
def risok(ex, st, c):
    return z3.BoolVal(D(ex, st, c.vals[0]).var == 0)


@h(R + "is_err")
def riserr(ex, st, c):
    return z3.BoolVal(D(ex, st, c.vals[0]).var == 1)


@h(R + "map")
def rmap(ex, st, c):
    o, f = c.vals
    if o.var == 1:
        return err(o.fs[0])
    return [(s, v if isinstance(v, Panic) else ok(v)) for s, v in call_ctor(ex, st, f, [o.fs[0]])]


@h(R + "map_err")
def rmaperr(ex, st, c):
    o, f = c.vals
    if o.var == 0:
        return o
    return err(Op("mapped_err"))


@h(R + "and_then")
def randthen(ex, st, c):
    o, f = c.vals
    return o if o.var == 1 else ex.call_fnv(st, f, [o.fs[0]])


def call_ctor(ex, st, f, args):
    """tuple-struct constructors used as functions have no MIR of their own in the dump"""
    if isinstance(f, FnV):
        p = f.callee["path"]
        if p in ex.mir.adts:
            return [(st, Agg(p, args))]
        if p == "core::option::Option::Some":
            return [(st, some(*args))]
    return ex.call_fnv(st, f, args)


@h("<core::result::Result<T, E> as core::ops::Try>::branch")
def rbranch(ex, st, c):
    o = c.vals[0]
    return Agg(CFLOW, (o.fs[0],), 0) if o.var == 0 else Agg(CFLOW, (err(o.fs[0]),), 1)


@h("<core::option::Option<T> as core::ops::Try>::branch")
def obranch(ex, st, c):
    o = c.vals[0]
    return Agg(CFLOW, (o.fs[0],), 0) if o.var == 1 else Agg(CFLOW, (NONE,), 1)


@h("<core::result::Result<T, F> as core::ops::FromResidual<core::result::Result<!, E>>>::from_residual", "<core::option::Option<T> as core::ops::FromResidual<core::option::Option<!>>>::from_residual")
def fres(ex, st, c):
    return c.vals[0]


# ---------------------------------------------------------------- secrecy
@h("secrecy::SecretBox::<S>::init_with")
def sinit(ex, st, c):
    return ex.call_fnv(st, c.vals[0], [])


@h("secrecy::SecretBox::<S>::try_init_with")
def stryinit(ex, st, c):
    return ex.call_fnv(st, c.vals[0], [])


@h("secrecy::SecretBox::<S>::init_with_mut")
def sinitmut(ex, st, c):
    raise Unsupported("init_with_mut")


# ---------------------------------------------------------------- big integers
CB = "crypto_bigint::"


def Tself(c):
    return unwrap_ty(c.args[0])


def is_prim(t):
    return isinstance(t, str) and t in INT_RANGES


@h(CB + "Zero::zero")
def zero(ex, st, c):
    return zero_of(ex, Tself(c))


@h(CB + "Integer::one")
def one(ex, st, c):
    return z3.IntVal(1)


def zero_of(ex, t):
    return z3.IntVal(0)


def wr(f):
    def g(ex, st, c):
        B = bits_of(Tself(c))
        vs = [D(ex, st, v) for v in c.vals]
        if any(isinstance(v, Res) for v in vs):
            raise Unsupported("wrapping op on residue")
        return W(f(*[wexp(v) for v in vs]), B)
    return g


HANDLERS[CB + "WrappingAdd::wrapping_add"] = wr(lambda a, b: a + b)
HANDLERS[CB + "WrappingSub::wrapping_sub"] = wr(lambda a, b: a - b)
HANDLERS[CB + "WrappingMul::wrapping_mul"] = wr(lambda a, b: a * b)
HANDLERS[CB + "WrappingNeg::wrapping_neg"] = wr(lambda a: -a)
HANDLERS[CB + "WrappingShl::wrapping_shl"] = wr(lambda a, n: a * P2(norm(n)))
HANDLERS[CB + "ShlVartime::wrapping_shl_vartime"] = wr(lambda a, n: a * P2(norm(n)))


@h(CB + "ShlVartime::overflowing_shl_vartime")
def oshl(ex, st, c):
    B = bits_of(Tself(c))
    a, n = D(ex, st, c.vals[0]), c.vals[1]
    e = norm(wexp(a) * P2(norm(n)))
    if isint(a) and check(st.pc, e < P2(norm(B)), 3000) == "proved":
        return ct(e, z3.simplify(n < B))
    return ct(W(e, B), z3.simplify(n < B))


@h(CB + "ShrVartime::wrapping_shr_vartime", CB + "WrappingShr::wrapping_shr")
def wshr(ex, st, c):
    B = bits_of(Tself(c))
    return DIV(norm(uintv(D(ex, st, c.vals[0]), B)), norm(P2(norm(c.vals[1]))))


@h(CB + "ShrVartime::overflowing_shr_vartime")
def oshr(ex, st, c):
    B = bits_of(Tself(c))
    return ct(DIV(norm(uintv(D(ex, st, c.vals[0]), B)), norm(P2(norm(c.vals[1])))), z3.simplify(c.vals[1] < B))


@h(CB + "CheckedAdd::checked_add")
def cadd(ex, st, c):
    B = bits_of(Tself(c))
    a, b = [uintv(D(ex, st, v), B) for v in c.vals]
    return ct(norm(a + b), a + b < P2(norm(B)))


@h(CB + "CheckedSub::checked_sub")
def csub(ex, st, c):
    B = bits_of(Tself(c))
    a, b = [uintv(D(ex, st, v), B) for v in c.vals]
    return ct(norm(a - b), z3.simplify(a >= b))


@h(CB + "CheckedMul::checked_mul")
def cmul(ex, st, c):
    B = bits_of(Tself(c))
    a, b = [uintv(D(ex, st, v), B) for v in c.vals]
    return ct(norm(a * b), a * b < P2(norm(B)))


@h(CB + "BitOps::bits", CB + "BitOps::bits_vartime", CB + "uint::bits::<impl crypto_bigint::Uint<LIMBS>>::bits_vartime", CB + "uint::bits::<impl crypto_bigint::Uint<LIMBS>>::bits")
def bits(ex, st, c):
    t = ("adt", "crypto_bigint::Uint", (c.args[0],)) if "impl" in c.path else Tself(c)
    return BITS(norm(uintv(D(ex, st, c.vals[0]), bits_of(t))))


@h(CB + "BitOps::bit_vartime", CB + "BitOps::bit")
def bitv(ex, st, c):
    B = bits_of(Tself(c))
    v = uintv(D(ex, st, c.vals[0]), B)
    i = norm(c.vals[1])
    if eqpoly(i, B - 1):
        return v >= P2(norm(B - 1))
    return mod(DIV(norm(v), norm(P2(i))), 2) == 1


@h(CB + "Zero::is_zero")
def isz(ex, st, c):
    v = D(ex, st, c.vals[0])
    if isinstance(v, Res):
        return res_eq(v, Res(v.m, e=0))
    return z3.simplify(uintv(v, bits_of(Tself(c))) == 0)


@h(CB + "Integer::is_odd")
def isodd(ex, st, c):
    return mod(uintv(D(ex, st, c.vals[0]), bits_of(Tself(c))), 2) == 1


@h(CB + "Integer::is_even")
def iseven(ex, st, c):
    return mod(uintv(D(ex, st, c.vals[0]), bits_of(Tself(c))), 2) == 0


@h(CB + "NonZero::<T>::new", "elliptic_curve::crypto_bigint::NonZero::<T>::new")
def nznew(ex, st, c):
    v = c.vals[0]
    return ct(v, z3.simplify(uintv(v, bits_of(Tself(c))) != 0))


@h(CB + "Odd::<T>::new")
def oddnew(ex, st, c):
    v = c.vals[0]
    u = uintv(v, bits_of(Tself(c)))
    return ct(v, mod(u, 2) == 1)


@h(CB + "RandomMod::random_mod")
def rmod(ex, st, c):
    B = bits_of(Tself(c))
    m = uintv(D(ex, st, c.vals[1]), B)
    return draw(st, "rnd", lambda x: [x >= 0, x < m])


def draw(st, tag, facts):
    n = f"{tag}{st.rp}{st.nr}"
    st.nr += 1
    x = z3.Int(n)
    if n not in FACT:
        fact(n, *facts(x))
    return x


@h("rand_core::RngCore::next_u32", "rand_core::RngCore::next_u64")
def next_u(ex, st, c):
    w = 32 if c.path.endswith("32") else 64
    return draw(st, "rnd", lambda x: [x >= 0, x < 2 ** w])


@h("crypto_primes::hazmat::SmallPrimesSieveFactory::<T>::new", "crypto_primes::hazmat::SmallPrimesSieveFactory::<T>::new_safe_primes")
def sieve_new(ex, st, c):
    sb = D(ex, st, c.vals[1])
    return Op("sieve", norm(c.vals[0]), z3.IntVal(sb.var if isinstance(sb, Agg) else -1), z3.BoolVal("safe" in c.path))


def prime_facts(x, bits, setbits, safe):
    """a (probable) prime from a sieve: SetBits variants are Msb, TwoMsb, None"""
    r = [x < P2(norm(bits)), x >= 2, core.PRIME(x)]
    if setbits in (0, 1):
        r += [x >= P2(norm(bits - 1)), z3.Implies(bits >= 2, MOD(x, z3.IntVal(2)) == 1)]
    if setbits == 1:
        r += [x >= 3 * P2(norm(bits - 2))]
    if safe:
        r += [z3.Implies(bits >= 4, MOD(x, z3.IntVal(4)) == 3), core.PRIME(DIV(x, z3.IntVal(2)))]
    return r


@h("crypto_primes::sieve_and_find")
def sieve_find(ex, st, c):
    s, f = c.vals[1], c.vals[2]
    if not (isinstance(s, Op) and s.tag == "sieve"):
        raise Unsupported("sieve_and_find")
    if not (isinstance(f, FnV) and f.callee["path"] in ("crypto_primes::is_prime_with_rng", "crypto_primes::is_safe_prime_with_rng")):
        raise Unsupported(f"sieve_and_find with {f!r}"[:120])
    bits, sb, safe = s.args[0], conc(s.args[1]), concb(s.args[2]) and "safe" in f.callee["path"]
    return some(draw(st, "prime", lambda x: prime_facts(x, bits, sb, safe)))


@h("crypto_primes::RandomPrimeWithRng::generate_safe_prime_with_rng", "crypto_primes::RandomPrimeWithRng::generate_prime_with_rng")
def gen_safe(ex, st, c):
    return draw(st, "prime", lambda x: prime_facts(x, norm(c.vals[1]), 0, "safe" in c.path))


@h(CB + "AddMod::add_mod")
def addmod(ex, st, c):
    B = bits_of(Tself(c))
    a, b, m = [uintv(D(ex, st, v), B) for v in c.vals]
    return mod(a + b, m)


@h(CB + "Gcd::gcd")
def gcd(ex, st, c):
    B = bits_of(Tself(c))
    a, b = [uintv(D(ex, st, v), B) for v in c.vals]
    return GCD(norm(a), norm(b))


@h(CB + "InvMod::inv_mod")
def invmod(ex, st, c):
    B = bits_of(Tself(c))
    a, m = [uintv(D(ex, st, v), B) for v in c.vals]
    r = INV(norm(a), norm(m))
    st.pc.append(z3.Implies(m > 0, z3.And(r >= 0, r < m)))
    return ct(r, GCD(norm(a), norm(m)) == 1)


# generic operators: the value decides
def binop(name):
    def f(ex, st, c):
        a, b = D(ex, st, c.vals[0]), D(ex, st, c.vals[1])
        return arith(ex, st, name, a, b, c.args[0])
    return f


def assignop(name):
    def f(ex, st, c):
        r = ex.lastref(st, c.vals[0])
        out = []
        for s, v in arith(ex, st, name, ex.read(st, r.cell, r.proj), D(ex, st, c.vals[1]), c.args[0]):
            if isinstance(v, Panic):
                out.append((s, v))
            else:
                ex.write(s, r.cell, r.proj, v)
                out.append((s, UNIT))
        return out
    return f


def arith(ex, st, op, a, b, t):
    """a op b for big integers (operators panic on overflow), residues and points"""
    if isinstance(a, Res):
        if op == "add":
            return [(st, res_add(a, b))]
        if op == "sub":
            return [(st, res_add(a, b, -1))]
        if op == "mul":
            if a.m.kind == "group":
                return [(st, res_pow(a, as_int(b)))]
            return [(st, res_mul(a, b))]
        raise Unsupported(f"{op} on residues")
    t = unwrap_ty(t)
    B = bits_of(t)
    a, b = uintv(a, B), uintv(b, B) if not isinstance(b, W) else uintv(b, b.B)
    P = P2(norm(B))
    if op == "add":
        return branches(ex, st, a + b < P, lambda s: norm(a + b), lambda s: Panic("overflow"))
    if op == "sub":
        return branches(ex, st, a >= b, lambda s: norm(a - b), lambda s: Panic("underflow"))
    if op == "mul":
        return branches(ex, st, a * b < P, lambda s: norm(a * b), lambda s: Panic("overflow"))
    if op == "rem":
        return [(st, mod(a, b))]
    if op == "div":
        return [(st, DIV(norm(a), norm(b)))]
    if op == "shl":
        return branches(ex, st, b < B, lambda s: W(a * P2(norm(b)), B), lambda s: Panic("shift overflow"))
    if op == "shr":
        return branches(ex, st, b < B, lambda s: DIV(norm(a), norm(P2(norm(b)))), lambda s: Panic("shift overflow"))
    if op == "bitand":
        return [(st, AND(norm(a), norm(b)))]
    raise Unsupported(f"operator {op}")


for n, m in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul"), ("rem", "Rem"), ("div", "Div"), ("shl", "Shl"), ("shr", "Shr"), ("bitand", "BitAnd")):
    HANDLERS[f"core::ops::{m}::{n}"] = binop(n)
    HANDLERS[f"core::ops::{m}Assign::{n}_assign"] = assignop(n)


@h("core::ops::Neg::neg")
def neg(ex, st, c):
    return neg_val(D(ex, st, c.vals[0]))


# ---------------------------------------------------------------- Montgomery form
def mod_of(e):
    """Mod object for a modulus value; perfect squares are recognised"""
    e = norm(iv(e))
    p = poly(e)
    sq = None
    if len(p.d) == 1:
        (k, c0), = p.d.items()
        if c0 == 1 and k and all(n % 2 == 0 for a, n in k):
            sq = Poly({tuple((a, n // 2) for a, n in k): 1}).expr()
    return Mod(e, sq=sq)


@h(CB + "Monty::new_params_vartime")
def mparams(ex, st, c):
    v = D(ex, st, c.vals[0])
    if isinstance(v, W):
        raise Unsupported("modulus is a wrapped value")
    return Op("mparams", mod_of(v))


def mp_mod(ex, st, v):
    v = D(ex, st, v)
    if isinstance(v, Op) and v.tag == "mparams":
        return v.args[0]
    raise Unsupported(f"montgomery params {v!r}"[:100])


@h(CB + "Monty::new")
def mnew(ex, st, c):
    m = mp_mod(ex, st, c.vals[1])
    v = D(ex, st, c.vals[0])
    if isinstance(v, W):
        v = uintv(v, v.B)
    return Res(m, e=v)


@h(CB + "Monty::one")
def mone(ex, st, c):
    return Res(mp_mod(ex, st, c.vals[0]), e=1)


@h(CB + "Monty::zero")
def mzero(ex, st, c):
    return Res(mp_mod(ex, st, c.vals[0]), e=0)


@h(CB + "Monty::params")
def mpar(ex, st, c):
    return ex.ref(st, Op("mparams", D(ex, st, c.vals[0]).m))


@h(CB + "modular::Retrieve::retrieve")
def mret(ex, st, c):
    return retrieve(D(ex, st, c.vals[0]))


@h(CB + "Square::square")
def msq(ex, st, c):
    v = D(ex, st, c.vals[0])
    return res_mul(v, v)


def unit_cond(r):
    """condition under which r is invertible: every base of its word is"""
    if r.m.name == "q":
        if folds.is_unit(as_int(r)):
            return TRUE
        return z3.simplify(z3.Not(res_eq(r, Res(r.m, e=0))))
    cs = []
    for k, (b, x) in as_word(r).items():
        cs.append(unit_base(k, b, r.m))
    return z3.simplify(z3.And(cs)) if cs else TRUE


UNITS = core.UNITS


def unit_base(k, b, m):
    if k in UNITS or (k, m.name) in UNITS:
        return TRUE
    if m.sq is not None and isint(b) and eqpoly(b, 1 + m.sq):
        return TRUE
    return atom(f"unit {k} mod {m.name}")


@h(CB + "Invert::invert")
def minv(ex, st, c):
    v = D(ex, st, c.vals[0])
    if not isinstance(v, Res):
        raise Unsupported("invert")
    if v.m.name == "q":
        return ct(scalar_inv(v), unit_cond(v))
    return ct(res_inv(v), unit_cond(v))


def scalar_inv(v):
    return Res(v.m, e=folds.inv_q(v.e))


@h(CB + "PowBoundedExp::pow_bounded_exp")
def mpow(ex, st, c):
    b, e, n = D(ex, st, c.vals[0]), D(ex, st, c.vals[1]), c.vals[2]
    B = bits_of(c.args[1])
    if isinstance(e, W) and check(st.pc, z3.And(e.e >= 0, e.e < P2(norm(iv(B)))), 3000) == "proved":
        e = norm(e.e)
    e = uintv(e, B)
    if conc(n) is None or conc(e) is None:
        if check(st.pc + facts_for(st.pc + [e < P2(norm(n))]), e < P2(norm(n)), 4000) != "proved":
            e = mod(e, P2(norm(n)))
    return res_pow(b, e)


def facts_for(fs):
    """facts about the constants occurring in fs, transitively"""
    out, seen, todo = [], set(), list(fs)
    visited = set()
    while todo:
        new = []
        for t in terms_of(todo):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = t.decl().name()
                if n in FACT and n not in seen:
                    seen.add(n)
                    new += FACT[n]
        out += new
        todo = new
    return out


# ---------------------------------------------------------------- primitive integers
@h("core::num::<impl u32>::div_ceil", "core::num::<impl usize>::div_ceil")
def divceil(ex, st, c):
    a, b = c.vals
    if conc(a) is not None and conc(b) is not None:
        return z3.IntVal(-(-conc(a) // conc(b)))
    return norm(DIV(norm(a + b - 1), norm(b)))


@h("core::num::<impl usize>::ilog2", "core::num::<impl u32>::ilog2")
def ilog2(ex, st, c):
    a = c.vals[0]
    if conc(a) is not None:
        return z3.IntVal(conc(a).bit_length() - 1) if conc(a) > 0 else Panic("ilog2")
    return branches(ex, st, a > 0, lambda s: norm(BITS(norm(a)) - 1), lambda s: Panic("ilog2"))


INTBYTES = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "usize": 8}


@h(*[f"core::num::<impl {t}>::to_{e}_bytes" for t in INTBYTES for e in ("be", "le")])
def intbytes(ex, st, c):
    n = INTBYTES[c.path.split("impl ")[1].split(">")[0]]
    e = "be" if "_be_" in c.path else "le"
    v = c.vals[0]
    return Seq(n=n, f=lambda j: Op(f"byte_{e}{n}", v, j), key=f"{e}bytes{n}({key(v)})")


# ---------------------------------------------------------------- sequences and iterators
def seqv(ex, st, v):
    v = D(ex, st, v)
    if isinstance(v, Seq):
        return v
    raise Unsupported(f"sequence expected, got {v!r}"[:120])


@h("core::slice::<impl [T]>::len", "alloc::vec::Vec::<T, A>::len")
def slen(ex, st, c):
    return norm(seqv(ex, st, c.vals[0]).n)


@h("core::slice::<impl [T]>::is_empty", "alloc::vec::Vec::<T, A>::is_empty")
def sempty(ex, st, c):
    return z3.simplify(seqv(ex, st, c.vals[0]).n == 0)


def mkiter(seq):
    return Agg("iter", [seq, z3.IntVal(0)])


@h("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "core::slice::iter::<impl core::iter::IntoIterator for &'a [T]>::into_iter",
   "<&'a alloc::vec::Vec<T, A> as core::iter::IntoIterator>::into_iter", "<&'a alloc::boxed::Box<[I], A> as core::iter::IntoIterator>::into_iter", "core::slice::iter::<impl core::iter::IntoIterator for &'a mut [T]>::into_iter",
   "core::array::<impl core::iter::IntoIterator for &'a [T; N]>::into_iter", "<&'a mut alloc::vec::Vec<T, A> as core::iter::IntoIterator>::into_iter")
def siter(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    s = ex.read(st, r.cell, r.proj)
    if not isinstance(s, Seq):
        raise Unsupported(f"iter over {s!r}"[:120])
    if s.items is not None:
        return mkiter(Seq(items=[Ref(r.cell, r.proj + (("i", z3.IntVal(i)),)) for i in range(len(s.items))]))
    return mkiter(Seq(n=s.n, f=lambda j: Ref(r.cell, r.proj + (("i", j),))))


@h("<alloc::vec::Vec<T, A> as core::iter::IntoIterator>::into_iter", "core::array::iter::<impl core::iter::IntoIterator for [T; N]>::into_iter", "<alloc::boxed::Box<[I], A> as core::iter::IntoIterator>::into_iter",
   "alloc::boxed::iter::<impl core::iter::IntoIterator for alloc::boxed::Box<[I], A>>::into_iter")
def vinto(ex, st, c):
    return mkiter(seqv(ex, st, c.vals[0]))


@h("core::iter::IntoIterator::into_iter")
def into_iter(ex, st, c):
    v = c.vals[0]
    if isinstance(v, Agg) and v.tag == "iter":
        return v
    if isinstance(v, Ref):
        return siter(ex, st, c)
    return vinto(ex, st, c)


def natural(st, n):
    n = norm(n)
    return n if conc(n) is not None and conc(n) >= 0 or check(st.pc, n >= 0, 2000) == "proved" else z3.If(n >= 0, n, z3.IntVal(0))


SKIP = Op("skip")       # element of a filtered sequence that is left out


def itseq(ex, st, v, skips=False):
    """remaining elements of an iterator value"""
    if isinstance(v, Ref):
        v = D(ex, st, v)
    if not skips and isinstance(v, Agg) and v.tag == "iter" and v.fs[0].keep:
        raise Unsupported("positions in a sequence of unknown order or length")
    if isinstance(v, Agg) and v.tag == "iter":
        s, p = v.fs
        if isinstance(p, Op):
            raise Unsupported("iterator inside its loop")
        if conc(p) == 0:
            return s
        return ex.slice(s, p, s.n)
    if isinstance(v, Agg) and v.tag == "core::ops::Range":
        a, b = v.fs
        ca, cb = conc(a), conc(b)
        if ca is not None and cb is not None:
            return Seq(items=[z3.IntVal(i) for i in range(ca, cb)])
        return Seq(n=natural(st, b - a), f=lambda j: norm(a + j))
    if isinstance(v, Agg) and v.tag == "core::ops::RangeInclusive":
        a, b = v.fs[0], v.fs[1]
        ca, cb = conc(a), conc(b)
        if ca is not None and cb is not None:
            return Seq(items=[z3.IntVal(i) for i in range(ca, cb + 1)])
        return Seq(n=natural(st, b - a + 1), f=lambda j: norm(a + j))
    if isinstance(v, Seq):
        return v
    raise Unsupported(f"iterator expected, got {v!r}"[:120])


@h("core::ops::RangeInclusive::<Idx>::new")
def rinc(ex, st, c):
    return Agg("core::ops::RangeInclusive", [c.vals[0], c.vals[1], FALSE])


def next_(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    v = ex.read(st, r.cell, r.proj)
    if isinstance(v, Agg) and v.tag in ("core::ops::Range", "core::ops::RangeInclusive"):
        v = mkiter(itseq(ex, st, v))
    s, p = v.fs
    if isinstance(p, Op):
        raise Unsupported("iterator inside its loop")
    cp = conc(p)
    cn = conc(norm(s.n))
    if cp is None or cn is None:
        raise Unsupported("next on symbolic iterator")
    if cp >= cn:
        return NONE
    e = s.at(z3.IntVal(cp))
    ex.write(st, r.cell, r.proj, Agg("iter", [s, z3.IntVal(cp + 1)]))
    return some(e)


for p in ("core::iter::Iterator::next", "<core::iter::Cloned<I> as core::iter::Iterator>::next", "<core::iter::Enumerate<I> as core::iter::Iterator>::next", "<core::iter::Zip<A, B> as core::iter::Iterator>::next",
          "<core::slice::Iter<'a, T> as core::iter::Iterator>::next", "core::iter::range::<impl core::iter::Iterator for core::ops::Range<A>>::next", "<alloc::collections::btree_map::Iter<'a, K, V> as core::iter::Iterator>::next",
          "<alloc::vec::IntoIter<T, A> as core::iter::Iterator>::next", "<core::iter::Rev<I> as core::iter::Iterator>::next", "<core::iter::Map<B, I, F> as core::iter::Iterator>::next", "<core::slice::IterMut<'a, T> as core::iter::Iterator>::next",
          "core::iter::range::<impl core::iter::Iterator for core::ops::RangeInclusive<A>>::next", "<core::iter::Map<I, F> as core::iter::Iterator>::next", "<core::iter::Take<I> as core::iter::Iterator>::next", "<core::iter::Skip<I> as core::iter::Iterator>::next",
          "<core::iter::Chain<A, B> as core::iter::Iterator>::next", "<core::iter::Copied<I> as core::iter::Iterator>::next", "<alloc::collections::btree_map::Values<'a, K, V> as core::iter::Iterator>::next", "<alloc::collections::btree_map::Keys<'a, K, V> as core::iter::Iterator>::next",
          "<alloc::collections::btree_set::Iter<'a, T> as core::iter::Iterator>::next", "<core::iter::StepBy<I> as core::iter::Iterator>::next", "<core::array::IntoIter<T, N> as core::iter::Iterator>::next"):
    HANDLERS[p] = next_


@h("core::iter::Iterator::zip")
def izip(ex, st, c):
    a = itseq(ex, st, c.vals[0])
    vb = c.vals[1]
    if isinstance(vb, Ref) or (isinstance(vb, Seq)):
        c2 = Call(c.path, c.cal, [vb], None, None, 0, None)
        vb = into_iter(ex, st, c2)
    b = itseq(ex, st, vb)
    ca, cb = conc(norm(a.n)), conc(norm(b.n))
    if ca is not None and cb is not None:
        n = min(ca, cb)
        return mkiter(Seq(items=[Agg("tuple", [a.at(i), b.at(i)]) for i in range(n)]))
    ps = both_panics(a, b)
    if eqpoly(a.n, b.n):
        return mkiter(Seq(n=a.n, f=lambda j: Agg("tuple", [a.at(j), b.at(j)]), panics=ps))
    n = z3.If(a.n <= b.n, a.n, b.n)
    # decide which one is shorter, if the path condition does
    out = []
    for s, v in ex.fork(st, a.n <= b.n):
        nn = a.n if v else b.n
        if conc(norm(nn)) is not None and (a.items is not None or b.items is not None):
            sq = Seq(items=[Agg("tuple", [a.at(z3.IntVal(i)), b.at(z3.IntVal(i))]) for i in range(conc(norm(nn)))])
        else:
            sq = Seq(n=nn, f=lambda j: Agg("tuple", [a.at(j), b.at(j)]))
        out.append((s, mkiter(sq)))
    return out


@h("core::iter::Iterator::enumerate")
def ienum(ex, st, c):
    a = itseq(ex, st, c.vals[0])
    if a.items is not None:
        return mkiter(Seq(items=[Agg("tuple", [z3.IntVal(i), x]) for i, x in enumerate(a.items)]))
    return mkiter(Seq(n=a.n, f=lambda j: Agg("tuple", [j, a.at(j)])))


@h("core::iter::Iterator::cloned", "core::iter::Iterator::copied")
def icloned(ex, st, c):
    a = itseq(ex, st, c.vals[0], True)
    snap = st.copy()
    f = lambda r: r if r is SKIP else ex.read(snap, r.cell, r.proj)
    if a.items is not None:
        return mkiter(Seq(items=[f(x) for x in a.items]))
    return mkiter(Seq(n=a.n, f=lambda j: f(a.at(j)), keep=a.keep))


@h("core::iter::Iterator::rev")
def irev(ex, st, c):
    a = itseq(ex, st, c.vals[0])
    if a.items is not None:
        return mkiter(Seq(items=a.items[::-1]))
    return mkiter(Seq(n=a.n, f=lambda j: a.at(norm(a.n - 1 - j))))


@h("core::iter::Iterator::take")
def itake(ex, st, c):
    a, n = itseq(ex, st, c.vals[0]), c.vals[1]
    if a.items is not None and conc(n) is not None:
        return mkiter(Seq(items=a.items[:conc(n)]))
    out = []
    for s, v in ex.fork(st, n <= a.n):
        m = norm(n) if v else a.n
        k = conc(m)
        if k is not None and k > 2 and a.items is None:
            m = z3.Int(f"take{next(ex.ids)}")     # not one case per element
            s.pc.append(m == k)
            k = None
        out.append((s, mkiter(Seq(n=m, f=lambda j: a.at(j)) if k is None else Seq(items=[a.at(z3.IntVal(i)) for i in range(k)]))))
    return out


@h("core::iter::Iterator::skip")
def iskip(ex, st, c):
    a, n = itseq(ex, st, c.vals[0]), c.vals[1]
    if a.items is not None and conc(n) is not None:
        return mkiter(Seq(items=a.items[conc(n):]))
    if a.items is not None or a.keep or a.panics is not None:
        raise Unsupported("skip on symbolic iterator")
    return [(s, mkiter(ex.slice(a, norm(n), a.n) if v else Seq(items=()))) for s, v in ex.fork(st, z3.simplify(n <= a.n))]


@h("core::iter::Iterator::chain")
def ichain(ex, st, c):
    vb = c.vals[1]
    if isinstance(vb, Ref) or isinstance(vb, Seq):
        vb = into_iter(ex, st, Call(c.path, c.cal, [vb], None, None, 0, None))
    return mkiter(seq_concat(itseq(ex, st, c.vals[0]), itseq(ex, st, vb)))


@h("core::iter::Iterator::map")
def imap(ex, st, c):
    a, f = itseq(ex, st, c.vals[0], True), c.vals[1]
    if a.items is not None:
        outs = [(st, [])]
        fcell = ex.ref(st, f, True)
        for x in a.items:
            new = []
            for s, acc in outs:
                if isinstance(acc, Panic):
                    new.append((s, acc))
                    continue
                for s2, v in call_ctor(ex, s, fcell if not isinstance(f, FnV) else f, [x]):
                    new.append((s2, v if isinstance(v, Panic) else acc + [v]))
            outs = new
            if len(outs) > 64:
                raise Unsupported("path explosion in map")
        return [(s, acc if isinstance(acc, Panic) else mkiter(Seq(items=acc))) for s, acc in outs]
    return mkiter(lazy_map(ex, st, a, f))


def map_step(ex, st, f, x):
    return [(st, SKIP)] if x is SKIP else call_ctor(ex, st, f, [x])


def lazy_map(ex, st, a, f, step=map_step):
    """sequence of f(a[j]); f is re-executed, in the state of this point, for every index asked for"""
    # a closure that reads from a hash stream: item j is read at the (unknown) position the stream has after j items
    streams = {}
    if isinstance(f, Agg):
        for x in f.fs:
            if isinstance(x, Ref):
                rr = ex.lastref(st, x)
                v = ex.read(st, rr.cell, rr.proj)
                if isinstance(v, Op) and v.tag == "xof" and not rr.proj:
                    streams[rr.cell] = (v, None)
    if streams and a.keep:
        raise Unsupported("order of reads from a hash stream")
    if len(streams) > 1:
        raise Unsupported("mapped closure reads several hash streams")
    for cell, (v, _) in streams.items():
        # the position after j items is named after what one step does to the stream: the same steps reach the same position
        s, j = st.copy(), z3.Int("j!probe")
        s.pc = s.pc + [j >= 0, z3.simplify(j < a.n)]
        s.rp = s.rp + ":probe"
        s.mem[cell] = Op("xof", v.args[0], z3.Int("pos!probe"))
        outs = [(s2, w) for s2, w in call_ctor(ex, s, f if isinstance(f, FnV) else ex.ref(s, f, True), [a.at(j)]) if not isinstance(w, Panic)]
        if len(outs) != 1:
            raise Unsupported("mapped closure branches")
        s2, w = outs[0]
        streams[cell] = (v, hashlib.sha256(f"{key(v)} {key(a.n)} {key(ex.deref(s2, w))} {key(s2.mem[cell])}".encode()).hexdigest()[:16])
    snap = st.copy()
    tag = f"{st.rp}{st.nr}:"
    st.nr += 1
    memo, bad = {}, {}
    before = dict(snap.mem)
    for cell, (v, h) in streams.items():
        st.mem[cell] = Op("xof", v.args[0], z3.Int(f"pos:{h}"))

    def run(s, j, fc):
        r = []
        for s1, x in elem_outs(ex, s, a, j):
            r += [(s1, x)] if isinstance(x, Panic) else step(ex, s1, fc, x)
        return r

    def at(j):
        j = norm(iv(j))
        k = key(j)
        # what is known of the bound indices of sums
        known = [f for f in core.CUR[0].pc if any(x.startswith("k!") for x in core.consts_of(f))] if BOUND[0] and core.CUR[0] is not None and "k!" in k else []
        if known:
            k += "".join(core.skey(f) for f in known)
        if k in memo:
            return pick(memo[k])
        s = snap.copy()
        s.rp, s.nr = f"{tag}[{key(j)}]", 0
        for cell, (v, h) in streams.items():
            s.mem[cell] = Op("xof", v.args[0], z3.Function(f"pos:{h}", z3.IntSort(), z3.IntSort())(j))
        s.pc = s.pc + [z3.simplify(j >= 0), z3.simplify(j < a.n)]
        fc = f if isinstance(f, FnV) else ex.ref(s, f, True)
        s.pc = s.pc + known
        base = len(s.pc)
        old = core.CUR[0]
        ex.in_map += 1
        try:
            alls = run(s, j, fc)
        finally:
            core.CUR[0] = old
            ex.in_map -= 1
        outs = [(s2, v) for s2, v in alls if not isinstance(v, Panic)]
        bad[key(j)] = [(s2.pc[base - 2 - len(known):], v) for s2, v in alls if isinstance(v, Panic)]
        if not outs:
            raise Unsupported("mapped closure always panics")
        for s2, v in outs:
            for cell in before:
                if cell in streams:
                    now = s2.mem[cell]
                    if not (isinstance(now, Op) and now.tag == "xof" and key(now.args[0]) == key(before[cell].args[0])):
                        raise Unsupported("mapped closure replaces its hash stream")
                    continue
                if s2.mem[cell] is not before[cell] and key(s2.mem[cell]) != key(before[cell]):
                    raise Unsupported("mapped closure mutates its environment")
            for cell, val in s2.mem.items():
                if cell not in before:
                    ex.gmem[cell] = val
        # on every normal exit of the closure: (what was learned, value)
        memo[k] = [(s2.pc[base:], v) for s2, v in outs]
        return pick(memo[k])

    def panics(j):
        j = norm(iv(j))
        if key(j) not in bad:
            try:
                at(j)
            except NeedSplit:
                pass
        return bad[key(j)]
    return Seq(n=a.n, f=at, panics=panics, keep=a.keep)


@h("core::iter::Iterator::collect", "core::iter::FromIterator::from_iter")
def icollect(ex, st, c):
    s = itseq(ex, st, c.vals[0], True)
    dest = c.args[1] if len(c.args) > 1 else c.destty
    if s.items is None and ts(dest).startswith(RESULT + "<"):
        return collect_results(ex, st, s, [x for x in dest[2] if x != ("lt",)][0])
    return [(st, collect_into(ex, st, s, dest))] + run_panics(ex, st, s)


def collect_results(ex, st, s, inner):
    """all elements are Ok, or the first error"""
    if s.keep:
        raise Unsupported("collect of filtered results")
    snap, memo = st.copy(), {}

    def alts(j):
        j = norm(iv(j))
        k = key(j)
        if k not in memo:
            s1 = snap.copy()
            base = len(s1.pc) + 2
            s1.pc += [z3.simplify(j >= 0), z3.simplify(j < s.n)]
            old = core.CUR[0]
            try:
                memo[k] = [(s2, s2.pc[base:], ex.deref(s2, v) if not isinstance(v, Panic) else v) for s2, v in elem_outs(ex, s1, s, j)]
            finally:
                core.CUR[0] = old
        return memo[k]
    j = z3.Int(f"i!{next(ex.ids)}")
    r = []
    for s2, p, v in alts(j):
        if isinstance(v, Panic):
            r.append((s2, v))
        elif v.var == 1:
            r.append((s2, err(v.fs[0])))
    if any(not isinstance(v, Panic) and v.var == 0 for _, _, v in alts(j)):
        oks = lambda j: [(p, v.fs[0]) for _, p, v in alts(j) if not isinstance(v, Panic) and v.var == 0]
        s3 = snap.copy()
        s3.nr += 1
        s3.foralls.append(Forall(s.n, lambda j: [(p, []) for p, _ in oks(j)], "collect"))
        r.append((s3, ok(collect_into(ex, s3, Seq(n=s.n, f=lambda j: pick(oks(j))), inner))))
    return r


def component(ex, st, s, i):
    """one component of the tuples of a sequence: it may be the same in cases that differ in another component"""
    def at(j):
        try:
            v = s.at(j)
            return SKIP if v is SKIP else v.fs[i]
        except NeedSplit:
            old = core.CUR[0]
            try:
                vs = [SKIP if v is SKIP else v.fs[i] for _, v in elem_outs(ex, old if old is not None else st, s, j) if not isinstance(v, Panic)]
            finally:
                core.CUR[0] = old
            if not vs or len({key(v) for v in vs}) > 1:
                raise
            return vs[0]
    return at


def collect_into(ex, st, s, dest):
    t = ts(dest)
    if t.startswith(("alloc::vec::Vec", "alloc::boxed::Box<[")):
        if s.keep:
            raise Unsupported("collection of a sequence of unknown order or length")
        return s
    if t.startswith(RESULT + "<"):
        inner = [x for x in dest[2] if x != ("lt",)][0]
        if s.items is not None:
            vs = []
            for x in s.items:
                if x.var == 1:
                    return err(x.fs[0])
                vs.append(x.fs[0])
            return ok(collect_into(ex, st, Seq(items=vs), inner))
        raise Unsupported("collect of results")
    if "BTreeMap" in t or "SerializableMap" in t:
        if s.items is not None:
            return mkmap([(x.fs[0], x.fs[1]) for x in s.items])
        return symbolic_map(ex, st, Seq(n=s.n, f=component(ex, st, s, 0), keep=s.keep), Seq(n=s.n, f=component(ex, st, s, 1)))
    if "BTreeSet" in t:
        if s.items is not None:
            return Agg("set", [Seq(items=s.items)])
        return symbolic_map(ex, st, s)
    raise Unsupported(f"collect into {t}")


def mkmap(pairs):
    d = {}
    for k, v in pairs:
        d[key(k)] = (k, v)
    ks = sorted(d)
    return Agg("map", [Seq(items=[d[k][0] for k in ks]), Seq(items=[d[k][1] for k in ks])])


def fold_concrete(ex, st, s, init, f):
    outs = [(st, init)]
    if s.items is None:
        return folds.fold_symbolic(ex, st, s, init, f)
    for x in s.items:
        new = []
        for s1, acc in outs:
            if isinstance(acc, Panic):
                new.append((s1, acc))
                continue
            new += f(s1, acc, x)
        outs = new
    return outs


@h("core::iter::Iterator::fold", "<core::iter::Rev<I> as core::iter::Iterator>::fold", "<core::iter::Map<I, F> as core::iter::Iterator>::fold")
def ifold(ex, st, c):
    s = itseq(ex, st, c.vals[0], True)
    fr = c.vals[2] if isinstance(c.vals[2], FnV) else ex.ref(st, c.vals[2], True)
    return fold_concrete(ex, st, s, c.vals[1], lambda s1, acc, x: ex.call_fnv(s1, fr, [acc, x]))


@h("core::iter::Iterator::reduce")
def ireduce(ex, st, c):
    s = itseq(ex, st, c.vals[0], True)
    if s.items is not None and not s.items:
        return NONE
    fr = c.vals[1] if isinstance(c.vals[1], FnV) else ex.ref(st, c.vals[1], True)
    if s.items is None:
        return folds.reduce_symbolic(ex, st, s, lambda s1, acc, x: ex.call_fnv(s1, fr, [acc, x]))
    r = fold_concrete(ex, st, Seq(items=s.items[1:]), s.items[0], lambda s1, acc, x: ex.call_fnv(s1, fr, [acc, x]))
    return [(s1, v if isinstance(v, Panic) else some(v)) for s1, v in r]


@h("core::iter::Iterator::sum", "core::iter::Iterator::product")
def isum(ex, st, c):
    """sum of the elements: dispatches to the local `Sum` impl of the result type"""
    tr = "core::iter::Sum" if c.path.endswith("sum") else "core::iter::Product"
    m = "sum" if c.path.endswith("sum") else "product"
    res = c.args[1]
    s = itseq(ex, st, c.vals[0], True)
    if s.items:
        el = s.items[0]
    f = None
    if s.items is None:
        try:
            with folds.at_index(s.n) as k:
                s1 = st.copy()
                s1.pc = list(core.CUR[0].pc)
                byref = isinstance([x for _, x in elem_outs(ex, s1, s, k) if not isinstance(x, Panic)][0], Ref)
        except NeedSplit as e:
            if e.cut is None:
                raise
            s1 = st.copy()
            byref = isinstance([x for _, x in elem_outs(ex, s1, s, z3.IntVal(0)) if not isinstance(x, Panic)][0], Ref)
    else:
        byref = bool(s.items) and isinstance(s.items[0], Ref)
    for im in ex.mir.by_trait.get(tr, ()):
        from mir import unify
        env = {}
        pa = [x for x in im["args"] if x != ("lt",)]
        if unify(pa[0], res, env, im["vars"]):
            isref = len(pa) > 1 and isinstance(pa[1], tuple) and pa[1][0] == "ref"
            if isref == byref:
                f = (im, env)
    if f is None:
        if isinstance(res, str):
            tot = z3.IntVal(0) if m == "sum" else z3.IntVal(1)
            for x in s.items or ():
                x = D(ex, st, x)
                tot = tot + x if m == "sum" else tot * x
            return norm(tot)
        raise Unsupported(f"{m} into {ts(res)}")
    p = f[0]["items"][m]
    ex.inlined.add(p)
    return ex.exec_body(st, "fn", p, ex.mir.body("fn", p), f[1], [c.vals[0]])


def pred_iter(kind):
    def f(ex, st, c):
        v = c.vals[0]
        s = itseq(ex, st, v, True)
        if s.keep is True:
            raise Unsupported("predicate over a filtered sequence")
        f = c.vals[1]
        if s.items is None:
            return pred_symbolic(ex, st, s, f, kind)
        fr = f if isinstance(f, FnV) else ex.ref(st, f, True)
        work, done = [(st, 0)], []
        while work:
            s1, i = work.pop()
            if i == len(s.items):
                done.append((s1, z3.BoolVal(kind == "all")))
                continue
            for s2, b in ex.call_fnv(s1, fr, [s.items[i]]):
                if isinstance(b, Panic):
                    done.append((s2, b))
                    continue
                for s3, val in ex.fork(s2, b):
                    if val == (kind == "any"):
                        done.append((s3, z3.BoolVal(kind == "any")))
                    else:
                        work.append((s3, i + 1))
        return done
    return f


def pred_symbolic(ex, st, s, f, kind):
    """all/any over a symbolic sequence, as an early-return loop"""
    lid = next(ex.ids)
    n = s.n
    want = kind == "all"

    def at_outs(s0, j):
        s1 = s0.copy()
        base, fb = len(s1.pc) + 2, len(s1.foralls)
        s1.pc += [z3.simplify(j >= 0), z3.simplify(j < n)]
        s1.rp, s1.nr = f"{s0.rp}{s0.nr}:[{key(j)}]", 0
        fr = f if isinstance(f, FnV) else ex.ref(s1, f, True)
        cont, stop = [], []
        for s0_, x in elem_outs(ex, s1, s, j):
            for s2, b in ([(s0_, x)] if isinstance(x, Panic) else ex.call_fnv(s0_, fr, [x])):
                if isinstance(b, Panic):
                    stop.append((s2, b))
                    continue
                for s3, val in ex.fork(s2, b):
                    (cont if val == want else stop).append((s3, z3.BoolVal(not want)))
        return cont, stop, base, fb
    snap = st.copy()
    j = z3.Int(f"i!{lid}")
    cont, stop, base, fb = at_outs(snap, j)
    memo = {}

    def at(jj):
        k = key(jj)
        if k not in memo:
            c2, _, b, fb2 = at_outs(snap, jj)
            memo[k] = [(x.pc[b:], x.foralls[fb2:]) for x, _ in c2]
        return memo[k]
    s2 = snap.copy()
    s2.nr += 1
    s2.foralls.append(Forall(n, at, kind))
    return stop + [(s2, z3.BoolVal(want))]


HANDLERS["core::iter::Iterator::all"] = pred_iter("all")
HANDLERS["core::iter::Iterator::any"] = pred_iter("any")
HANDLERS["<core::slice::Iter<'a, T> as core::iter::Iterator>::all"] = pred_iter("all")
HANDLERS["<core::slice::Iter<'a, T> as core::iter::Iterator>::any"] = pred_iter("any")


@h("core::iter::Iterator::filter")
def ifilter(ex, st, c):
    s = itseq(ex, st, c.vals[0], True)
    if s.items is None:
        def keep(ex, s1, f, x):
            if x is SKIP:
                return [(s1, SKIP)]
            r = []
            for s2, b in call_ctor(ex, s1, f, [ex.ref(s1, x)]):
                r += [(s2, b)] if isinstance(b, Panic) else [(s3, x if v else SKIP) for s3, v in ex.fork(s2, b)]
            return r
        r = lazy_map(ex, st, s, c.vals[1], keep)
        r.keep = True
        return mkiter(r)
    fr = c.vals[1] if isinstance(c.vals[1], FnV) else ex.ref(st, c.vals[1], True)

    def g(s1, acc, x):
        out = []
        for s2, b in ex.call_fnv(s1, fr, [ex.ref(s1, x)]):
            if isinstance(b, Panic):
                out.append((s2, b))
                continue
            for s3, val in ex.fork(s2, b):
                out.append((s3, acc + [x] if val else acc))
        return out
    return [(s1, v if isinstance(v, Panic) else mkiter(Seq(items=v))) for s1, v in fold_concrete(ex, st, s, [], g)]


def both_panics(a, b):
    if a.panics is None or b.panics is None:
        return a.panics or b.panics
    return lambda j: a.panics(j) + b.panics(j)


def run_panics(ex, st, s):
    """the elements of s are computed: outcomes in which one of them panics"""
    r = []
    if s.panics is not None:
        for pc, p in s.panics(z3.Int(f"i!{next(ex.ids)}")):
            if feasible(st.pc + pc):
                q = st.copy()
                q.pc += pc
                r.append((q, p))
    return r


@h("core::iter::Iterator::unzip")
def iunzip(ex, st, c):
    s = itseq(ex, st, c.vals[0])
    dest = c.destty
    if s.items is not None:
        A, B = Seq(items=[x.fs[0] for x in s.items]), Seq(items=[x.fs[1] for x in s.items])
    else:
        A, B = Seq(n=s.n, f=lambda j: s.at(j).fs[0]), Seq(n=s.n, f=lambda j: s.at(j).fs[1])
    t = [x for x in dest[1]]
    return [(st, Agg("tuple", [collect_into(ex, st, A, t[0]), collect_into(ex, st, B, t[1])]))] + run_panics(ex, st, s)


@h("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity")
def vnew(ex, st, c):
    return Seq(items=())


@h("alloc::boxed::Box::<T>::new_uninit")
def boxuninit(ex, st, c):
    # the block behind `vec![..]`: MaybeUninit { uninit, value: ManuallyDrop { value } }
    return Agg("MaybeUninit", [UNIT, Agg("ManuallyDrop", [UNIT])])


@h("alloc::boxed::box_assume_init_into_vec_unsafe")
def boxintovec(ex, st, c):
    return c.vals[0].fs[1].fs[0]


@h("alloc::vec::Vec::<T, A>::push")
def vpush(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    s = ex.read(st, r.cell, r.proj)
    if isinstance(s, Acc):
        ex.write(st, r.cell, r.proj, Acc(s.new + (c.vals[1],)))
        return UNIT
    ex.write(st, r.cell, r.proj, seq_concat(s, Seq(items=(c.vals[1],))))
    return UNIT


@h("alloc::vec::from_elem")
def vfrom(ex, st, c):
    v, n = c.vals
    if conc(n) is not None and conc(n) <= 512:
        return Seq(items=[v] * conc(n))
    return Seq(n=n, f=lambda j: v, key=f"[{key(v)};{key(n)}]")


@h("core::slice::<impl [T]>::first")
def sfirst(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    s = ex.read(st, r.cell, r.proj)
    return branches(ex, st, s.n > 0, lambda s1: some(Ref(r.cell, r.proj + (("i", z3.IntVal(0)),))), lambda s1: NONE)


HANDLERS["core::slice::<impl [T]>::first_mut"] = sfirst


@h("core::slice::<impl [T]>::last")
def slast(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    s = ex.read(st, r.cell, r.proj)
    return branches(ex, st, s.n > 0, lambda s1: some(Ref(r.cell, r.proj + (("i", norm(s.n - 1)),))), lambda s1: NONE)


@h("core::slice::<impl [T]>::split_last")
def ssplitlast(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    s = ex.read(st, r.cell, r.proj)
    return branches(ex, st, s.n > 0, lambda s1: some(Agg("tuple", [Ref(r.cell, r.proj + (("i", norm(s.n - 1)),)), Ref(r.cell, r.proj + (("s", z3.IntVal(0), norm(s.n - 1)),))])), lambda s1: NONE)


@h("core::slice::<impl [T]>::split_first")
def ssplitfirst(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    s = ex.read(st, r.cell, r.proj)
    return branches(ex, st, s.n > 0, lambda s1: some(Agg("tuple", [Ref(r.cell, r.proj + (("i", z3.IntVal(0)),)), Ref(r.cell, r.proj + (("s", z3.IntVal(1), norm(s.n)),))])), lambda s1: NONE)


def rng_bounds(idx, n):
    if isinstance(idx, Agg):
        t = idx.tag
        if t == "core::ops::Range":
            return idx.fs[0], idx.fs[1]
        if t == "core::ops::RangeFrom":
            return idx.fs[0], n
        if t == "core::ops::RangeTo":
            return z3.IntVal(0), idx.fs[0]
        if t == "core::ops::RangeFull":
            return z3.IntVal(0), n
        if t == "core::ops::RangeInclusive":
            return idx.fs[0], norm(idx.fs[1] + 1)
    return None


def index_get(panic):
    def f(ex, st, c):
        r = ex.lastref(st, c.vals[0])
        s = ex.read(st, r.cell, r.proj)
        idx = c.vals[1]
        if not isinstance(s, Seq):
            raise Unsupported(f"index into {s!r}"[:120])
        rb = rng_bounds(idx, s.n)
        wrapok = (lambda x: x) if panic else some
        bad = Panic("index") if panic else NONE
        if rb:
            a, b = rb
            return branches(ex, st, z3.And(a <= b, b <= s.n), lambda s1: wrapok(Ref(r.cell, r.proj + (("s", norm(a), norm(b)),))), lambda s1: bad)
        if isint(idx):
            return branches(ex, st, idx < s.n, lambda s1: wrapok(Ref(r.cell, r.proj + (("i", norm(idx)),))), lambda s1: bad)
        raise Unsupported(f"index {idx!r}")
    return f


for p in ("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut"):
    HANDLERS[p] = index_get(False)
for p in ("core::ops::Index::index", "core::ops::IndexMut::index_mut", "<alloc::vec::Vec<T, A> as core::ops::IndexMut<I>>::index_mut", "<alloc::vec::Vec<T, A> as core::ops::Index<I>>::index", "core::array::<impl core::ops::Index<I> for [T; N]>::index",
          "core::array::<impl core::ops::IndexMut<I> for [T; N]>::index_mut", "core::slice::index::<impl core::ops::Index<I> for [T]>::index", "core::slice::index::<impl core::ops::IndexMut<I> for [T]>::index_mut"):
    HANDLERS[p] = index_get(True)


@h("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def copyfrom(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    d, s = ex.read(st, r.cell, r.proj), seqv(ex, st, c.vals[1])

    def doit(s1):
        ex.write(s1, r.cell, r.proj, s)
        return UNIT
    return branches(ex, st, z3.simplify(d.n == s.n) if not eqpoly(d.n, s.n) else TRUE, doit, lambda s1: Panic("length"))


# ---------------------------------------------------------------- maps and sets
# Agg("map", [keys, values]) / Agg("set", [keys]): sequences in the order of the keys; keys are distinct
def mapv(ex, st, v):
    v = D(ex, st, v)
    if isinstance(v, Agg) and v.tag in ("map", "set"):
        return v
    raise Unsupported(f"map expected, got {v!r}"[:120])


BT = "alloc::collections::BTreeMap::<K, V, A>::"
BS = "alloc::collections::BTreeSet::<T, A>::"
MEMBER = {}      # name of a membership atom -> (keys, value)


@h(BT + "len", BS + "len")
def mlen(ex, st, c):
    return map_len(ex, st, mapv(ex, st, c.vals[0]).fs[0])


COUNTS = {}     # name of a count -> filtered sequence


def map_len(ex, st, ks):
    if ks.keep is not True:
        return norm(ks.n)
    # the number of elements that a filter kept
    name = f"COUNT[{key(ks)}]"
    COUNTS[name] = ks
    x = z3.Int(name)
    if name not in FACT:
        fact(name, x >= 0, x <= ks.n)
    return x


@h(BT + "is_empty", BS + "is_empty")
def mempty(ex, st, c):
    return z3.simplify(map_len(ex, st, mapv(ex, st, c.vals[0]).fs[0]) == 0)


def inner_ints(v):
    """integer expressions of a value"""
    if isinstance(v, Agg):
        return [e for x in v.fs for e in inner_ints(x)]
    if isinstance(v, Res):
        return [as_int(v)] if v.m.kind == "int" else []
    return [v] if isint(v) else []


def locate(ex, st, ks, kv):
    """(index of the key kv, condition under which it is there)"""
    if ks.keep is True:
        raise Unsupported("look-up in a filtered collection")
    cands = []
    for e in inner_ints(kv):
        for t in core.terms_of([e]):
            if t.num_args() == 1 and t.decl().name() in core.INJ:
                cands.append(t.arg(0))
    want = key(kv)
    try:
        firsts = inner_ints(D(ex, st, ks.at(z3.IntVal(0))))
        cands += [norm(e - f) for e in inner_ints(kv) for f in firsts if conc(f) is not None]
    except (NeedSplit, Unsupported):
        pass
    for i in cands:
        try:
            if key(D(ex, st, ks.at(i))) == want and check(st.pc, z3.And(i >= 0, i < ks.n), 2000) == "proved":
                return i, TRUE
        except NeedSplit:
            pass
    nm = f"{want} in {key(ks)}"
    c = z3.Bool("{" + nm + "}")
    MEMBER["{" + nm + "}"] = (ks, kv)
    x = z3.Int("idx{" + nm + "}")
    if str(x.decl().name()) not in FACT:
        fact(x.decl().name(), z3.Implies(c, z3.And(x >= 0, x < ks.n)))
    return x, c


def find_key(ex, st, m, kv):
    """[(state, index | None)]"""
    ks = m.fs[0]
    if ks.items is not None:
        k = key(kv)
        for i, x in enumerate(ks.items):
            if key(x) == k:
                return [(st, z3.IntVal(i))]
        return [(st, None)]
    i, c = locate(ex, st, ks, kv)
    r = []
    for s, v in ex.fork(st, c):
        if v and not z3.is_true(c):
            s.pc += [i >= 0, i < ks.n]
        r.append((s, i if v else None))
    return r


@h(BT + "get")
def mget(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    m = mapv(ex, st, c.vals[0])
    return [(s, NONE if i is None else some(Ref(r.cell, r.proj + (("f", 1), ("i", i))))) for s, i in find_key(ex, st, m, D(ex, st, c.vals[1]))]


@h(BT + "contains_key", BS + "contains")
def mcontains(ex, st, c):
    m = mapv(ex, st, c.vals[0])
    kv = D(ex, st, c.vals[1])
    if m.fs[0].items is not None:
        return z3.BoolVal(any(key(x) == key(kv) for x in m.fs[0].items))
    return locate(ex, st, m.fs[0], kv)[1]


@h("<alloc::collections::BTreeMap<K, V, A> as core::ops::Index<&Q>>::index")
def mindex(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    m = mapv(ex, st, c.vals[0])
    return [(s, Panic("no entry found for key") if i is None else Ref(r.cell, r.proj + (("f", 1), ("i", i)))) for s, i in find_key(ex, st, m, D(ex, st, c.vals[1]))]


def mseq(m, f):
    ks = m.fs[0]
    if ks.items is not None:
        return Seq(items=[f(z3.IntVal(k)) for k in range(len(ks.items))])
    return Seq(n=ks.n, f=(lambda j: SKIP if ks.at(j) is SKIP else f(j)) if ks.keep is True else f, keep=ks.keep)


def maprefs(i):
    def f(ex, st, c):
        r = ex.lastref(st, c.vals[0])
        m = ex.read(st, r.cell, r.proj)
        return mkiter(mseq(m, lambda j: Ref(r.cell, r.proj + (("f", i), ("i", j)))))
    return f


HANDLERS[BT + "keys"] = maprefs(0)
HANDLERS[BT + "values"] = maprefs(1)
HANDLERS[BS + "iter"] = maprefs(0)
HANDLERS["<&'a alloc::collections::BTreeSet<T, A> as core::iter::IntoIterator>::into_iter"] = maprefs(0)


@h(BT + "iter", "<&'a alloc::collections::BTreeMap<K, V, A> as core::iter::IntoIterator>::into_iter")
def miter(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    m = ex.read(st, r.cell, r.proj)
    return mkiter(mseq(m, lambda j: Agg("tuple", [Ref(r.cell, r.proj + (("f", 0), ("i", j))), Ref(r.cell, r.proj + (("f", 1), ("i", j)))])))


@h("<alloc::collections::BTreeMap<K, V, A> as core::iter::IntoIterator>::into_iter")
def minto(ex, st, c):
    m = D(ex, st, c.vals[0])
    return mkiter(mseq(m, lambda j: Agg("tuple", [m.fs[0].at(j), m.fs[1].at(j)])))


@h(BT + "into_values", BT + "into_keys", "<alloc::collections::BTreeSet<T, A> as core::iter::IntoIterator>::into_iter")
def mintov(ex, st, c):
    m = D(ex, st, c.vals[0])
    i = 1 if c.path.endswith("values") else 0
    return mkiter(mseq(m, lambda j: m.fs[i].at(j)))


def distinct(ex, st, ks):
    """the elements of ks at different positions differ"""
    a, b = z3.Int(f"i!{next(ex.ids)}"), z3.Int(f"i!{next(ex.ids)}")
    s = st.copy()
    s.pc += [a >= 0, a < ks.n, b >= 0, b < ks.n, z3.Not(a == b)]
    old = core.CUR[0]
    try:
        for s1, va in elem_outs(ex, s, ks, a):
            for s2, vb in elem_outs(ex, s1, ks, b):
                if isinstance(va, Panic) or isinstance(vb, Panic) or va is SKIP or vb is SKIP:
                    continue
                core.CUR[0] = s2
                g = z3.simplify(z3.Not(veq(D(ex, s2, va), D(ex, s2, vb))))
                if not z3.is_true(g) and check(s2.pc, g, 3000) != "proved":
                    return False
        return True
    finally:
        core.CUR[0] = old


def increasing(ex, st, ks):
    """the elements of ks are the elements of an ordered collection, in its order"""
    a = z3.Int(f"i!{next(ex.ids)}")
    s = st.copy()
    s.pc += [a >= 0, a < ks.n]
    old = core.CUR[0]
    try:
        for s1, va in elem_outs(ex, s, ks, a):
            core.CUR[0] = s1
            es = inner_ints(D(ex, s1, va)) if not isinstance(va, Panic) else []
            if ks.keep or len(es) != 1 or es[0].num_args() != 1 or es[0].decl().name() not in SORTED or not eqpoly(es[0].arg(0), a):
                return False
        return True
    finally:
        core.CUR[0] = old


SORTED = set()       # names of functions that list the elements of an ordered collection in order


def symbolic_map(ex, st, ks, vs=None):
    if not distinct(ex, st, ks):
        raise Unsupported("keys are not known to be distinct")
    if ks.keep is not True and not increasing(ex, st, ks):
        # in which order the keys are iterated is not known: only operations that do not depend on it are possible
        ks = Seq(n=ks.n, f=ks.f, keep="perm")
    return Agg("map", [ks, vs]) if vs is not None else Agg("set", [ks])


_e.MAP_HOOK[0] = symbolic_map


@h("alloc::collections::BTreeMap::<K, V>::new")
def mnew(ex, st, c):
    return Agg("map", [Seq(items=()), Seq(items=())])


@h("alloc::collections::BTreeSet::<T>::new")
def setnew(ex, st, c):
    return Agg("set", [Seq(items=())])


@h(BT + "insert", BS + "insert")
def minsert(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    m = ex.read(st, r.cell, r.proj)
    new = c.vals[1:]
    if isinstance(m, Agg) and all(isinstance(x, Acc) for x in m.fs):
        ex.write(st, r.cell, r.proj, Agg(m.tag, [Acc(x.new + (v,)) for x, v in zip(m.fs, new)]))
    elif isinstance(m, Agg) and m.fs[0].items is not None and not m.fs[0].items:
        ex.write(st, r.cell, r.proj, Agg(m.tag, [Seq(items=(v,)) for v in new]))
    else:
        raise Unsupported("insertion into a map")
    return Op("previous entry")


@h(BT + "retain", BS + "retain")
def mretain(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    m = ex.read(st, r.cell, r.proj)
    if m.fs[0].items is not None or m.fs[0].keep:
        raise Unsupported("retain")

    def keep(ex, s1, f, x):
        out = []
        for s2, b in ex.call_fnv(s1, f, [ex.ref(s1, v, i > 0) for i, v in enumerate(x.fs)]):
            out += [(s2, b)] if isinstance(b, Panic) else [(s3, x if v else SKIP) for s3, v in ex.fork(s2, b)]
        return out
    s = lazy_map(ex, st, Seq(n=m.fs[0].n, f=lambda j: Agg("tuple", [x.at(j) for x in m.fs]), key=f"entries({key(m)})"), c.vals[1], keep)
    s.keep = True
    ex.write(st, r.cell, r.proj, Agg(m.tag, [Seq(n=s.n, f=component(ex, st, s, i), keep=True) if i == 0 else Seq(n=s.n, f=component(ex, st, s, i)) for i in range(len(m.fs))]))
    return UNIT


@h("core::iter::Iterator::try_fold")
def itryfold(ex, st, c):
    s = itseq(ex, st, c.vals[0], True)
    dest = ts(c.destty)
    if s.items is not None or not dest.startswith(RESULT + "<"):
        raise Unsupported("try_fold")
    fr = c.vals[2] if isinstance(c.vals[2], FnV) else ex.ref(st, c.vals[2], True)
    outs = folds.fold_symbolic(ex, st, s, c.vals[1], lambda s1, acc, x: ex.call_fnv(s1, fr, [acc, x]), lambda v: (v.var == 0, v.fs[0] if v.var == 0 else v))
    return [(s1, v if isinstance(v, Panic) or s1 is not st else ok(v)) for s1, v in outs]


@h("manul::utils::<impl core::convert::From<manul::utils::SerializableMap<K, V>> for alloc::collections::BTreeMap<K, V>>::from")
def smfrom(ex, st, c):
    return c.vals[0]


def install(ex):
    ex.handlers.update(HANDLERS)
    ex.gmem = {}
