"""Values, terms and the prover of the verification-condition generator.

Big integers are mathematical integers (z3 Int); a `W(e, B)` is the B-bit word that is congruent to e modulo 2^B.
Residues (Montgomery forms, scalars, points) are `Res`: either a polynomial modulo M or a word
{base: exponent} in the multiplicative (or, for curve points, additive) group."""
import re, z3, hashlib, time

I = z3.IntSort()
P2 = z3.Function("P2", I, I)          # 2^x
MOD = z3.Function("MOD", I, I, I)     # Euclidean remainder
DIV = z3.Function("DIV", I, I, I)     # floor division
AND = z3.Function("AND", I, I, I)     # bitwise and
BITS = z3.Function("BITS", I, I)      # bit length
GCD = z3.Function("GCD", I, I, I)
PRIME = z3.Function("PRIME", I, z3.BoolSort())
INV = z3.Function("INV", I, I, I)     # inverse of x modulo m
CENT = z3.Function("CENT", I, I)      # representative of x mod q in (-q/2, q/2]
Q = z3.Int("q")                       # curve order
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class Unsupported(Exception):
    pass


class Panic:
    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return f"Panic({self.why})"


def iv(n):
    return z3.IntVal(n) if isinstance(n, int) else n


def isint(v):
    return isinstance(v, z3.ArithRef)


def isbool(v):
    return isinstance(v, z3.BoolRef)


def simp(e):
    return z3.simplify(e)


def conc(e):
    """Python int of a concrete term, else None"""
    if isinstance(e, int):
        return e
    if isinstance(e, z3.IntNumRef):
        return e.as_long()
    if isint(e):
        s = z3.simplify(e)
        if isinstance(s, z3.IntNumRef):
            return s.as_long()
    return None


def concb(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return None


# ------------------------------------------------------------------ polynomials
class Poly:
    """canonical integer polynomial: {((atomkey, power), ...): coefficient}"""
    ATOMS = {}
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d or {}

    def __add__(a, b):
        d = dict(a.d)
        for k, c in b.d.items():
            c2 = d.get(k, 0) + c
            if c2:
                d[k] = c2
            else:
                d.pop(k, None)
        return Poly(d)

    def scale(a, c):
        return Poly({k: v * c for k, v in a.d.items()}) if c else Poly()

    def __sub__(a, b):
        return a + b.scale(-1)

    def __mul__(a, b):
        r = {}
        for k1, c1 in a.d.items():
            for k2, c2 in b.d.items():
                m = dict(k1)
                for x, p in k2:
                    m[x] = m.get(x, 0) + p
                k = tuple(sorted(m.items()))
                c = r.get(k, 0) + c1 * c2
                if c:
                    r[k] = c
                else:
                    r.pop(k, None)
        return Poly(r)

    def zero(self):
        return not self.d

    def key(self):
        return " + ".join(f"{c}*" + "*".join(f"{a}^{p}" if p != 1 else a for a, p in k) for k, c in sorted(self.d.items())) or "0"

    def expr(self):
        s = []
        for k, c in sorted(self.d.items()):
            fs = [z3.IntVal(c)] if (c != 1 or not k) else []
            for a, p in k:
                fs += [Poly.ATOMS[a]] * p
            s.append(fs[0] if len(fs) == 1 else z3.Product(fs))
        return z3.IntVal(0) if not s else (s[0] if len(s) == 1 else z3.Sum(s))


_pc = {}


def poly(e):
    if isinstance(e, int):
        return Poly({(): e}) if e else Poly()
    k = e.get_id()
    if k in _pc:
        return _pc[k][1]
    r = _poly(e)
    _pc[k] = (e, r)
    return r


def _poly(e):
    if isinstance(e, z3.IntNumRef):
        n = e.as_long()
        return Poly({(): n}) if n else Poly()
    d = e.decl().kind()
    if d == z3.Z3_OP_ADD:
        r = Poly()
        for c in e.children():
            r = r + poly(c)
        return r
    if d == z3.Z3_OP_SUB:
        cs = e.children()
        r = poly(cs[0])
        for c in cs[1:]:
            r = r - poly(c)
        return r
    if d == z3.Z3_OP_UMINUS:
        return poly(e.children()[0]).scale(-1)
    if d == z3.Z3_OP_MUL:
        r = Poly({(): 1})
        for c in e.children():
            r = r * poly(c)
        return r
    # atom
    if e.num_args() == 0:
        key = e.decl().name()
        a = e
    else:
        args = []
        for c in e.children():
            args.append(norm(c))
        a = e.decl()(*args) if d != z3.Z3_OP_ITE else z3.If(*args)
        key = skey(a)
    if d == z3.Z3_OP_UNINTERPRETED and e.num_args() == 1 and e.decl().name() == "P2":
        # P2(x + c) = 2^c P2(x)
        p = poly(e.children()[0])
        c = p.d.get((), 0)
        if c > 0 or (not (p - Poly({(): c} if c else {})).d):
            if c >= 0 and c <= 4096:
                rest = p - (Poly({(): c}) if c else Poly())
                if rest.zero():
                    return Poly({(): 2 ** c})
                if all(x < 0 for x in rest.d.values()):
                    # x + c with x < 0: 2^x is no integer
                    Poly.ATOMS[key] = a
                    return Poly({((key, 1),): 1})
                a = P2(rest.expr())
                key = skey(a)
                Poly.ATOMS[key] = a
                return Poly({((key, 1),): 2 ** c})
    Poly.ATOMS[key] = a
    return Poly({((key, 1),): 1})


def norm(e):
    if isint(e):
        return poly(e).expr()
    if isbool(e) and e.num_args() and e.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and isint(e.children()[0]):
        a, b = e.children()
        k = e.decl().kind()
        a, b = norm(a), norm(b)
        return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b, z3.Z3_OP_EQ: a == b}[k]
    return z3.simplify(e) if isbool(e) else e


def skey(e):
    return e.sexpr().replace("\n", " ").replace("  ", " ")


def eqpoly(a, b):
    return (poly(a) - poly(b)).zero()


# ------------------------------------------------------------------ composite values
class Agg:
    """struct / enum variant / tuple / closure"""
    __slots__ = ("tag", "var", "fs")

    def __init__(self, tag, fs, var=0):
        self.tag, self.var, self.fs = tag, var, tuple(fs)

    def put(self, i, v):
        return Agg(self.tag, self.fs[:i] + (v,) + self.fs[i + 1:], self.var)

    def __repr__(self):
        t = self.tag if isinstance(self.tag, str) else str(self.tag[1] if self.tag[0] == "closure" else self.tag)
        return f"{t.split('::')[-1]}#{self.var}{list(self.fs)!r}"


class Ref:
    __slots__ = ("cell", "proj", "mut")

    def __init__(self, cell, proj=(), mut=False):
        self.cell, self.proj, self.mut = cell, tuple(proj), mut

    def __repr__(self):
        return f"&{self.cell}{self.proj}"


class W:
    """B-bit word congruent to e mod 2^B"""
    __slots__ = ("e", "B")

    def __init__(self, e, B):
        self.e, self.B = iv(e), B

    def __repr__(self):
        return f"W({self.e})"


class Op:
    """opaque term"""
    __slots__ = ("tag", "args")

    def __init__(self, tag, *args):
        self.tag, self.args = tag, args

    def __repr__(self):
        return f"{self.tag}{list(self.args)!r}"


class FnV:
    __slots__ = ("callee", "env")

    def __init__(self, callee):
        self.callee = callee

    def __repr__(self):
        return f"fn {self.callee.get('rpath') or self.callee['path']}"


class Seq:
    """sequence of length n; either concrete (items) or given by a function of the index"""
    __slots__ = ("n", "items", "f", "key_", "panics", "keep")

    def __init__(self, n=None, f=None, items=None, key=None, panics=None, keep=None):
        self.panics = panics        # index -> [(conditions, Panic)]: computing that element may panic
        self.keep = keep            # (ex, st, x) -> [(state, bool)]: an iterator that leaves out some of the n elements
        if items is not None:
            self.items = tuple(items)
            self.n = z3.IntVal(len(self.items))
            self.f = None
        else:
            self.items, self.n, self.f = None, iv(n), f
        self.key_ = key

    def at(self, i):
        if self.items is not None:
            c = conc(i)
            if c is None:
                # uniform read of a concrete list with symbolic index
                vs = self.items
                if vs and all(key(v) == key(vs[0]) for v in vs):
                    return vs[0]
                raise Unsupported("symbolic index into concrete sequence")
            return self.items[c]
        return self.f(iv(i))

    def __repr__(self):
        return f"Seq{list(self.items)!r}" if self.items is not None else f"Seq(n={self.n}, [j]={self.f(z3.Int('j'))!r})"


class Poison:
    def __repr__(self):
        return "poison"


POISON = Poison()


class UninitT:
    def __repr__(self):
        return "uninit"


UNINIT = UninitT()


class Str:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return repr(self.b)


# ------------------------------------------------------------------ residues
class Mod:
    """a modulus: `e` its integer value; `sq` the N such that e = N^2 (if it is one); group: additive words (points)"""
    def __init__(self, e, sq=None, kind="int", name=None):
        self.e, self.sq, self.kind = e, sq, kind
        self.name = name or poly(e).key()

    def __repr__(self):
        return f"mod {self.name}"


QMOD = Mod(Q, name="q")
GROUP = Mod(Q, kind="group", name="G")
_reps = {}


def strip_mod(e, m):
    """rewrite e modulo m: MOD(x, m) -> x, CENT(x) -> x (m = q), multiples of m -> 0; m = N^2 drops N^2 and N*MOD(x,N) -> N*x"""
    p = poly(e)
    r = Poly()
    mp = poly(m.e)
    single = None
    if len(mp.d) == 1:
        (mk, mc), = mp.d.items()
        if mc == 1:
            single = dict(mk)
    for k, c in p.d.items():
        if single is not None:
            kd = dict(k)
            if all(kd.get(a, 0) >= n for a, n in single.items()):
                continue
        t = Poly({(): c})
        rest = dict(k)
        for a, n in k:
            ae = Poly.ATOMS[a]
            sub = None
            if ae.num_args() == 2 and ae.decl().name() == "MOD" and eqpoly(ae.arg(1), m.e):
                sub = strip_mod_p(ae.arg(0), m)
            elif (a, m.name) in CONG:
                sub = poly(CONG[(a, m.name)])
            elif a in FACTORS and any(eqpoly(f, m.e) for f in FACTORS[a]):
                sub = Poly()
            elif ae.num_args() == 2 and ae.decl().name() == "MOD" and list(poly(ae.arg(1)).d) and len(poly(ae.arg(1)).d) == 1 and \
                    any(x in FACTORS and any(eqpoly(f, m.e) for f in FACTORS[x]) for x in dict(list(poly(ae.arg(1)).d)[0])):
                # MOD(x, N) = x  mod p
                sub = strip_mod_p(ae.arg(0), m)
            elif ae.num_args() == 1 and ae.decl().name() == "CENT" and m.name in ("q", "G"):
                sub = strip_mod_p(ae.arg(0), m)
            elif m.sq is None and ae.num_args() == 2 and ae.decl().name() == "MOD" and poly_div(ae.arg(1), m.e):
                # MOD(x, k m) = x  mod m
                sub = strip_mod_p(ae.arg(0), m)
            elif m.sq is None and ae.num_args() == 2 and ae.decl().name() == "DIV" and eqpoly(ae.arg(1), m.e) and \
                    ae.arg(0).num_args() == 2 and ae.arg(0).decl().name() == "MOD" and eqpoly(ae.arg(0).arg(1), m.e * m.e) and \
                    poly_div(ae.arg(0).arg(0), m.e):
                # DIV(MOD(k m, m^2), m) = k  mod m
                sub = strip_mod_p(poly_quot(ae.arg(0).arg(0), m.e), m)
            elif m.sq is not None and ae.num_args() == 2 and ae.decl().name() == "MOD" and eqpoly(ae.arg(1), m.sq):
                # N * MOD(x, N) = N * x  mod N^2
                nk = list(poly(m.sq).d)
                if len(nk) == 1 and all(dict(k).get(x, 0) >= y for x, y in nk[0]):
                    sub = poly(ae.arg(0))
            if sub is None:
                sub = Poly({((a, 1),): 1})
            for _ in range(n):
                t = t * sub
        r = r + t
    r = cancel_inv(r, m)
    if r.key() != p.key():
        return strip_mod(r.expr(), m)
    return r.expr()


def cancel_inv(p, m):
    """x * INV(x, m) = 1 modulo m for units x"""
    r = Poly()
    for k, c in p.d.items():
        kd = dict(k)
        for a in list(kd):
            ae = Poly.ATOMS[a]
            if ae.num_args() == 2 and ae.decl().name() == "INV" and eqpoly(ae.arg(1), m.e):
                b = poly(ae.arg(0)).d
                if len(b) == 1:
                    (bk, bc), = b.items()
                    if bc == 1 and len(bk) == 1 and bk[0][1] == 1 and (bk[0][0], m.name) in UNITS:
                        n = min(kd.get(bk[0][0], 0), kd.get(a, 0))
                        for y in (a, bk[0][0]):
                            if n:
                                kd[y] -= n
                                if not kd[y]:
                                    del kd[y]
        r = r + Poly({tuple(sorted(kd.items())): c})
    return r


def strip_mod_p(e, m):
    return poly(strip_mod(e, m))


class Res:
    """residue modulo `m`. int form: polynomial `e`; word form: {base key: (base, exponent)}"""
    __slots__ = ("m", "e", "w")

    def __init__(self, m, e=None, w=None):
        self.m = m
        if e is not None:
            e = strip_mod(iv(e), m)
        if w is not None:
            w = norm_word(m, w)
            if m.kind == "int" and not w:
                e, w = z3.IntVal(1), None
            elif m.kind == "int" and len(w) == 1:
                (k, (b, x)), = w.items()
                if conc(x) == 1 and isint(b):
                    e, w = strip_mod(b, m), None
        self.e, self.w = e, w

    def __repr__(self):
        return f"<{res_key(self)} {self.m}>"


def gen_of(m):
    """(1+N) as generator of the order-N subgroup mod N^2"""
    return None if m.sq is None else norm(1 + m.sq)


UNITS = set()   # names of constants that are units modulo the modulus they belong to
PRIMES = {}     # name of a constant that is a prime = 3 mod 4 -> its atom key
FACTORS = {}    # atom key of a modulus -> its two prime factors
CONG = {}       # (atom key, name of a modulus) -> integer congruent to the atom
ORDERS = {}     # name of a modulus -> (order of its unit group, [(a, b): a * b = 1 modulo that order])


def order_reduce(m, x):
    """exponents of units are taken modulo the order of the unit group, where it is known"""
    if m.e.num_args() == 0 and str(m.e) in PRIMES:
        # Fermat: x^p = x; and 4 (p div 4) = p - 3
        a = PRIMES[str(m.e)]
        r = Poly()
        for k, c in poly(x).d.items():
            kd = dict(k)
            for y in list(kd):
                ye = Poly.ATOMS[y]
                if c % 4 == 0 and ye.num_args() == 2 and ye.decl().name() == "DIV" and eqpoly(ye.arg(0), m.e) and conc(ye.arg(1)) == 4:
                    kd[y] -= 1
                    if not kd[y]:
                        del kd[y]
                    r = r + Poly({tuple(sorted(kd.items())): -2 * c // 4})
                    break
            else:
                kd.pop(a, None)
                r = r + Poly({tuple(sorted(kd.items())): c})
        return r.expr()
    if m.name not in ORDERS:
        return x
    od, inv = ORDERS[m.name]
    x = strip_mod(x, Mod(od))
    ok, p = list(poly(od).d)[0], poly(x)
    r = Poly()
    for k, c in p.d.items():
        kd = dict(k)
        for a, b in inv:
            while kd.get(a, 0) and kd.get(b, 0):
                for y in (a, b):
                    kd[y] -= 1
                    if not kd[y]:
                        del kd[y]
        if all(kd.get(a, 0) >= n for a, n in ok):
            continue
        r = r + Poly({tuple(sorted(kd.items())): c})
    return r.expr()


def expand_factors(x):
    """N = p q in exponents"""
    p = poly(x)
    if not any(a in FACTORS for k in p.d for a, _ in k):
        return x
    r = Poly()
    for k, c in p.d.items():
        t = Poly({(): c})
        for a, n in k:
            f = poly(norm(FACTORS[a][0] * FACTORS[a][1])) if a in FACTORS else Poly({((a, 1),): 1})
            for _ in range(n):
                t = t * f
        r = r + t
    return r.expr()


def norm_word(m, w):
    r = {}
    for k, (b, x) in w.items():
        x = norm(x)
        if FACTORS and m.name not in ORDERS:
            x = expand_factors(x)
        if (m.name in ORDERS or str(m.e) in PRIMES) and (k in UNITS or (k, m.name) in UNITS):
            x = order_reduce(m, x)
        if m.kind == "group":
            x = strip_mod(x, QMOD)
        elif m.sq is not None and isint(b) and eqpoly(b, 1 + m.sq):
            x = strip_mod(x, Mod(m.sq))
        if conc(x) != 1 and isint(b) and conc(b) == -1:
            # -1 has order two; the known primes and their products are odd
            odd, par = set(PRIMES.values()) | set(FACTORS), {}
            for kk, c in poly(x).d.items():
                if c % 2:
                    mk = tuple((a, 1) for a, _ in kk if a not in odd)
                    par[mk] = par.get(mk, 0) + 1
            x = Poly({mk: 1 for mk, c in par.items() if c % 2}).expr()
        if conc(x) == 0:
            continue
        if m.sq is not None and isint(b) and not eqpoly(b, 1 + m.sq) and poly_div(x, m.sq):
            # a = b mod N  gives  a^N = b^N mod N^2
            mn = Mod(m.sq)
            for k2, (b2, x2) in as_word(Res(mn, e=b)).items():
                y = norm(x2 * x)
                if k2 in r:
                    y = norm(r[k2][1] + y)
                r[k2] = (b2, y)
            continue
        if k in r:
            x = norm(r[k][1] + x)
        r[k] = (b, x)
    return {k: v for k, v in r.items() if conc(v[1]) != 0}


def base_key(m, b):
    return poly(strip_mod(b, m)).key() if isint(b) else str(b)


def as_word(r):
    if r.w is not None:
        return r.w
    e = r.e
    c = conc(e)
    if c == 1:
        return {}
    m = r.m
    if m.sq is not None:
        # 1 + x*N  ->  (1+N)^x
        d = poly(e) - Poly({(): 1})
        np_ = list(poly(m.sq).d.items())
        if len(np_) == 1 and np_[0][1] == 1:
            nk = dict(np_[0][0])
            if d.d and all(all(dict(k).get(a, 0) >= n for a, n in nk.items()) for k in d.d):
                q = {}
                for k, c in d.d.items():
                    kd = dict(k)
                    for a, n in nk.items():
                        kd[a] -= n
                        if not kd[a]:
                            del kd[a]
                    q[tuple(sorted(kd.items()))] = c
                g = norm(1 + m.sq)
                return norm_word(m, {base_key(m, g): (g, Poly(q).expr())})
    # registered representative of a word
    if e.num_args() == 0 and not isinstance(e, z3.IntNumRef) and e.decl().name() in _reps:
        w = _reps[e.decl().name()]
        if w.m.name == m.name:
            return as_word(w)
        if m.sq is None and w.m.sq is not None and eqpoly(w.m.sq, m.e) and w.w is not None:
            # a residue modulo m^2 taken modulo m
            r = {}
            for b, x in w.w.values():
                if isint(b):
                    r = wmul(m, r, wpow(m, as_word(Res(m, e=b)), x))
                else:
                    r = None
                    break
            if r is not None:
                return r
    # MOD(rep, M')? leave as base
    # product of atoms: split monomials into bases
    p = poly(e)
    if len(p.d) == 1:
        (k, c), = p.d.items()
        w = {}
        if c != 1:
            w[str(c)] = (z3.IntVal(c), z3.IntVal(1))
        for a, n in k:
            ae = Poly.ATOMS[a]
            if ae.num_args() == 0 and ae.decl().name() in _reps and _reps[ae.decl().name()].m.name == m.name:
                w = wmul(m, w, wpow(m, as_word(_reps[ae.decl().name()]), z3.IntVal(n)))
            elif ae.num_args() == 2 and ae.decl().name() == "INV" and eqpoly(ae.arg(1), m.e):
                w = wmul(m, w, wpow(m, as_word(Res(m, e=ae.arg(0))), z3.IntVal(-n)))
            else:
                w = wmul(m, w, {a: (ae, z3.IntVal(n))})
        return norm_word(m, w)
    if p.zero():
        return {"0": (z3.IntVal(0), z3.IntVal(1))}
    return {p.key(): (p.expr(), z3.IntVal(1))}


def wmul(m, a, b, sgn=1):
    r = dict(a)
    for k, (bs, x) in b.items():
        if k in r:
            r[k] = (bs, r[k][1] + x if sgn == 1 else r[k][1] - x)
        else:
            r[k] = (bs, x if sgn == 1 else -x)
    return norm_word(m, r)


def wpow(m, a, x):
    return norm_word(m, {k: (b, e * x) for k, (b, e) in a.items()})


def res_mul(a, b):
    if a.m.kind == "int" and a.w is None and b.w is None and a.m.sq is None:
        # ring product, unless one side is a word candidate
        return Res(a.m, e=a.e * b.e)
    if a.m.kind == "int" and a.w is None and b.w is None and (poly_div(a.e, a.m.sq) or poly_div(b.e, a.m.sq)):
        return Res(a.m, e=a.e * b.e)
    return Res(a.m, w=wmul(a.m, as_word(a), as_word(b)))


def poly_div(e, n):
    """n (a product of atoms) divides every monomial of e"""
    np_ = list(poly(n).d)
    p = poly(e)
    return len(np_) == 1 and poly(n).d[np_[0]] == 1 and bool(p.d) and all(all(dict(k).get(a, 0) >= c for a, c in np_[0]) for k in p.d)


def poly_quot(e, n):
    """e / n where poly_div(e, n)"""
    (nk, nc), = poly(n).d.items()
    r = {}
    for k, c in poly(e).d.items():
        kd = dict(k)
        for a, x in nk:
            kd[a] -= x
            if not kd[a]:
                del kd[a]
        r[tuple(sorted(kd.items()))] = c
    return Poly(r).expr()


def res_add(a, b, sgn=1):
    if a.m.kind == "group":
        return Res(a.m, w=wmul(a.m, as_word(a), as_word(b), sgn))
    ae, be = as_int(a), as_int(b)
    return Res(a.m, e=ae + be if sgn == 1 else ae - be)


def res_pow(a, x):
    c = conc(x)
    if a.m.kind == "int" and a.w is None and a.m.sq is None and c is not None and 0 <= c <= 4:
        return Res(a.m, e=z3.Product([a.e] * c) if c else z3.IntVal(1))
    return Res(a.m, w=wpow(a.m, as_word(a), x))


def res_inv(a):
    return res_pow(a, z3.IntVal(-1))


def as_int(r):
    """an integer expression congruent to r modulo r.m"""
    if r.e is not None:
        return r.e
    w = r.w
    if not w:
        return z3.IntVal(1)
    if len(w) == 1:
        (k, (b, x)), = w.items()
        if isint(b):
            if conc(x) == 1:
                return b
            if r.m.sq is not None and eqpoly(b, 1 + r.m.sq):
                return norm(1 + x * r.m.sq)
            if conc(x) == 2:
                return b * b
            if conc(x) == -1:
                return INV(b, r.m.e)
    name = "rep{" + word_key(w) + " mod " + r.m.name + "}"
    _reps[name] = r
    return z3.Int(name)


def retrieve(r):
    """the canonical representative in [0, m)"""
    e = as_int(r)
    if e.num_args() == 0 and not isinstance(e, z3.IntNumRef) and e.decl().name() in _reps:
        return e
    return mod(e, r.m.e)


def mod(e, m):
    """MOD with light simplification"""
    e, m = iv(e), iv(m)
    ce, cm = conc(e), conc(m)
    if ce is not None and cm:
        return z3.IntVal(ce % cm)
    if ce == 0:
        return z3.IntVal(0)
    if e.num_args() == 2 and e.decl().name() == "MOD" and eqpoly(e.arg(1), m):
        return e
    if cm and e.num_args() == 2 and e.decl().name() == "MOD" and (conc(e.arg(1)) or 1) % cm == 0 and conc(e.arg(1)):
        return mod(e.arg(0), m)
    if e.num_args() == 0 and not isinstance(e, z3.IntNumRef) and CANON.get(e.decl().name()) == poly(m).key():
        return e
    return MOD(norm(e), norm(m))


CANON = {}      # name of a constant -> key of the modulus below which it lies (as its facts say)


CUR = [None]


def modp(e, m):
    """MOD, dropped when the current path condition shows 0 <= e < m"""
    r = mod(e, m)
    if r.num_args() == 2 and r.decl().name() == "MOD" and CUR[0] is not None and check(CUR[0].pc, z3.And(e >= 0, e < m), 1500) == "proved":
        return norm(e)
    return r


def word_key(w):
    return " ".join(f"[{k}]^({poly(x).key()})" for k, (b, x) in sorted(w.items())) or "1"


def res_key(r):
    if r.m.kind == "int" and r.w is None:
        return poly(r.e).key()
    return word_key(as_word(r))


def res_eq(a, b):
    """Bool: a == b. Decided syntactically, or an uninterpreted atom named by the canonical quotient"""
    if a.m.name != b.m.name:
        raise Unsupported(f"comparison of residues of different moduli {a.m} {b.m}")
    if a.m.kind == "int" and a.w is None and b.w is None:
        d = poly(strip_mod(a.e - b.e, a.m))
        if d.zero():
            return TRUE
        if a.m.name == "q":
            ij = same_function(d)
            if ij is not None:
                return idx_eq(*ij)
            if index_like(d):
                pos, neg = Poly({m: c for m, c in d.d.items() if c > 0}), Poly({m: -c for m, c in d.d.items() if c < 0})
                return idx_eq(pos.expr(), neg.expr())
        if a.m.sq is None:
            ks = sorted([d.key(), d.scale(-1).key()])
            return atom(f"{ks[0]} =0 mod {a.m.name}", (a.m, d, None))
    w = wmul(a.m, as_word(a), as_word(b), -1)
    if not w:
        return TRUE
    ks = sorted([word_key(w), word_key(wpow(a.m, w, z3.IntVal(-1)))])
    return atom(f"{ks[0]} =1 mod {a.m.name}", (a.m, None, w))


INJ = set()          # names of functions that are injective (elements of a set, keys of a map)


def same_function(d):
    """f(i) - f(j) for an injective f: (i, j)"""
    if len(d.d) == 2 and sorted(d.d.values()) == [-1, 1] and all(len(m) == 1 and m[0][1] == 1 for m in d.d):
        x, y = (Poly.ATOMS[m[0][0]] for m in d.d)
        if x.num_args() == 1 and y.num_args() == 1 and x.decl().eq(y.decl()) and x.decl().name() in INJ:
            return x.arg(0), y.arg(0)
    return None


def index_like(d):
    """d is a combination of indices and lengths of absolute value below q"""
    if not all(len(m) <= 1 for m in d.d) or not any(d.d) or not all(str(a).startswith(("i!", "j!", "k!", "len(", "owner(")) and n == 1 for m in d.d for a, n in m):
        return False
    pc = CUR[0].pc if CUR[0] is not None else []
    e = d.expr()
    return check(pc, z3.And(e < Q, -e < Q), 1000) == "proved"


def idx_eq(i, j):
    d = poly(i) - poly(j)
    if d.zero():
        return TRUE
    if not set(d.d) - {()}:
        return FALSE
    i, j = norm(i), norm(j)
    if skey(j) < skey(i):
        i, j = j, i
    pc = CUR[0].pc if CUR[0] is not None else []
    e = i == j
    # (decided by the range of the indices)
    if pc and check(pc, z3.Not(e), 500) == "proved":
        return FALSE
    return e


ATOMS_DEF = {}      # name of an equality atom -> (modulus, difference polynomial | None, quotient word | None)


def atom(s, d=None):
    if d is not None:
        ATOMS_DEF["{" + s + "}"] = d
    return z3.Bool("{" + s + "}")


def degree(p):
    return max((sum(n for _, n in k) for k in p.d), default=0)


def atom_axioms(fs):
    """congruence: words over the same bases with equal (or opposite) exponents are trivial together; x - y = 0 mod q as integers"""
    names = set()
    for f in fs:
        names |= {n for n in bools_of(f) if n in ATOMS_DEF}
    out, groups = [], {}
    for n in sorted(names):
        m, d, w = ATOMS_DEF[n]
        if d is not None:
            if m.name == "q" and degree(d) <= 1:
                out.append(z3.Bool(n) == (MOD(d.expr(), Q) == 0))
            continue
        if m.kind == "int" and m.sq is None and all(conc(x) is not None and abs(conc(x)) <= 8 and isint(b) for b, x in w.values()):
            # small constant exponents: the same equation between products
            l, r = z3.IntVal(1), z3.IntVal(1)
            for b, x in w.values():
                for _ in range(abs(conc(x))):
                    l, r = (l * b, r) if conc(x) > 0 else (l, r * b)
            d = poly(strip_mod(l - r, m))
            n2 = "{" + sorted([d.key(), d.scale(-1).key()])[0] + f" =0 mod {m.name}" + "}"
            if n2 in names:
                out.append(z3.Bool(n) == z3.Bool(n2))
        groups.setdefault((m.name, tuple(sorted(w))), []).append(n)
    for (mn, bs), ns in groups.items():
        for i, x in enumerate(ns):
            for y in ns[i + 1:]:
                wx, wy = ATOMS_DEF[x][2], ATOMS_DEF[y][2]
                for sg in (1, -1):
                    cs, dead = [], False
                    for b in bs:
                        dd = poly(wx[b][1]) - poly(wy[b][1]).scale(sg)
                        if dd.zero():
                            continue
                        if not (set(dd.d) - {()}):
                            dead = True
                            break
                        cs.append(norm(wx[b][1]) == norm(iv(sg) * wy[b][1]))
                    if not dead:
                        out.append(z3.Implies(z3.And(cs), z3.Bool(x) == z3.Bool(y)))
    return out


_bools = {}


def bools_of(f):
    k = f.get_id()
    if k not in _bools:
        _bools[k] = (f, frozenset(t.decl().name() for t in terms_of([f]) if t.num_args() == 0 and isbool(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED))
    return _bools[k][1]


# ------------------------------------------------------------------ keys and equality
_depth = [0]


def seq_key(v):
    """the key of a sequence: its length and its element at a bound index, with the cases that the element distinguishes"""
    _depth[0] += 1
    old = CUR[0]
    name = f"j!#{_depth[0]}#"
    j = z3.Int(name)
    if old is not None:
        s = CUR[0] = old.copy()
        s.pc += [j >= 0, z3.simplify(j < v.n)]

    def cases(left):
        try:
            return key(v.f(j))
        except Exception as e:
            c = getattr(e, "cond", None)
            if c is None or old is None or not left:
                raise
        s0, r = CUR[0], []
        for x in (c, z3.Not(c)):
            CUR[0] = s0.copy()
            CUR[0].pc += [x]
            r.append(cases(left - 1))
        return r[0] if r[0] == r[1] else f"if {skey(z3.simplify(c))} {r[0]} else {r[1]}"
    try:
        k = cases(5)
        h = 1 + max([0] + [int(x) for x in re.findall("j!@([0-9]+)", k)])
        return f"[{key(v.n)};{k.replace(name, f'j!@{h}')}]"
    finally:
        _depth[0] -= 1
        CUR[0] = old


def key(v):
    if isint(v):
        return poly(v).key()
    if isbool(v):
        return skey(z3.simplify(v))
    if isinstance(v, W):
        return f"W({poly(v.e).key()};{poly(v.B).key()})"
    if isinstance(v, Agg):
        return f"{v.tag}#{v.var}(" + ",".join(key(x) for x in v.fs) + ")"
    if isinstance(v, Res):
        return f"<{res_key(v)} mod {v.m.name}>"
    if isinstance(v, Seq):
        if v.key_:
            return v.key_
        if v.items is not None:
            return "[" + ",".join(key(x) for x in v.items) + "]"
        return seq_key(v)
    if isinstance(v, Op):
        return f"{v.tag}(" + ",".join(key(x) for x in v.args) + ")"
    if isinstance(v, Str):
        return repr(v.b)
    if isinstance(v, (tuple, list)):
        return "(" + ",".join(key(x) for x in v) + ")"
    if isinstance(v, FnV):
        return repr(v)
    if isinstance(v, Ref):
        return f"&{v.cell}{v.proj}"
    return str(v)


def short(s, n=400):
    return s if len(s) <= n else s[:n] + "…#" + hashlib.sha1(s.encode()).hexdigest()[:8]


# ------------------------------------------------------------------ prover
class Stats:
    def __init__(self):
        self.n = 0
        self.time = 0.0
        self.queries = 0


STATS = Stats()


def terms_of(fs):
    seen, out = set(), []
    st = list(fs)
    while st:
        e = st.pop()
        if not z3.is_expr(e) or e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            continue
        out.append(e)
        st.extend(e.children())
    return out


_inst_cache = {}


def instances(fs, rounds=2):
    """axiom instances for the interpreted functions P2, MOD, DIV, AND, BITS, GCD, CENT occurring in fs"""
    ax = []
    done = set()
    cur = list(fs)

    def add(a):
        k = a.get_id()
        if k not in done:
            done.add(k)
            ax.append(a)

    for rd in range(rounds):
        ts = terms_of(cur + ax)
        p2 = {}
        mods, divs, ands, bits, muls, cents = [], [], [], [], [], []
        for t in ts:
            if t.num_args() == 0:
                continue
            n = t.decl().name()
            if n == "P2":
                p2.setdefault(poly(t.arg(0)).key(), t)
            elif n == "MOD":
                mods.append(t)
            elif n == "DIV":
                divs.append(t)
            elif n == "AND":
                ands.append(t)
            elif n == "BITS":
                bits.append(t)
            elif n == "CENT":
                cents.append(t)
            elif t.decl().kind() == z3.Z3_OP_MUL and sum(not isinstance(c, z3.IntNumRef) for c in t.children()) == 2:
                muls.append(t)
        for t in bits:
            for e in (P2(norm(t)), P2(norm(t - 1))):
                p2.setdefault(poly(e.arg(0)).key(), e)
        ps = list(p2.values())
        for t in ps:
            x = t.arg(0)
            add(z3.Implies(x >= 0, t >= 1))
            add(z3.Implies(x >= 1, t >= 2))
            add(z3.Implies(x == 0, t == 1))
            add(z3.Implies(x == 1, t == 2))
            add(t >= 0)
        if len(ps) <= 24:
            for i, s in enumerate(ps):
                for t in ps[i + 1:]:
                    x, y = s.arg(0), t.arg(0)
                    add(z3.Implies(z3.And(x >= 0, x <= y), s <= t))
                    add(z3.Implies(z3.And(y >= 0, y <= x), t <= s))
                    add(z3.Implies(z3.And(x >= 0, x < y), 2 * s <= t))
                    add(z3.Implies(z3.And(y >= 0, y < x), 2 * t <= s))
                    add(z3.Implies(z3.And(x >= 0, y == x + 1), t == 2 * s))
                    add(z3.Implies(z3.And(y >= 0, x == y + 1), s == 2 * t))
        diffs = {}
        for s in ps:
            for t in ps:
                d = poly(t.arg(0)) - poly(s.arg(0))
                c = d.d.get((), 0)
                if 0 < c <= 512 and not (d - Poly({(): c})).d:
                    add(z3.Implies(s.arg(0) >= 0, t == 2 ** c * s))
                    diffs[(s.get_id(), t.get_id())] = c
        for d in divs:
            for t in ps:
                c = diffs.get((d.arg(1).get_id(), t.get_id()))
                if c:
                    add(z3.Implies(z3.And(d.arg(1) >= 1, d.arg(0) >= 0, d.arg(0) < t), d < 2 ** c))
        # P2(x) * P2(y) = P2(x+y)
        for s in ps:
            for t in ps:
                k = (poly(s.arg(0)) + poly(t.arg(0))).key()
                if k in p2:
                    add(z3.Implies(z3.And(s.arg(0) >= 0, t.arg(0) >= 0), p2[k] == s * t))
        for t in mods + divs:
            x, m = t.arg(0), t.arg(1)
            r, q = MOD(x, m), DIV(x, m)
            add(z3.Implies(m > 0, z3.And(r >= 0, r < m, x == m * q + r)))
            add(z3.Implies(z3.And(m > 0, x >= 0), q >= 0))
            add(z3.Implies(z3.And(x >= 0, x < m), z3.And(r == x, q == 0)))
            add(z3.Implies(z3.And(m > 0, x < 0, x >= -m), z3.And(r == x + m, q == -1)))
            add(z3.Implies(z3.And(m > 0, x >= m, x < 2 * m), z3.And(r == x - m, q == 1)))
            add(z3.Implies(z3.And(m > 0, x <= m, x >= 0), z3.And(q >= 0, q <= 1)))
        for t in ps:
            x = t.arg(0)
            if x.num_args() == 2 and x.decl().name() == "MOD" and conc(x.arg(1)) and conc(x.arg(1)) <= 16:
                for i in range(conc(x.arg(1))):
                    add(z3.Implies(x == i, t == 2 ** i))
        for t in mods:
            m = t.arg(1)
            if m.num_args() == 1 and m.decl().name() == "P2":
                for d in divs:
                    k = d.arg(1)
                    if k.num_args() == 1 and k.decl().name() == "P2" and eqpoly(d.arg(0), t.arg(0)):
                        n_, m_ = m.arg(0), k.arg(0)
                        if not eqpoly(n_, m_):
                            add(z3.Implies(z3.And(m_ >= 0, m_ <= n_), t == MOD(t.arg(0), k) + k * MOD(d, P2(norm(n_ - m_)))))
        for i, s in enumerate(mods):
            for t in mods[i + 1:]:
                if eqpoly(s.arg(1), t.arg(1)):
                    d = poly(strip_mod(s.arg(0), Mod(s.arg(1)))) - poly(strip_mod(t.arg(0), Mod(s.arg(1))))
                    if d.zero():
                        add(z3.Implies(s.arg(1) > 0, s == t))
        for t in ands:
            x, y = t.arg(0), t.arg(1)
            for a, b in ((x, y), (y, x)):
                add(z3.Implies(z3.And(a >= 0, b >= 0), z3.And(t >= 0, t <= a)))
                add(z3.Implies(b == 0, t == 0))
                for p in ps:
                    add(z3.Implies(z3.And(a >= 0, b == p - 1, p.arg(0) >= 0), t == MOD(a, p)))
                    for p3 in ps:
                        if p3.get_id() != p.get_id():
                            add(z3.Implies(z3.And(a >= 0, b == p3 - p, a < p3, p.arg(0) >= 0, p.arg(0) <= p3.arg(0)), t == a - MOD(a, p)))
        for t in bits:
            x = t.arg(0)
            add(t >= 0)
            if x.num_args() == 1 and x.decl().name() == "P2":
                add(z3.Implies(x.arg(0) >= 0, t == x.arg(0) + 1))
            add(z3.Implies(x == 0, t == 0))
            add(z3.Implies(x >= 1, t >= 1))
            add(z3.Implies(x >= 0, x < P2(norm(t))))
            add(z3.Implies(x >= 1, x >= P2(norm(t - 1))))
            for p in ps:
                k = p.arg(0)
                add(z3.Implies(z3.And(x >= 0, k >= 0), (t <= k) == (x < p)))
        gs = [t for t in ts if t.num_args() == 2 and t.decl().name() == "GCD"]
        for i, t in enumerate(gs):
            for u in gs[i + 1:]:
                if eqpoly(t.arg(0), u.arg(1)) and eqpoly(t.arg(1), u.arg(0)):
                    add(t == u)
        for t in cents:
            x = t.arg(0)
            add(z3.And(2 * t <= Q, 2 * t > -Q))
            add(z3.Implies(z3.And(2 * x <= Q, 2 * x > -Q), t == x))
            add(z3.Implies(z3.And(2 * x > Q, x < Q), t == x - Q))
        if len(muls) <= 12:
            fac = [(t, [c for c in t.children() if not isinstance(c, z3.IntNumRef)]) for t in muls]
            fac = [(t, cs) for t, cs in fac if len(cs) == 2]
            for i, (s, cs) in enumerate(fac):
                for t, ds in fac[i + 1:]:
                    for x in cs:
                        for y in ds:
                            if x.get_id() == y.get_id():
                                u, v = [c for c in cs if c is not x][0], [c for c in ds if c is not y][0]
                                add(z3.Implies(z3.And(x >= 0, u < v), x * u + x <= x * v))
                                add(z3.Implies(z3.And(x >= 0, v < u), x * v + x <= x * u))
        if len(muls) <= 12 and rd == 0:
            for t in muls:
                cs = [c for c in t.children() if not isinstance(c, z3.IntNumRef)]
                if len(cs) != 2:
                    continue
                a, b = cs
                t = a * b
                add(z3.Implies(z3.And(a >= 0, b >= 0), t >= 0))
                add(z3.Implies(z3.And(a >= 1, b >= 1), z3.And(t >= a, t >= b)))
                add(z3.Implies(z3.Or(a == 0, b == 0), t == 0))
                def near(x):
                    """the powers of two that a hypothesis compares x with"""
                    if len(ps) <= 8:
                        return ps
                    ids = set()
                    for f in fs:
                        tt = {u.get_id() for u in terms_of([f])}
                        if x.get_id() in tt:
                            ids |= tt
                    r = [p for p in ps if p.get_id() in ids]
                    return r if len(r) <= 6 else []
                if True:
                    for p in near(a):
                        for r in near(b):
                            k = (poly(p.arg(0)) + poly(r.arg(0))).key()
                            hi = p2.get(k) if k in p2 else P2(norm(p.arg(0) + r.arg(0)))
                            add(z3.Implies(z3.And(a < p, -a < p, b < r, -b < r, p.arg(0) >= 0, r.arg(0) >= 0), z3.And(t < hi, -t < hi)))
                            add(z3.Implies(z3.And(a <= p, -a <= p, b <= r, -b <= r, p.arg(0) >= 0, r.arg(0) >= 0), z3.And(t <= hi, -t <= hi)))
                            add(z3.Implies(z3.And(a < p, -a < p, b <= r, -b <= r, p.arg(0) >= 0, r.arg(0) >= 0), z3.And(t < hi, -t < hi)))
                            add(z3.Implies(z3.And(a <= p, -a <= p, b < r, -b < r, p.arg(0) >= 0, r.arg(0) >= 0), z3.And(t < hi, -t < hi)))
        cur = []
        if rd == 0:
            cur = list(fs)
    return ax


AXIOMS = []   # global facts (params)
FACTS_FOR = lambda fs: []


_consts = {}


def consts_of(f):
    k = f.get_id()
    if k not in _consts:
        _consts[k] = (f, frozenset(t.decl().name() for t in terms_of([f]) if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED))
    return _consts[k][1]


def relevant(fs):
    """facts and axioms connected to fs through shared constants"""
    ax = atom_axioms(fs)
    out = list(FACTS_FOR(list(fs) + ax)) + ax
    names = set()
    for f in list(fs) + out:
        names |= consts_of(f)
    todo = list(AXIOMS)
    while True:
        new = [a for a in todo if consts_of(a) & names]
        if not new:
            return out
        todo = [a for a in todo if not (consts_of(a) & names)]
        extra = FACTS_FOR(new)
        have = {x.get_id() for x in out}
        out += [x for x in new + extra if x.get_id() not in have]
        for f in new + extra:
            names |= consts_of(f)


def align_p2(hyps, goal, timeout):
    """rewrite P2(r + c) as 2^(c-m) * P2(r + m), m the smallest offset occurring for r, once r + m >= 0 is proved"""
    fam = {}
    for t in terms_of(list(hyps) + [goal]):
        if t.num_args() == 1 and t.decl().name() == "P2":
            p = poly(t.arg(0))
            c = p.d.get((), 0)
            r = p - Poly({(): c})
            if not r.zero():
                fam.setdefault(r.key(), {})[c] = (t, r)
    sub = []
    for k, d in fam.items():
        if len(d) > 1:
            m = min(d)
            r = list(d.values())[0][1]
            low = (r + Poly({(): m})).expr() if m else r.expr()
            if check0(hyps, low >= 0, timeout) != "proved":
                continue
            for c, (t, _) in d.items():
                if c != m:
                    sub.append((t, z3.IntVal(2 ** (c - m)) * P2(low)))
    if not sub:
        return None
    f = lambda e: deepnorm(z3.substitute(e, *sub))
    return [f(h) for h in hyps], f(goal)


def deepnorm(e):
    """normalise the arithmetic inside a formula"""
    if isbool(e) and e.num_args() and not (e.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and isint(e.children()[0])):
        return e.decl()(*[deepnorm(c) for c in e.children()]) if not z3.is_quantifier(e) else e
    return norm(e)


def check(hyps, goal, timeout=8000):
    r = check0(hyps, goal, timeout)
    if r == "proved":
        return r
    try:
        al = align_p2(hyps, goal, 2000)
    except z3.Z3Exception:
        al = None
    if al is not None and check0(al[0], al[1], timeout) == "proved":
        return "proved"
    return r


def check0(hyps, goal, timeout=8000):
    """'proved' | ('refuted', model) | 'unknown'  for  hyps |- goal"""
    g = z3.simplify(goal)
    STATS.queries += 1
    if z3.is_true(g):
        return "proved"
    t0 = time.time()
    fs = [h for h in hyps if not z3.is_true(h)]
    fs.append(z3.Not(goal))
    glob = relevant(fs)
    s = z3.Solver()
    s.set("timeout", timeout)
    s.set("random_seed", 1)
    ax = instances(fs + glob)
    for f in fs + glob + ax:
        s.add(f)
    r = s.check()
    STATS.time += time.time() - t0
    if r == z3.unsat:
        return "proved"
    if r == z3.sat:
        return ("refuted", s.model())
    return "unknown"


_feas = {}


def feasible(hyps, timeout=700):
    g = z3.simplify(z3.And(hyps)) if hyps else TRUE
    if z3.is_false(g):
        return False
    if z3.is_true(g):
        return True
    k = frozenset(h.get_id() for h in hyps)
    if k in _feas:
        return _feas[k][1]
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", timeout)
    s.set("random_seed", 1)
    fs = list(hyps)
    fs += relevant(fs)
    for f in fs + instances(fs, rounds=1):
        s.add(f)
    STATS.queries += 1
    r = s.check() != z3.unsat
    STATS.time += time.time() - t0
    _feas[k] = (list(hyps), r)
    return r
