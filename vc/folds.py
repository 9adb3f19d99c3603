"""Folds over sequences of symbolic length whose step is affine in the accumulator: acc' = m_j * acc + e_j.

The result is expressed with sums and products over the index, which are symbols named by their normalised body
(bound variables are numbered by nesting height), split by linearity (sums) and multiplicativity (products), so that
equal bodies give the same symbol. Scalars are residues modulo the curve order q, points are additive words."""
from engine import *
from engine import BOUND
import core

SUMS = {}        # name of a sum or product symbol -> ("sum" | "prod" | "psum", n, body at the bound variable, bound variable)
FACT_HOOK = [None]


class NotAffine(Unsupported):
    pass


def height(s):
    h = 0
    for i, c in enumerate(s):
        if c == "•":
            j = i + 1
            while j < len(s) and s[j].isdigit():
                j += 1
            h = max(h, int(s[i + 1:j] or 0))
    return h


def bind(name, k):
    """name with the bound variable k replaced by one numbered by height"""
    kn = str(k)
    if f"|{kn}|" in name:
        name = name.replace(f"|{kn}|", kn)
    return name.replace(kn, f"•{height(name) + 1}")


def depends(s, k):
    return str(k) in s


def ekey(e):
    return poly(e).key()


class at_index:
    """evaluation at a bound index: 0 <= k < n holds and nested folds use the next variable"""
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.k = z3.Int(f"k!{BOUND[0]}!")
        BOUND[0] += 1
        self.old = CUR[0]
        st = self.old.copy() if self.old is not None else State()
        st.pc = st.pc + [self.k >= 0, z3.simplify(self.k < self.n)]
        CUR[0] = st
        return self.k

    def __exit__(self, *a):
        BOUND[0] -= 1
        CUR[0] = self.old


def small(n):
    """n as a number, where the path condition bounds it by one"""
    c = conc(norm(n))
    if c is None and CUR[0] is not None:
        cs = consts_of(n)
        for f in CUR[0].pc:
            if cs and consts_of(f) == cs and len(str(f)) < 80:
                for v in (0, 1):
                    if check(CUR[0].pc, n == v, 1000) == "proved":
                        return v
                return None
    return c


def over(n, body, add, single, zero):
    """combine `single(n', body')` over the pieces of [0, n) on which body is uniform"""
    c = small(n)
    if c is not None and c <= 64:
        r = zero
        for i in range(max(c, 0)):
            r = add(r, body(z3.IntVal(i)))
        return r
    try:
        return single(n, body)
    except NeedSplit as e:
        b = boundary(e, n)
        return add(over(b, body, add, single, zero), over(norm(n - b), lambda i: body(norm(i + b)), add, single, zero))


def boundary(e, n):
    """the index b, 0 < b < n, at which a sequence that was put together from two changes from one to the other"""
    k = z3.Int(f"k!{BOUND[0]}!")
    if e.cut is None or "k!" not in str(e.cut[0]):
        if str(k) in str(e.cond):
            raise NotAffine("steps that differ from index to index")
        raise e
    j, b = e.cut
    d = poly(j)
    c = d.d.get(((str(k), 1),), 0)
    d = d - poly(k).scale(c)
    if abs(c) != 1 or any(str(k) in a for m in d.d for a, _ in m):
        raise NotAffine("steps that differ from index to index")
    # k + d < b  or  d - k < b
    b = norm(iv(b) - d.expr()) if c == 1 else norm(d.expr() - iv(b) + 1)
    pc = CUR[0].pc if CUR[0] is not None else []
    for g in (b > 0, b < n):
        if check(pc, g, 3000) != "proved":
            raise NeedSplit(norm(g))
    return b


def symbol(kind, n, key_, body, k, neutral):
    name = bind(f"{kind}[{ekey(n)}|{key_}]", k)
    if name not in SUMS:
        SUMS[name] = (kind, n, body, k)
        x = z3.Int(name)
        FACT_HOOK[0](name, x >= 0, x < Q, z3.Implies(n == 0, x == neutral))
        core.CANON[name] = "1*q"
    return z3.Int(name)


def sum_(n, body):
    """sum of body(j), 0 <= j < n, modulo q"""
    def single(n, body):
        with at_index(n) as k:
            p = poly(strip_mod(body(k), QMOD))
        r = Poly()
        for m, c in p.d.items():
            out = Poly({tuple(x for x in m if not depends(x[0], k)): c})
            dep = tuple(x for x in m if depends(x[0], k))
            if not dep:
                r = r + out * poly(n)
            else:
                d = Poly({dep: 1})
                r = r + out * poly(symbol("SUM", n, d.key(), d.expr(), k, 0))
        return r.expr()
    return strip_mod(over(n, body, lambda a, b: norm(a + b), single, z3.IntVal(0)), QMOD)


def xp(x, j):
    """x^j modulo q"""
    c = conc(norm(j))
    if conc(x) == 1 or c == 0:
        return z3.IntVal(1)
    if c is not None and 0 < c <= 16:
        return norm(z3.Product([x] * c)) if c > 1 else x
    c = poly(j).d.get((), 0)
    if 0 < c <= 16:
        return norm(xp(x, norm(j - c)) * z3.Product([x] * c))
    name = f"XP[{ekey(x)}^{ekey(j)}]"
    if name not in SUMS:
        SUMS[name] = ("xp", j, x, None)
        v = z3.Int(name)
        FACT_HOOK[0](name, v >= 0, v < Q)
        core.CANON[name] = "1*q"
        p = poly(x)
        if len(p.d) == 1 and all((a, "q") in core.UNITS for m in p.d for a, _ in m):
            core.UNITS.add((name, "q"))
    return z3.Int(name)


def is_ite(a):
    return a.decl().kind() == z3.Z3_OP_ITE


def is_unit(e):
    """e is known to be non-zero modulo q"""
    p = poly(e)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        return abs(c) == 1 and all(unit_atom(a) for a, _ in m)
    fs = split_factors(e)
    if len(fs) > 1:
        return all(is_unit(f) for f, _ in fs)
    return decided_ne0(e)


def decided_ne0(e):
    f = core.res_eq(Res(QMOD, e=e), Res(QMOD, e=z3.IntVal(0)))
    if z3.is_false(f):
        return True
    pc = CUR[0].pc if CUR[0] is not None else []
    return any(x.eq(z3.simplify(z3.Not(f))) for x in pc) or check(pc, z3.Not(f), 1500) == "proved"


def unit_atom(a):
    if (a, "q") in core.UNITS:
        return True
    e = Poly.ATOMS[a]
    if e.num_args() == 2 and e.decl().name() == "INV":
        return is_unit(e.arg(0))
    if is_ite(e):
        c, x, y = e.children()
        st = CUR[0].copy() if CUR[0] is not None else State()
        old, ok_ = CUR[0], True
        try:
            for g, v in ((c, x), (z3.simplify(z3.Not(c)), y)):
                s = st.copy()
                s.pc = s.pc + [g]
                CUR[0] = s
                ok_ = ok_ and is_unit(v)
        finally:
            CUR[0] = old
        return ok_
    return decided_ne0(e)


def split_factors(e):
    """[(factor, power)] of a residue: monomials factor by factor, inverses as negative powers, case distinctions against 1 factor by factor"""
    p = poly(strip_mod(e, QMOD))
    out = []
    if len(p.d) > 1:
        com = set.intersection(*[{a for a, _ in m} for m in p.d])
        if com:
            a = sorted(com)[0]
            rest = Poly({tuple((x, i - (x == a)) for x, i in m if i - (x == a)): c for m, c in p.d.items()})
            return split_factors(Poly.ATOMS[a]) + split_factors(rest.expr())
    if len(p.d) != 1:
        if p.d and sorted(p.d.items())[0][1] < 0:
            return [(z3.IntVal(-1), 1), (p.scale(-1).expr(), 1)]
        return [(p.expr(), 1)]
    (m, c), = p.d.items()
    if c != 1:
        out.append((z3.IntVal(c), 1))
    for a, n in m:
        x = Poly.ATOMS[a]
        if x.num_args() == 2 and x.decl().name() == "INV":
            out += [(y, -i * n) for y, i in split_factors(x.arg(0))]
        elif is_ite(x):
            g, t, f = x.children()
            if conc(t) == 1:
                out += [(canon_ite(g, z3.IntVal(1), y), i * n) for y, i in split_factors(f)]
            elif conc(f) == 1:
                out += [(canon_ite(g, y, z3.IntVal(1)), i * n) for y, i in split_factors(t)]
            else:
                out.append((x, n))
        else:
            out.append((x, n))
    return out


def canon_cond(c):
    c = z3.simplify(c)
    if z3.is_not(c):
        return z3.Not(canon_cond(c.arg(0)))
    if z3.is_eq(c) and isint(c.arg(0)):
        return core.idx_eq(c.arg(0), c.arg(1))
    if z3.is_and(c) or z3.is_or(c):
        xs = sorted((canon_cond(x) for x in c.children()), key=skey)
        return (z3.And if z3.is_and(c) else z3.Or)(xs)
    return norm(c)


def canon_ite(c, a, b):
    c = canon_cond(c)
    if z3.is_not(c):
        c, a, b = c.arg(0), b, a
    a, b = norm(a), norm(b)
    if eqpoly(a, b) or z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return z3.If(c, a, b)


def inv_q(e):
    """1/e modulo q"""
    s = z3.IntVal(1)
    p = poly(e)
    if conc(e) in (1, -1):
        return e
    if p.d and sorted(p.d.items())[0][1] < 0:
        s, e = z3.IntVal(-1), p.scale(-1).expr()
        p = poly(e)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        r = z3.IntVal(1) if c == 1 else INV(z3.IntVal(c), Q)
        for a, n in m:
            x = Poly.ATOMS[a]
            y = x.arg(0) if x.num_args() == 2 and x.decl().name() == "INV" else INV(x, Q)
            for _ in range(n):
                r = r * y
        return norm(s * r)
    return norm(s * INV(norm(e), Q))


def prod_(n, body):
    """product of body(j), 0 <= j < n, modulo q"""
    def single(n, body):
        with at_index(n) as k:
            fs = split_factors(body(k))
            units = [is_unit(f) for f, _ in fs]
        r = z3.IntVal(1)
        for (f, i), u in zip(fs, units):
            if not depends(ekey(f), k):
                x = xp(f, n)
            else:
                x = symbol("PROD", n, ekey(f), f, k, 1)
                if u:
                    core.UNITS.add((str(x.decl().name()), "q"))
            for _ in range(abs(i)):
                r = r * (x if i > 0 else inv_q(x))
        return norm(r)
    return strip_mod(over(n, body, lambda a, b: norm(a * b), single, z3.IntVal(1)), QMOD)


def psum(n, body):
    """sum of the points body(j), 0 <= j < n"""
    def single(n, body):
        with at_index(n) as k:
            w = as_word(body(k))
        r = {}
        for b, (bs, x) in w.items():
            if not depends(b, k):
                r = wmul(GROUP, r, {b: (bs, sum_at(n, x, k))})
                continue
            for m, c in poly(strip_mod(x, QMOD)).d.items():
                out = Poly({tuple(y for y in m if not depends(y[0], k)): c})
                dep = Poly({tuple(y for y in m if depends(y[0], k)): 1})
                name = bind(f"PSUM[{ekey(n)}|{b}^{dep.key()}]", k)
                SUMS.setdefault(name, ("psum", n, (bs, dep.expr()), k))
                r = wmul(GROUP, r, {name: (name, out.expr())})
        return Res(GROUP, w=r)
    return over(n, body, res_add, single, Res(GROUP, w={}))


def sum_at(n, x, k):
    """sum of the expression x over its index k"""
    def b(j):
        if j.eq(k):
            return x
        raise Unsupported("re-indexing")
    r = Poly()
    for m, c in poly(strip_mod(x, QMOD)).d.items():
        out = Poly({tuple(y for y in m if not depends(y[0], k)): c})
        dep = tuple(y for y in m if depends(y[0], k))
        if not dep:
            r = r + out * poly(n)
        else:
            d = Poly({dep: 1})
            r = r + out * poly(symbol("SUM", n, d.key(), d.expr(), k, 0))
    return r.expr()


# ---------------------------------------------------------------- affine steps
ACC = "acc~"


def acc_name(ex):
    return f"{ACC}{next(ex.ids)}"


def name_in(r):
    return str(r.e) if r.m.name == "q" else next(iter(r.w))


def leaf(v):
    """path of the single residue in a value, and the residue"""
    q = ()
    while isinstance(v, Agg):
        rs = [i for i, x in enumerate(v.fs) if not isinstance(x, Agg) or x.fs]
        if len(rs) != 1:
            raise NotAffine("accumulator is not a single residue")
        q += (rs[0],)
        v = v.fs[rs[0]]
    if not isinstance(v, Res) or v.m.name not in ("q", "G"):
        raise NotAffine("accumulator is not a scalar or point")
    return q, v


def acc_var(m, name):
    return Res(QMOD, e=z3.Int(name)) if m.name == "q" else Res(GROUP, w={name: (name, z3.IntVal(1))})


def affine(v, name):
    """(multiplier, summand) of a residue that is affine in the accumulator `name`"""
    if v.m.name == "q":
        m, e = Poly(), Poly()
        for k, c in poly(as_int(v)).d.items():
            kd = dict(k)
            i = kd.pop(name, 0)
            if i > 1 or any(name in a for a in kd):
                raise NotAffine("step is not affine")
            t = Poly({tuple(sorted(kd.items())): c})
            if i:
                m = m + t
            else:
                e = e + t
        return m.expr(), e.expr()
    w = dict(as_word(v))
    b, x = w.pop(name, (None, z3.IntVal(0)))
    if any(name in k or name in ekey(y) for k, (_, y) in w.items()):
        raise NotAffine("step is not affine")
    return x, Res(GROUP, w=w)


def merge_affine(outs, grp):
    """alternatives (conditions, m, e) -> one pair"""
    if not outs:
        raise NotAffine("no step completes")
    m, e = outs[-1][1:]
    for cs, m1, e1 in reversed(outs[:-1]):
        c = z3.simplify(z3.And(cs)) if cs else TRUE
        m = canon_ite(c, m1, m)
        if grp:
            w1, w2 = as_word(e1), as_word(e)
            e = Res(GROUP, w={b: (w1.get(b, w2.get(b))[0], canon_ite(c, w1[b][1] if b in w1 else z3.IntVal(0), w2[b][1] if b in w2 else z3.IntVal(0))) for b in set(w1) | set(w2)})
        else:
            e = canon_ite(c, e1, e)
    return m, e


def closed(n, init, lin, grp, ordered=True):
    """the accumulator after n steps: lin(j) -> (m, e); init: residue"""
    c = small(n)
    if c is not None and c <= 64:
        acc = init
        for j in range(max(c, 0)):
            m, e = lin(z3.IntVal(j))
            acc = res_add(core.res_pow(acc, m), e) if grp else Res(QMOD, e=norm(as_int(acc) * m + e))
        return acc
    try:
        with at_index(n) as k:
            m, e = lin(k)
    except NeedSplit as x:
        b = boundary(x, n)
        mid = closed(b, init, lin, grp, ordered)
        return closed(norm(n - b), mid, lambda j: lin(norm(j + b)), grp, ordered)
    add, total = (res_add, psum) if grp else (lambda a, b: norm(a + b), sum_)
    i0 = init if grp else as_int(init)
    if conc(m) == 1:
        r = add(i0, total(n, lambda j: lin(j)[1]))
    elif not grp and eqpoly(e, z3.IntVal(0)):
        r = norm(i0 * prod_(n, lambda j: lin(j)[0]))
    elif ordered and not depends(ekey(m), k):
        # Horner: summand j is multiplied by m once for every later step
        last = norm(n - 1)
        N = n
        absorbed = False
        try:
            _, em = lin(z3.IntVal(-1))
            absorbed = key(em if grp else Res(QMOD, e=em)) == key(init)
        except Unsupported:
            pass
        if absorbed:
            N = norm(n + 1)
        if grp:
            r = psum(N, lambda i: core.res_pow(lin(norm(last - i))[1], xp(m, i)))
            if not absorbed:
                r = res_add(r, core.res_pow(init, xp(m, n)))
        else:
            r = sum_(N, lambda i: norm(lin(norm(last - i))[1] * xp(m, i)))
            if not absorbed:
                r = norm(r + i0 * xp(m, n))
    else:
        raise NotAffine("recurrence without closed form")
    return r if grp else Res(QMOD, e=r)


def fold_symbolic(ex, st, s, init, f, early=None):
    """[(state, value)] of folding f over s from init; a step may end the fold: early(outcome of the step) = (continues?, value)"""
    q, r0 = leaf(init)
    nm = acc_name(ex)
    grp = r0.m.name == "G"
    snap = st.copy()
    before = dict(snap.mem)
    memo, panics = {}, {}

    def steps(j, ranged=True):
        s1 = snap.copy()
        s1.rp, s1.nr = f"{snap.rp}{snap.nr}:[{key(j)}]", 0
        s1.pc = list(CUR[0].pc) if CUR[0] is not None else s1.pc
        base = len(s1.pc)
        outs, bad = [], []
        for s2, x in elem_outs(ex, s1, s, j):
            if isinstance(x, Panic):
                bad.append((s2.pc[base:], x))
                continue
            acc = put_at(init, q, acc_var(r0.m, nm))
            if isinstance(x, Op) and x.tag == "skip":
                outs.append((s2.pc[base:], acc))
                continue
            if True:
                for s4, v in f(s2, acc, x):
                    if isinstance(v, Panic):
                        if any(ACC in n for c in s4.pc[base:] for n in core.consts_of(c) | core.bools_of(c)):
                            raise NotAffine("panic depends on the accumulator")
                        bad.append((s4.pc[base:], v))
                        continue
                    if early is not None:
                        go, v = early(v)
                        if not go:
                            if any(ACC in n for c in s4.pc[base:] for n in core.consts_of(c) | core.bools_of(c)) or ACC in key(v):
                                raise NotAffine("an early exit depends on the accumulator")
                            bad.append((s4.pc[base:], v))
                            continue
                    for cell in before:
                        if s4.mem[cell] is not before[cell] and key(s4.mem[cell]) != key(before[cell]):
                            raise Unsupported("folded closure mutates its environment")
                    for cell, val in s4.mem.items():
                        if cell not in before:
                            ex.gmem[cell] = val
                    outs.append((s4.pc[base:], ex.deref(s4, v)))
        return outs, bad

    def lin(j):
        k = key(j)
        pk = frozenset(c.get_id() for c in (CUR[0].pc if CUR[0] is not None else ()))
        if (k, pk) not in memo:
            old = CUR[0]
            try:
                outs, bad = steps(j)
            finally:
                CUR[0] = old
            panics[k] = bad
            res = []
            for cs, v in outs:
                q2, r = leaf(v)
                if q2 != q:
                    raise NotAffine("accumulator changes shape")
                res.append((cs,) + affine(r, nm))
            memo[k, pk] = merge_affine(res, grp)
        return memo[k, pk]
    CUR[0] = st
    val = put_at(init, q, closed(s.n, r0, lin, grp, not s.keep))
    res = [(st, val)]
    # a step may panic at some index
    j = z3.Int(f"i!{next(ex.ids)}")
    old = CUR[0]
    s0 = st.copy()
    s0.pc = s0.pc + [j >= 0, z3.simplify(j < s.n)]
    CUR[0] = s0
    try:
        _, bad = steps(j)
    finally:
        CUR[0] = old
    mark = z3.Bool(f"early@{st.rp}{st.nr}") if ex.in_map and early is not None and bad else None
    for cs, p in bad:
        if feasible(s0.pc + cs):
            s2 = s0.copy()
            s2.pc = s0.pc + cs + ([mark] if mark is not None else [])
            res.append((s2, p))
    if mark is not None:
        st.pc.append(z3.Not(mark))
    st.nr += 1
    return res


def reduce_symbolic(ex, st, s, f):
    """reduce(f) where f adds points or scalars, or multiplies scalars: the fold from the neutral element"""
    kind, shape = set(), []

    def step(s1, acc, x):
        outs = []
        for s2, v in f(s1, acc, x):
            if not isinstance(v, Panic):
                v = ex.deref(s2, v)
                _, r = leaf(v)
                m, e = affine(r, name_in(leaf(acc)[1]))
                xr = leaf(ex.deref(s2, x))[1]
                if conc(m) == 1 and res_key(e if isinstance(e, Res) else Res(QMOD, e=e)) == res_key(xr):
                    kind.add("sum")
                elif xr.m.name == "q" and eqpoly(m, as_int(xr)) and eqpoly(e, z3.IntVal(0)):
                    kind.add("product")
                else:
                    raise NotAffine("reduction is neither a sum nor a product")
            outs.append((s2, v))
        return outs
    # shape of the elements, and which of the two it is

    def look(s1, k):
        for s2, x in elem_outs(ex, s1, s, k):
            if isinstance(x, Panic) or (isinstance(x, Op) and x.tag == "skip"):
                continue
            x = ex.deref(s2, x)
            q, r = leaf(x)
            shape.append((x, q, r.m))
            step(s2, put_at(x, q, acc_var(r.m, acc_name(ex))), x)
    try:
        with at_index(s.n) as k:
            s1 = st.copy()
            s1.pc = list(core.CUR[0].pc)
            look(s1, k)
    except NeedSplit as e:
        if e.cut is None:
            raise
        look(st.copy(), z3.IntVal(0))       # (two sequences put together: `step` sees the elements of both below)
    if len(kind) != 1:
        raise NotAffine("reduction is neither a sum nor a product")
    x, q, m = shape[0]
    zero = put_at(x, q, Res(GROUP, w={}) if m.name == "G" else Res(QMOD, e=z3.IntVal(0 if kind == {"sum"} else 1)))
    r = [(s1, v if isinstance(v, Panic) else Agg("reduced", [v, zero])) for s1, v in fold_symbolic(ex, st, s, zero, step)]
    if len(kind) != 1:
        raise NotAffine("reduction is neither a sum nor a product")
    return r
