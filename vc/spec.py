"""Contracts of crate functions, symbolic inputs from the types of the signature, and the obligations generated from them."""
import os, re, subprocess, time, itertools
from lib import *
from ext import IF, decided
import ext, core
from mir import ts as ts0

CONTRACTS = {}       # path -> Contract
INVS = {}            # adt path -> builder(ex, st, ty args, name) -> value with its type invariant assumed in st.pc
PANICS = Op("PANIC")
ANY = Op("ANY")

SSG, PSG, SUN = "uint::secret_signed::SecretSigned", "uint::public_signed::PublicSigned", "uint::secret_unsigned::SecretUnsigned"
SEC = "tools::secret::Secret"
PUI = "uint::public_uint::PublicUint"
SCAL, PNT = "curve::arithmetic::Scalar", "curve::arithmetic::Point"


class Report:
    def __init__(self):
        self.obs = []        # (name, status, detail)
        self.undecided = []  # (function, reason)
        self.fns = {}

    def ob(self, name, status, detail="", secs=0.0):
        self.obs.append({"name": name, "status": status, "detail": detail, "secs": round(secs, 3)})

    def failed(self):
        return [o for o in self.obs if o["status"] == "refuted"]


USED_ADTS = set()
USED_CONTRACTS = set()


def mk(adt, mir, **kw):
    """aggregate of a struct by field names"""
    USED_ADTS.add(adt)
    fs = mir.adts[adt]["variants"][0][1]
    if len(fs) != len(kw):
        raise Unsupported(f"the fields of {adt} are not those of the specification")
    return Agg(adt, [kw[n] for n, _ in fs])


def fld(mir, v, name):
    USED_ADTS.add(v.tag)
    return v.fs[mir.field(v.tag, name)]


def put(mir, v, name, x):
    return v.put(mir.field(v.tag, name), x)


# ---------------------------------------------------------------- symbolic values of a type
def builder(*paths):
    def d(f):
        for p in paths:
            INVS[p] = f
        return f
    return d


def targs(t):
    return [x for x in t[2] if x != ("lt",)]


def fresh(ex, st, t, name):
    """an arbitrary value of type t (satisfying the type's invariant)"""
    if isinstance(t, str):
        if t == "bool":
            return z3.Bool(name)
        lo, hi = INT_RANGES[t]
        x = z3.Int(name)
        fact(name, x >= lo, x <= hi) if name not in FACT else None
        return x
    k = t[0]
    if k in ("ref", "ptr"):
        if t[2] == ("other", "dyn") or (isinstance(t[2], tuple) and t[2][0] in ("dyn", "other")):
            return ex.ref(st, Op("rng"), t[1])
        return ex.ref(st, fresh(ex, st, t[2], name), t[1])
    if k == "tuple":
        return Agg("tuple", [fresh(ex, st, x, f"{name}.{i}") for i, x in enumerate(t[1])])
    if k == "array":
        n = t[2]
        if n[0] == "cval":
            if n[1] <= 64 and t[1] != "u8":
                return Seq(items=[fresh(ex, st, t[1], f"{name}[{i}]") for i in range(n[1])])
            return fresh_seq(ex, st, t[1], z3.IntVal(n[1]), name)
        return fresh_seq(ex, st, t[1], ex.cparam(n[1]), name)
    if k == "slice":
        n = z3.Int(f"len({name})")
        fact(str(n), n >= 0, n < 2 ** 60) if str(n) not in FACT else None
        return fresh_seq(ex, st, t[1], n, name)
    if k == "adt":
        p = t[1]
        if p.endswith("subtle::Choice"):
            return z3.Bool(name)
        if p in INVS:
            return INVS[p](ex, st, t, name)
        if p in WRAPPERS and p != SEC:
            return fresh(ex, st, targs(t)[0], name)
        if p == "alloc::vec::Vec":
            return fresh(ex, st, ("slice", targs(t)[0]), name)
        if p == "core::marker::PhantomData":
            return Agg(p, ())
        if p in ex.mir.adts and len(ex.mir.adts[p]["variants"]) == 1:
            env = ex.env_of(ex.mir.adts[p]["generics"], t[2]) if "generics" in ex.mir.adts[p] else {}
            fs = []
            for n, ft in ex.mir.adts[p]["variants"][0][1]:
                fs.append(fresh(ex, st, sub(tup(ft), env), f"{name}.{n}"))
            return Agg(p, fs)
        if p.endswith("crypto_bigint::Uint"):
            return fresh_uint(ex, st, t, name)
    if k == "param" and t[1] in ("I", "Id"):
        return Agg("pid", [z3.Int(name)])
    if k in ("param", "alias"):
        s = ext.ts(t)
        if s.endswith("CurveArithmetic::Scalar>"):
            return fresh_scalar(name)
        if s.endswith("CurveArithmetic::ProjectivePoint>") or s.endswith("CurveArithmetic::AffinePoint>"):
            return gpoint(name)
        return fresh_uint(ex, st, t, name)
    if k == "other":
        return Op("rng")
    raise Unsupported(f"symbolic value of type {ext.ts(t)}")


def fresh_seq(ex, st, el, n, name):
    if el == "u8":
        x = z3.Int(name)
        if name not in FACT:
            fact(name, x >= 0, x < p256(n))
        return BE(x, n)

    def at(j):
        s2 = State()
        s2.mem = st.mem
        v = fresh(ex, s2, el, f"{name}[{key(j)}]")
        return v
    return Seq(n=n, f=at, key=f"{name}[..{key(n)}]")


def fresh_uint(ex, st, t, name):
    x = z3.Int(name)
    if name not in FACT:
        fact(name, x >= 0, x < P2(norm(bits_of(t))))
    return x


def fresh_scalar(name):
    x = z3.Int(name)
    if name not in FACT:
        fact(name, x >= 0, x < Q)
    core.CANON[name] = "1*q"
    return Res(QMOD, e=x)


def signed_parts(B, name, bound=None):
    b = z3.Int(f"bound({name})")
    x = z3.Int(name)
    if name not in FACT:
        fact(str(b), b >= 0, b <= B - 1)
        fact(name, x < P2(b), -x < P2(b), P2(b) <= P2(norm(B - 1)))
    return b, W(x, B)


@builder(SSG)
def b_ssg(ex, st, t, name):
    B = bits_of(targs(t)[0])
    b, w = signed_parts(B, name)
    return mk(SSG, ex.mir, bound=b, value=Agg(SEC, [w]))


@builder(PSG)
def b_psg(ex, st, t, name):
    B = bits_of(targs(t)[0])
    b, w = signed_parts(B, name)
    return mk(PSG, ex.mir, bound=b, value=w)


@builder(SUN)
def b_sun(ex, st, t, name):
    B = bits_of(targs(t)[0])
    b, x = z3.Int(f"bound({name})"), z3.Int(name)
    if name not in FACT:
        fact(str(b), b >= 0, b <= B)
        fact(name, x >= 0, x < P2(b), P2(b) <= P2(norm(B)))
    return mk(SUN, ex.mir, bound=b, value=Agg(SEC, [x]))


@builder(SEC)
def b_sec(ex, st, t, name):
    return Agg(SEC, [fresh(ex, st, targs(t)[0], name)])


@builder(SCAL)
def b_sc(ex, st, t, name):
    return Agg(SCAL, [fresh_scalar(name)])


@builder(PNT)
def b_pt(ex, st, t, name):
    return Agg(PNT, [gpoint(name)])


# accessors
def sval(mir, v):
    """signed integer value of a SecretSigned / PublicSigned"""
    x = fld(mir, v, "value")
    if isinstance(x, Agg):
        x = x.fs[0]
    return x


def mk_ss(mir, e, B, bound):
    return mk(SSG, mir, bound=norm(iv(bound)), value=Agg(SEC, [W(norm(iv(e)), B)]))


def mk_ps(mir, e, B, bound):
    return mk(PSG, mir, bound=norm(iv(bound)), value=W(norm(iv(e)), B))


# ---------------------------------------------------------------- contracts
class A:
    """view of a call: argument values behind references, generic environment"""
    def __init__(self, ex, st, vals, env):
        self.ex, self.st, self.env, self.raw = ex, st, env, vals
        self.v = [ex.deref(st, v) for v in vals]
        self.mir = ex.mir

    def __getitem__(self, i):
        return self.v[i]

    def B(self, g):
        return bits_of(self.env.get(g, ("param", g)))

    def signed(self, i):
        v = self.v[i]
        w = sval(self.mir, v)
        return w.e if isinstance(w, W) else w

    def bound(self, i):
        return fld(self.mir, self.v[i], "bound")


class Rel:
    """relational result: `make(a, st)` builds a fresh result at a call site, `test(a, st, v)` gives the goals for a body's result"""
    def __init__(self, make, test):
        self.make, self.test = make, test


class Eff:
    """result together with new values of the referents of `&mut` arguments"""
    def __init__(self, value, writes):
        self.value, self.writes = value, writes


def inv_key(ex, v):
    w = sval(ex.mir, v)
    return (key(w.e), w.B) if isinstance(w, W) else (key(w), None), fld(ex.mir, v, "bound")


def inv_known(ex, st, v):
    """the type invariant of v was established where v was made (postcondition of a verified contract)"""
    k, b = inv_key(ex, v)
    return any(eqpoly(b, x) for x in st.inv.get(k, ()))


def note_inv(ex, st, v):
    if isinstance(v, Agg):
        if v.tag in (SSG, PSG, SUN):
            k, b = inv_key(ex, v)
            st.inv[k] = st.inv.get(k, ()) + (b,)
        else:
            for f in v.fs:
                note_inv(ex, st, f)


def below_p2(st, x, e):
    """|x| < 2^e follows from the invariant of a value that x was taken from"""
    k = key(norm(x))
    for (kx, B), bs in st.inv.items():
        if kx == k:
            for b in bs:
                if eqpoly(b, e) or check(st.pc, b <= e, 1000) == "proved":
                    return True
    return False


def lt_p2(st, x, e):
    return TRUE if below_p2(st, x, e) else z3.And(x < P2(norm(e)), -x < P2(norm(e)))


class Contract:
    def __init__(self, path, cases, pre=None, props=(), use=True, args=None, split=None, envs=None):
        self.path, self.cases, self.pre, self.props, self.use, self.args, self.split, self.envs = path, cases, pre, props, use, args, split, envs

    def apply(self, ex, st, vals, env):
        if not self.use:
            return None
        a = A(ex, st, vals, env)
        pres = list(self.pre(a)) if self.pre else []
        for v in a.v:
            if isinstance(v, Agg) and v.tag in (SSG, PSG, SUN) and not inv_known(ex, st, v):
                pres += [g for _, g in inv_goals(ex, v)]
        for p in pres:
            p = z3.simplify(p)
            if not z3.is_true(p) and check(st.pc, p, 3000) != "proved":
                return None
        res = []
        USED_CONTRACTS.add(self.path)
        cs = self.cases(a)
        for cond, exp in cs:
            if exp is ANY and feasible(st.pc + [z3.simplify(cond)]):
                return None
        for i, (cond, exp) in enumerate(cs):
            cond = z3.simplify(cond)
            if z3.is_false(cond) or not feasible(st.pc + [cond]):
                continue
            s = st.copy() if len(cs) > 1 else st
            if len(cs) > 1 and not z3.is_true(cond):
                s.pc.append(cond)
            v = self.result(ex, s, a, exp)
            note_inv(ex, s, v)
            res.append((s, v))
        if len(res) == 1 and len(cs) > 1:
            s, v = res[0]
            s.pc = list(st.pc)
        return res

    def result(self, ex, s, a, exp):
        if exp is PANICS:
            return Panic("stated by the contract of " + self.path)
        if isinstance(exp, Rel):
            return exp.make(A(ex, s, a.raw, a.env), s)
        if isinstance(exp, Eff):
            for i, v in exp.writes.items():
                r = ex.lastref(s, a.raw[i])
                ex.write(s, r.cell, r.proj, v.make(a, s) if isinstance(v, Rel) else v)
            return self.result(ex, s, a, exp.value)
        return exp


def contract(path, props=(), pre=None, use=True, args=None, split=None, envs=None):
    def d(f):
        for p in ([path] if isinstance(path, str) else path):
            CONTRACTS[p] = Contract(p, f, pre, props, use, args, split, envs)
        return f
    return d


# ---------------------------------------------------------------- goals
def eq_goals(ex, s, got, exp, label="result"):
    """list of (label, goal) whose conjunction says got == exp (up to wrappers)"""
    if exp is ANY:
        return []
    if isinstance(exp, Rel):
        return exp.test(s, got)
    while isinstance(got, Ref) and not isinstance(exp, Ref):
        got = ex.deref(s, got)
    while isinstance(exp, Ref):
        exp = ex.deref(s, exp)
        got = ex.deref(s, got)
    if isinstance(exp, Agg) and exp.tag == CTO and isinstance(got, Agg) and got.tag == CTO:
        c = z3.simplify(exp.fs[1])
        gs = [(label + ".is_some", got.fs[1] == exp.fs[1])]
        return gs + [(l, z3.Implies(exp.fs[1], g)) for l, g in eq_goals(ex, s, got.fs[0], exp.fs[0], label)] if not z3.is_false(c) else gs
    if isinstance(exp, Agg) and isinstance(got, Agg):
        if exp.tag != got.tag or exp.var != got.var or len(exp.fs) != len(got.fs):
            return [(f"{label}: variant {exp.var} of {exp.tag} expected, got {got.var} of {got.tag}", FALSE)]
        r = []
        for i, (x, y) in enumerate(zip(got.fs, exp.fs)):
            n = label
            if isinstance(exp.tag, str) and exp.tag in ex.mir.adts:
                n = f"{label}.{ex.mir.adts[exp.tag]['variants'][exp.var][1][i][0]}"
            elif exp.tag == "tuple":
                n = f"{label}.{i}"
            r += eq_goals(ex, s, x, y, n)
        return r
    if isinstance(exp, Res) and isinstance(got, Res):
        return [(label, res_goal(got, exp))]
    if isinstance(exp, Seq) and isinstance(got, Seq) and not (isinstance(exp, BE) or isinstance(got, BE)):
        if exp.items is not None and got.items is not None:
            if len(exp.items) != len(got.items):
                return [(label + ".len", FALSE)]
            return [g for i, (x, y) in enumerate(zip(got.items, exp.items)) for g in eq_goals(ex, s, x, y, f"{label}[{i}]")]
        if key(got) != key(exp):
            EQDEPTH[0] += 1
            j = z3.Int("j!" if EQDEPTH[0] == 1 else f"j!at{EQDEPTH[0]}")

            def elements(cs):
                old = core.CUR[0]
                s2 = s.copy()
                s2.pc = s2.pc + cs
                core.CUR[0] = s2
                try:
                    return [(l, z3.Implies(z3.And(cs), g)) for l, g in eq_goals(ex, s2, got.at(j), exp.at(j), label + "[j]")]
                except NeedSplit as e:
                    if len(cs) > 12:
                        raise
                    r = []
                    for c in (e.cond, z3.Not(e.cond)):
                        if feasible(s2.pc + [c]):
                            r += elements(cs + [c])
                    return r
                finally:
                    core.CUR[0] = old
            try:
                return [(label + ".len", got.n == exp.n)] + elements([j >= 0, j < exp.n])
            finally:
                EQDEPTH[0] -= 1
        return [(label, TRUE)]
    return [(label, ext.veq(got, exp))]


EQDEPTH = [0]


def res_goal(a, b):
    """a sufficient condition for a == b: equal exponents of every base"""
    if a.m.name != b.m.name:
        return FALSE
    e = res_eq(a, b)
    if z3.is_true(e):
        return TRUE
    m = a.m
    if m.kind == "int" and a.w is None and b.w is None and m.sq is None:
        d = strip_mod(a.e - b.e, m)
        return z3.Or(e, d == 0, MOD(norm(d), norm(m.e)) == 0)
    w = wmul(m, as_word(a), as_word(b), -1)
    alts = [e]
    cs = []
    for k, (bs, x) in w.items():
        cs.append(x == 0 if m.kind != "group" else z3.Or(x == 0, MOD(norm(x), Q) == 0))
    alts.append(z3.And(cs))
    if m.kind == "int" and a.w is None and b.w is None:
        alts.append(strip_mod(a.e - b.e, m) == 0)
    return z3.Or(alts)


MODEL = None


RETRY = [1]


def prove(rep, name, hyps, goal, timeout=12000):
    """proved / refuted (the solver gives a counter-model) / unknown"""
    t = time.time()
    r = check(hyps, goal, timeout)
    if r == "unknown" and RETRY[0]:
        r = check(hyps, goal, timeout * 4)
    dt = time.time() - t
    if r == "proved":
        rep.ob(name, "proved", "", dt)
        return True
    if isinstance(r, tuple):
        rep.ob(name, "refuted", "goal " + short(str(goal).replace("\n", " "), 1500) + "; counter-model: " + short(str(r[1]).replace("\n", " "), 2500), dt)
    else:
        rep.ob(name, "unknown", "goal " + short(str(goal).replace("\n", " "), 600), dt)
    return False


_uid = itertools.count(1)


def inputs(ex, path, env=None, args=None, uniq=True):
    f = ex.mir.fns[path]
    b = ex.mir.body("fn", path)
    if env is None:
        env = {}
    st = State()
    uid = next(_uid)
    st.rp = f"@{uid}."
    names = {d[1][0]: d[0] for d in b["dbg"] if not d[1][1]}
    vals = []
    for i in range(b["argc"]):
        t = sub(b["locals"][i + 1], env)
        n0 = n = names.get(i + 1, f"a{i + 1}")
        if uniq:
            n = f"{n}@{uid}"
        if args and n0 in args:
            vals.append(args[n0](ex, st, t, n))
        elif args and i in args:
            vals.append(args[i](ex, st, t, n))
        else:
            vals.append(fresh(ex, st, t, n))
    return st, vals, env


def verify(ex, rep, c, timeout=12000):
    """every obligation of contract c against the body in the MIR"""
    path = c.path
    t0 = time.time()
    if path not in ex.mir.fns:
        rep.undecided.append((path, "function not found"))
        return
    n0 = len(rep.obs)
    ex.active = {path}
    try:
        envs = c.envs(ex) if c.envs else [{}]
        for k, e in enumerate(envs):
            st, vals, env = inputs(ex, path, e, c.args)
            a = A(ex, st, vals, env)
            if c.pre:
                st.pc += [z3.simplify(p) for p in c.pre(a)]
            for spl in itertools.product(*[(x, z3.Not(x)) for x in (c.split(a) if c.split else [])]):
                s2 = st.copy()
                s2.pc += spl
                if feasible(s2.pc):
                    inst = "" if len(envs) == 1 else f" [instance {k}]"
                    verify1(ex, rep, c, s2, vals, env, timeout, inst + "".join(f" [{short(str(x), 40)}]" for x in spl))
    except Unsupported as e:
        rep.undecided.append((path, str(e)[:400]))
        del rep.obs[n0:]
    finally:
        ex.active = set()
    rep.fns[path] = {"obligations": len(rep.obs) - n0, "secs": round(time.time() - t0, 2)}


def verify1(ex, rep, c, st, vals, env, timeout, tag):
    path = c.path
    if True:
        CUR[0] = st
        a = A(ex, st, vals, env)
        cs = c.cases(a)
        if not feasible(st.pc):
            rep.undecided.append((path, "the precondition is contradictory"))
            return
        outs = ex.exec_body(st, "fn", path, ex.mir.body("fn", path), env, vals)
        # the cases cover everything
        prove(rep, f"{path}: cases of the contract are exhaustive", st.pc, z3.Or([cd for cd, _ in cs]), timeout)
        for i, (cond, exp) in enumerate(cs):
            if exp is ANY:
                continue
            reached = 0
            for k, (s, v) in enumerate(outs):
                pc = s.pc + [cond]
                if not feasible(pc):
                    continue
                reached += 1
                CUR[0] = s
                nm = f"{path}{tag}: case {i}, path {k}"
                if exp is PANICS:
                    if isinstance(v, Panic):
                        rep.ob(nm + ": fails", "proved")
                    else:
                        prove(rep, nm + ": must not return", pc, FALSE, timeout)
                    continue
                if isinstance(v, Panic):
                    prove(rep, nm + f": no panic ({v.why})", pc, FALSE, timeout)
                    continue
                if isinstance(exp, Eff):
                    for ai, w in exp.writes.items():
                        for l, g in (w.test(s, ex.deref(s, vals[ai])) if isinstance(w, Rel) else eq_goals(ex, s, vals[ai], w, f"*arg{ai}")):
                            prove(rep, f"{nm}: {l}", pc, g, timeout)
                    e2 = exp.value
                else:
                    e2 = exp
                gs = e2.test(A(ex, s, vals, env), s, v) if isinstance(e2, Rel) else eq_goals(ex, s, v, e2)
                for l, g in gs:
                    prove(rep, f"{nm}: {l}", pc, g, timeout)
                if not isinstance(e2, Rel):
                    for l, g in inv_goals(ex, e2):
                        prove(rep, f"{nm}: {l}", pc, g, timeout)
            if not reached and feasible(st.pc + [cond]):
                rep.ob(f"{path}: case {i} reachable", "unknown", "no path reaches this case")


def inv_goals(ex, v, cond=TRUE):
    """type invariants of a result"""
    r = []
    if isinstance(v, Agg):
        if v.tag == CTO:
            return inv_goals(ex, v.fs[0], z3.And(cond, v.fs[1]))
        if v.tag in (SSG, PSG):
            w = sval(ex.mir, v)
            b = fld(ex.mir, v, "bound")
            if isinstance(w, W):
                r.append((f"invariant: |value| < 2^bound, bound < BITS", z3.Implies(cond, z3.And(w.e < P2(norm(b)), -w.e < P2(norm(b)), b >= 0, b < w.B))))
            else:
                r.append((f"invariant: value < 2^bound", z3.Implies(cond, z3.And(w < P2(norm(b)), b >= 0))))
            return r
        if v.tag == SUN:
            x = sval(ex.mir, v)
            r.append(("invariant: value < 2^bound", z3.Implies(cond, z3.And(x >= 0, x < P2(norm(fld(ex.mir, v, "bound")))))))
            return r
        for f in v.fs:
            r += inv_goals(ex, f, cond)
    return r


# ---------------------------------------------------------------- properties proved by composing contracts / symbolic runs of several functions
THEOREMS = {}        # name -> (props, function(ex, rep))


def theorem(name, props):
    def d(f):
        THEOREMS[name] = (tuple(props), f)
        return f
    return d


def run_theorem(ex, rep, name):
    t0, n0 = time.time(), len(rep.obs)
    ex.active = set()
    try:
        THEOREMS[name][1](ex, rep)
        if len(rep.obs) == n0:
            rep.undecided.append((name, "no obligation was generated"))
    except Unsupported as e:
        rep.undecided.append((name, str(e)[:400]))
        del rep.obs[n0:]
    rep.fns[name] = {"obligations": len(rep.obs) - n0, "secs": round(time.time() - t0, 2)}


LEMMAS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lemmas")
_lean = {}


def lemma(rep, file, *names):
    """theorems about all fields, groups and sizes, checked by Lean (with Mathlib): /verif/lemmas/FILE.lean"""
    if file not in _lean:
        try:
            p = subprocess.run(["lean", file + ".lean"], cwd=LEMMAS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
        except (OSError, subprocess.TimeoutExpired) as e:
            raise Unsupported(f"Lean is not available: {e}")
        _lean[file] = (p.returncode, p.stdout)
    rc, out = _lean[file]
    if rc or "error" in out:
        raise Unsupported(f"Lean does not accept {file}.lean: {out[:300]}")
    for n in names:
        ax = re.search(rf"'{re.escape(n)}' (?:depends on axioms: \[([^\]]*)\]|does not depend)", out)
        if not ax or set((ax.group(1) or "propext").replace("\n", " ").split(", ")) - {"propext", "Classical.choice", "Quot.sound"}:
            raise Unsupported(f"Lean has no proof of {n} in {file}.lean")
        rep.ob(f"lemmas/{file}.lean: {n}", "proved", "Lean")


def signature(mir, path):
    """types of arguments and result, to recognise a function whose interface is no longer the specified one"""
    b = mir.fns[path]["body"]
    names = {d[1][0]: d[0] for d in b["dbg"] if not d[1][1]}
    return [ts0(tup(b["locals"][i])) for i in range(b["argc"] + 1)]


def layout(mir, adt):
    return [[v[0], [[n, ts0(tup(t))] for n, t in v[1]]] for v in mir.adts[adt]["variants"]] if adt in mir.adts else None
