"""Verification equations, transcripts and completeness of the zero-knowledge proofs (src/zk)"""
from spec import *
from c_paillier import *
import copy, core, ext, re
import c_keys, c_enc
from c_bits import bit_of, nbytes, BV

PB = z3.Int("PRIME_BITS")
L_, LP_, EPS_ = NB, norm(PB + NB), norm(PB - 2 * NB)
Z = "zk::"


# ---------------------------------------------------------------- inputs
def b_struct(over):
    """a struct whose fields are arbitrary, except those given"""
    def f(ex, st, t, name):
        while t[0] == "ref":
            return ex.ref(st, f(ex, st, t[2], name), t[1])
        p = t[1]
        USED_ADTS.add(p)
        env = ex.env_of(ex.mir.adts[p]["generics"], t[2]) if "generics" in ex.mir.adts[p] else {}
        fs = []
        names = [n for n, _ in ex.mir.adts[p]["variants"][0][1]]
        if set(over) - set(names):
            raise Unsupported(f"the fields of {p} are not those of the specification")
        for n, ft in ex.mir.adts[p]["variants"][0][1]:
            fs.append((over.get(n) or fresh)(ex, st, sub(tup(ft), env), f"{name}.{n}"))
        return Agg(p, fs)
    return f


def via_ref(b):
    def f(ex, st, t, name):
        while t[0] == "ref":
            return ex.ref(st, f(ex, st, t[2], name), t[1])
        return b(ex, st, t, name)
    return f


def under(kn, b):
    """a value under the Paillier key called kn"""
    return via_ref(lambda ex, st, t, n: b(ex, st, modulus_int(kn + "@" + n.split("@")[1].split(".")[0]), n))


def key_as(kn):
    return under(kn, lambda ex, st, N, n: mk_pk(ex, N))


def ctx_under(kn):
    return under(kn, b_ctx_for)


def rnd_under(kn):
    return under(kn, b_rnd_for)


# ---------------------------------------------------------------- runs
class Run:
    """one symbolic run of a function of a proof module"""
    def __init__(self, ex, path, args=None, st=None, vals=None, setup=None):
        if path not in ex.mir.fns:
            raise Unsupported(f"{path} not found")
        self.ex, self.mir, self.path = ex, ex.mir, path
        b = ex.mir.body("fn", path)
        self.names = {d[1][0]: d[0] for d in b["dbg"] if not d[1][1]}
        if vals is None:
            st, vals, _ = inputs(ex, path, {}, args)
        self.st, self.vals = st, vals
        self.arg = {self.names.get(i + 1, i): v for i, v in enumerate(vals)}
        if setup:
            setup(self)

    def go(self):
        CUR[0] = self.st
        self.outs = self.ex.exec_body(self.st, "fn", self.path, self.ex.mir.body("fn", self.path), {}, self.vals)
        return self

    def __getitem__(self, path):
        """value of an argument or of a field in it: 'public.cap_c'"""
        ps = path.split(".")
        if ps[0] not in self.arg:
            raise Unsupported(f"no argument {ps[0]} in {self.path}")
        v = self.ex.deref(self.st, self.arg[ps[0]])
        for p in ps[1:]:
            v = self.ex.deref(self.st, fld(self.mir, v, p))
        return v

    def num(self, path):
        v = sval(self.mir, self[path])
        return v.e if isinstance(v, W) else v

    def word(self, path):
        """integer inside a wire value"""
        return unwrap(self[path])

    def key(self, path):
        return pk_n(self.ex, self[path])

    def res(self, path):
        """residue inside a scalar, point or ciphertext"""
        v = self[path]
        if v.tag == CTX:
            return fld(self.mir, v, "ciphertext")
        return unwrap(v)

    def setup(self):
        v = self["setup"]
        return (unwrap(fld(self.mir, fld(self.mir, v, "modulus"), "modulus")), fld(self.mir, v, "base_value"), fld(self.mir, v, "base_randomizer"))


def unwrap(v):
    while isinstance(v, Agg):
        if not v.fs:
            raise Unsupported(f"no value in {v!r}")
        v = v.fs[0]
    return v


def points_in(ex, st, v, out, depth=0):
    if depth > 8:
        return out
    if isinstance(v, Ref):
        points_in(ex, st, ex.deref(st, v), out, depth + 1)
    elif isinstance(v, Agg):
        if v.tag == PNT:
            out.append(v.fs[0])
        else:
            for f in v.fs:
                points_in(ex, st, f, out, depth + 1)
    return out


def zero_pt():
    return Res(GROUP, w={})


def hyps_of(r):
    """points decoded from a message or checked by the caller are not the neutral element; wire values of a proof are units"""
    hs = []
    for v in r.vals:
        for p in points_in(r.ex, r.st, v, []):
            hs.append(z3.Not(res_eq(p, zero_pt())))
    return hs


def units_of(outs):
    ns = set()
    for s, _ in outs:
        for f in s.pc:
            ns |= {n for n in core.bools_of(f) if n.startswith("{unit ")}
    return [z3.Bool(n) for n in sorted(ns)]


def chals_in(pcs, extra=()):
    ns = set()
    for f in pcs:
        ns |= core.consts_of(f)
        for n in core.bools_of(f):
            for x in XOFS:
                if x in n:
                    ns.add(x)
    return sorted(n for n in ns if n in XOFS)


def the_challenge(outs):
    """the one value drawn from the transcript that the outcome depends on"""
    ns = set()
    for s, v in outs:
        ns |= set(chals_in(s.pc + ([v] if isbool(v) else [])))
    if len(ns) != 1:
        raise Unsupported(f"{len(ns)} values drawn from the transcript where one is specified")
    return ns.pop()


# ---------------------------------------------------------------- equations
def rint(m, e):
    return Res(m, e=iv(e))


def prodw(m, *rs):
    w = {}
    for r in rs:
        w = wmul(m, w, as_word(r))
    return Res(m, w=w)


def powr(r, x):
    return Res(r.m, w=wpow(r.m, as_word(r), iv(x)))


def eq_word(m, lhs, rhs):
    return res_eq(prodw(m, *lhs), prodw(m, *rhs))


def gmul(r):
    """multiple of the generator"""
    return res_pow(gen(), r)


def rng_ok(v, e):
    """v in [-2^(e-1)+1, 2^(e-1)]"""
    e = norm(iv(e))
    return z3.And(v >= 1 - P2(norm(e - 1)), v <= P2(norm(e - 1)))


# ---------------------------------------------------------------- the two directions
def inst(F, j):
    """the hypothesis that a loop (or `all`) over a sequence went on at index j"""
    alts = [z3.And(list(ps) + [TRUE]) for ps, _ in F.at(j)]
    return [z3.Implies(z3.And(j >= 0, j < F.n), z3.Or(alts) if alts else FALSE)]


def index_consts(fs):
    ns = set()
    for f in fs:
        ns |= {n for n in core.consts_of(f) if n.startswith("i!")}
        for t in core.bools_of(f):
            ns |= set(re.findall(r"i!\d+", t))
    return [z3.Int(n) for n in sorted(ns)]


def decide(rep, nm, r, hyps, conds, accept=lambda v: v):
    """accepts exactly when all conditions hold; never panics under the hypotheses.
    conds: (label, condition) or (label, n, f): f(j) for every 0 <= j < n"""
    hyps = hyps + units_of(r.outs)
    acc = 0
    specs = [c[1] for c in conds if len(c) == 2]
    fam = [c for c in conds if len(c) == 3]
    i0 = z3.Int("i!any")
    for k, (s, v) in enumerate(r.outs):
        pc = s.pc + hyps
        if isinstance(v, Panic):
            prove(rep, f"{nm}: path {k}: no panic ({v.why})", pc, FALSE)
            continue
        b = accept(v)
        if not isbool(b):
            raise Unsupported(f"outcome {b!r}"[:200])
        yes, no = pc + [b], pc + [z3.Not(b)]
        if feasible(yes):
            acc += 1
            fs = []
            for F in s.foralls:
                fs += inst(F, i0)
            us = units_of([(State0(fs), None)])
            for c in conds:
                if c[0][0] == "~":      # representation detail: may be required, need not be
                    continue
                if len(c) == 2:
                    prove(rep, f"{nm}: accepting path {k} implies {c[0]}", yes, c[1])
                else:
                    prove(rep, f"{nm}: accepting path {k} implies in every round {c[0]}", yes + fs + us, z3.Implies(z3.And(i0 >= 0, i0 < c[1]), c[2](i0)))
        if not z3.is_true(z3.simplify(b)) and feasible(no):
            at = [z3.Implies(z3.And(j >= 0, j < c[1]), c[2](j)) for j in index_consts(no) for c in fam]
            prove(rep, f"{nm}: rejecting path {k} contradicts the specification", no + specs + at, FALSE)
    if acc == 0:
        rep.ob(f"{nm}: some path accepts", "refuted", "no feasible accepting path: honest proofs are rejected")
    else:
        rep.ob(f"{nm}: some path accepts", "proved")


class State0:
    def __init__(self, pc):
        self.pc = pc


# ---------------------------------------------------------------- transcript
def items_of(dg):
    return list(dg.args)


def payloads(it):
    """the values an item of the transcript encodes injectively"""
    if it.tag == "len":
        return [it]
    if it.tag == "each":
        # every element j! is hashed on its own, in the form given
        return sum((payloads(x) for x in it.args[1].args), [])
    out = []
    for x in it.args:
        out += flat(x)
    return out


def flat(x):
    if isinstance(x, Opaque):
        return flat(x.op)
    if isinstance(x, Op):
        if x.tag in ("bytes", "sec1", "raw", "val"):
            return flat(x.args[0])
        return [x]
    if isinstance(x, Seq) and as_be(x) is not None and not (x.items is not None and len(x.items) == 0):
        b = as_be(x)
        return [b.v]
    if isinstance(x, Agg) and len(x.fs) == 1:
        return flat(x.fs[0])
    return [x]


def tag_of(dg):
    """bytes of the domain tag (first items of the transcript)"""
    for it in dg.args[:3]:
        for x in it.args:
            if isinstance(x, Seq) and x.items is not None and len(x.items) >= 2 and all(conc(b) is not None for b in x.items):
                return bytes(conc(b) for b in x.items)
    return None


def transcript(rep, nm, ex, dg, want, deep=None):
    """every wanted value is encoded in the transcript"""
    have, text = set(), []
    for it in dg.args:
        for p in payloads(it):
            have.add(key(p))
        text.append(key(it))
    whole = "\n".join(text)
    for l, v in want:
        ks = {key(x) for x in flat(v)} | {key(v)}
        if isinstance(v, Res) and v.m.kind == "int":
            ks |= {key(retrieve(v)), key(as_int(v))}
        if ks & have:
            rep.ob(f"{nm}: the challenge depends on {l}", "proved")
            continue
        names = set()
        for k in ks:
            names.add(k)
        base = inner_names(v)
        if any(n in whole for n in base):
            rep.ob(f"{nm}: the challenge depends on {l}", "unknown", "occurs in the transcript in a form the checker does not recognise as injective")
        else:
            rep.ob(f"{nm}: the challenge depends on {l}", "refuted", f"{l} does not occur in the hashed transcript: " + short(whole, 1500))


def inner_names(v):
    if isinstance(v, Res):
        return inner_names(v.e) if v.e is not None else [k for k in v.w]
    if isint(v):
        return sorted(core.consts_of(v)) or [key(v)]
    if isinstance(v, Agg):
        return sum((inner_names(x) for x in v.fs), [])
    return [key(v)]


def dst(rep, nm, ex, mod, dg):
    """the domain tag differs from the tags of the other proofs"""
    t = tag_of(dg)
    if t is None:
        rep.ob(f"{nm}: domain tag", "unknown", "no constant tag at the head of the transcript")
        return
    others = {}
    for p in ex.mir.consts:
        if p.startswith("zk::") and p.split("::")[1] != mod:
            st = State()
            try:
                v = ex.deref(st, ex.assoc_const(st, p, (), p, (), None))
            except (Unsupported, KeyError, AttributeError):
                continue
            if isinstance(v, Seq) and v.items is not None and all(isint(x) and conc(x) is not None for x in v.items):
                others[p] = bytes(conc(x) for x in v.items)
    same = [p for p, b in others.items() if b == t]
    rep.ob(f"{nm}: the domain tag is not shared with another proof", "refuted" if same else ("proved" if len(others) >= 6 else "unknown"), f"tag {t!r} also used as {same}" if same else f"{len(others)} other tags found")


# ---------------------------------------------------------------- verify: specifications
def rewrap(v, x):
    """x inside the newtypes of v"""
    if isinstance(x, Agg):
        return x
    return Agg(v.tag, [rewrap(v.fs[0], x)], v.var) if isinstance(v, Agg) and len(v.fs) == 1 else x


def with_field(r, path, x):
    """the same run with the field `path` of an argument replaced"""
    q = copy.copy(r)
    q.st = r.st.copy()
    a, *ps = path.split(".")
    ref = r.ex.lastref(q.st, r.arg[a])

    def go(v, ps):
        return rewrap(v, x) if not ps else put(r.mir, v, ps[0], go(fld(r.mir, v, ps[0]), ps[1:]))
    r.ex.write(q.st, ref.cell, ref.proj, go(r.ex.read(q.st, ref.cell, ref.proj), ps))
    q.st.rp = r.st.rp
    return q


def one_draw(r):
    """the challenge is computed from one value drawn from the transcript"""
    ch = the_challenge(r.outs)
    r.E = z3.Int(ch)
    return XOFS[ch]


def vspec(mod, adt, over, conds, bind, props, chal, pre=None, drawn=one_draw):
    """chal: (field that holds the challenge, the challenge as the transcript gives it)"""
    path = f"{Z}{mod}::{adt}::<P>::verify"

    @theorem(f"{Z}{mod}: verify accepts exactly the stated relation", props)
    def f(ex, rep):
        XOFS.clear()
        r = Run(ex, path, over, setup=(lambda r: r.st.pc.extend(pre(r))) if pre else None).go()
        nm = f"{adt}::verify"
        dg, pos, ln = drawn(r)
        r.draw = (dg, pos, ln)
        if drawn is mod_draw:
            rep.ob(f"{nm}: every challenge is a draw of its own", "proved" if "j!" in key(norm(pos)) else "refuted", f"drawn at {pos}")
        if drawn is one_draw:
            rep.ob(f"{nm}: the challenge is the first draw from the transcript", "proved" if conc(norm(pos)) == 0 else "refuted", f"drawn at {pos}")
        hyps = hyps_of(r)
        # a challenge other than the recomputed one is refused
        l0, same = conds(r)[0][:2]
        hs = hyps + units_of(r.outs) + [z3.Not(same)]
        for k, (s, v) in enumerate(r.outs):
            if isinstance(v, Panic):
                prove(rep, f"{nm}: path {k}: no panic ({v.why})", s.pc + hs, FALSE)
            elif not z3.is_false(v):
                prove(rep, f"{nm}: accepting path {k} implies {l0}", s.pc + hs + [v], FALSE)
        # the challenge is the recomputed one: whichever of the two the code goes on with, the verdict is the same
        q = with_field(r, chal[0], chal[1](r)).go()
        q.draw = r.draw
        decide(rep, nm, q, hyps, conds(q))
        transcript(rep, nm, ex, dg, bind(r))
        dst(rep, nm, ex, mod, dg)
    return f


def c_scalar(r):
    return rint(QMOD, r.E)


def ring(r):
    N, s, t = r.setup()
    return mod_n(N), s, t


def c_enc_elg(r):
    N = r.key("public.pk0")
    m2 = mod_n2(N)
    mh, s, t = ring(r)
    e = r.E
    P = r.res
    z1, z3_ = r.num("self.z1"), r.num("self.z3")
    return [("the challenge is the recomputed one", res_eq(P("self.e"), rint(QMOD, e))),
            ("z1 in range", rng_ok(z1, L_ + EPS_)),
            ("enc(z1; z2) = D + C*e", eq_word(m2, [enc_word(N, z1, r.word("self.z2"))], [rint(m2, r.word("self.cap_d")), powr(P("public.cap_c"), e)])),
            ("A*w + g*z1 = Y + X*e", eq_word(GROUP, [powr(P("public.cap_a"), as_int(P("self.w"))), gmul(z1)], [P("self.cap_y"), powr(P("public.cap_x"), e)])),
            ("g*w = Z + B*e", eq_word(GROUP, [gmul(as_int(P("self.w")))], [P("self.cap_z"), powr(P("public.cap_b"), e)])),
            ("s^z1 t^z3 = T S^e", eq_word(mh, [powr(s, z1), powr(t, z3_)], [rint(mh, r.word("self.cap_t")), powr(rint(mh, r.word("self.cap_s")), e)]))]


def b_setup(r):
    N, s, t = r.setup()
    return [("the setup modulus", N), ("the setup base s", s), ("the setup base t", t)]


def b_aux(r):
    return [("the auxiliary data", r["aux"])]


def b_enc_elg(r):
    return [(f"self.{n}", r.word(f"self.{n}")) for n in ("cap_s", "cap_d", "cap_y", "cap_z", "cap_t")] + \
           [("the public key", r.key("public.pk0")), ("C", r.res("public.cap_c"))] + [(f"public.{n}", r.res(f"public.{n}")) for n in ("cap_a", "cap_b", "cap_x")] + b_setup(r) + b_aux(r)


vspec("enc_elg", "EncElgProof", {"public": b_struct({"pk0": key_as("N0"), "cap_c": ctx_under("N0")})}, c_enc_elg, b_enc_elg, ["C13"], ("self.e", c_scalar))


def c_elog(r):
    P, e = r.res, r.E
    z, u = as_int(P("self.z")), as_int(P("self.u"))
    return [("the challenge is the recomputed one", res_eq(P("self.e"), rint(QMOD, e))),
            ("g*z = A + L*e", eq_word(GROUP, [gmul(z)], [P("self.cap_a"), powr(P("public.cap_l"), e)])),
            ("g*u + X*z = N + M*e", eq_word(GROUP, [gmul(u), powr(P("public.cap_x"), z)], [P("self.cap_n"), powr(P("public.cap_m"), e)])),
            ("h*u = B + Y*e", eq_word(GROUP, [powr(P("public.h"), u)], [P("self.cap_b"), powr(P("public.cap_y"), e)]))]


def b_elog(r):
    return [(f"self.{n}", r.res(f"self.{n}")) for n in ("cap_a", "cap_n", "cap_b")] + [(f"public.{n}", r.res(f"public.{n}")) for n in ("cap_l", "cap_m", "cap_x", "cap_y", "h")] + b_aux(r)


vspec("elog", "ElogProof", {}, c_elog, b_elog, ["C17"], ("self.e", c_scalar))


def c_aff_g(r):
    N0, N1 = r.key("public.pk0"), r.key("public.pk1")
    m0, m1 = mod_n2(N0), mod_n2(N1)
    mh, s, t = ring(r)
    P, e = r.res, r.E
    z1, z2, z3_, z4 = [r.num(f"self.z{i}") for i in (1, 2, 3, 4)]
    wr = lambda n: rint(mh, r.word("self." + n))
    return [("the challenge is the recomputed one", res_eq(P("self.e"), rint(QMOD, e))),
            ("z1 in range", rng_ok(z1, L_ + EPS_)), ("z2 in range", rng_ok(z2, LP_ + EPS_)),
            ("C*z1 + enc0(z2; w) = A + D*e", eq_word(m0, [powr(P("public.cap_c"), z1), enc_word(N0, z2, r.word("self.w"))], [rint(m0, r.word("self.cap_a")), powr(P("public.cap_d"), e)])),
            ("g*z1 = Bx + X*e", eq_word(GROUP, [gmul(z1)], [P("self.cap_b_x"), powr(P("public.cap_x"), e)])),
            ("enc1(z2; wy) = By - Y*e", eq_word(m1, [enc_word(N1, z2, r.word("self.w_y"))], [rint(m1, r.word("self.cap_b_y")), powr(P("public.cap_y"), -e)])),
            ("s^z1 t^z3 = E S^e", eq_word(mh, [powr(s, z1), powr(t, z3_)], [wr("cap_e"), powr(wr("cap_s"), e)])),
            ("s^z2 t^z4 = F T^e", eq_word(mh, [powr(s, z2), powr(t, z4)], [wr("cap_f"), powr(wr("cap_t"), e)]))]


def b_aff_g(r):
    return [(f"self.{n}", r.word(f"self.{n}")) for n in ("cap_a", "cap_b_x", "cap_b_y", "cap_e", "cap_f", "cap_s", "cap_t")] + \
           [("the public key 0", r.key("public.pk0")), ("the public key 1", r.key("public.pk1"))] + [(f"public.{n}", r.res(f"public.{n}")) for n in ("cap_c", "cap_d", "cap_y", "cap_x")] + b_setup(r) + b_aux(r)


AFFG = {"pk0": key_as("N0"), "pk1": key_as("N1"), "cap_c": ctx_under("N0"), "cap_d": ctx_under("N0"), "cap_y": ctx_under("N1")}
vspec("aff_g", "AffGProof", {"public": b_struct(AFFG)}, c_aff_g, b_aff_g, ["C14"], ("self.e", c_scalar))


def c_sch(r):
    P, e = r.res, r.E
    return [("the challenge is the recomputed one", res_eq(P("self.challenge"), rint(QMOD, e))),
            ("g*z = C + X*e", eq_word(GROUP, [gmul(as_int(P("self.proof")))], [P("commitment"), powr(P("cap_x"), e)]))]


def b_sch(r):
    return [("the commitment", r.res("commitment")), ("X", r.res("cap_x"))] + b_aux(r)


vspec("sch", "SchProof", {}, c_sch, b_sch, ["C17"], ("self.challenge", c_scalar))


def c_fac(r):
    N0 = r.key("pk0")
    mh, s, t = ring(r)
    x = r.E
    e = r.num("self.e")
    e2 = 1 + MOD(x, P2(NB)) - P2(norm(NB - 1))
    wr = lambda n: rint(mh, r.word("self." + n))
    z1, z2 = r.num("self.z1"), r.num("self.z2")
    bd = L_ + EPS_ + PB - 2
    return [("the challenge is the recomputed one", e == e2), ("~bound", fld(r.mir, r["self.e"], "bound") == L_),
            ("z1 in range", rng_ok(z1, bd)), ("z2 in range", rng_ok(z2, bd)),
            ("s^z1 t^w1 = A P^e", eq_word(mh, [powr(s, z1), powr(t, r.num("self.w1"))], [wr("cap_a"), powr(wr("cap_p"), e)])),
            ("s^z2 t^w2 = B Q^e", eq_word(mh, [powr(s, z2), powr(t, r.num("self.w2"))], [wr("cap_b"), powr(wr("cap_q"), e)])),
            ("Q^z1 t^v = T (s^N0)^e", eq_word(mh, [powr(wr("cap_q"), z1), powr(t, r.num("self.v"))], [wr("cap_t"), powr(s, N0 * e)]))]


def e_fac(r):
    return mk_ps(r.mir, 1 + MOD(r.E, P2(NB)) - P2(norm(NB - 1)), BU, L_)


def b_fac(r):
    return [(f"self.{n}", r.word(f"self.{n}")) for n in ("cap_p", "cap_q", "cap_a", "cap_b", "cap_t")] + [("the public key", r.key("pk0"))] + b_setup(r) + b_aux(r)


vspec("fac", "FacProof", {}, c_fac, b_fac, ["C18"], ("self.e", e_fac))


# proofs in rounds: one challenge bit each
def bits(r, n):
    """challenge bits as the transcript gives them"""
    x = BE(r.E, nbytes(n))
    return Seq(n=n, f=lambda j: bit_of(x, j))


def elems(r, path):
    v = r[path]
    while isinstance(v, Agg):
        v = r.ex.deref(r.st, v.fs[0])
    if not isinstance(v, Seq):
        raise Unsupported(f"{path} is no sequence")
    return v


def seqs_equal(r, a, b):
    return ext.veq(a, b)


def el(r, v, *path):
    for p in path:
        v = r.ex.deref(r.st, fld(r.mir, r.ex.deref(r.st, v), p))
    return v


def el_num(r, v, p):
    x = sval(r.mir, el(r, v, p))
    return x.e if isinstance(x, W) else x


def opt(m, e, r):
    """r if the bit e is set, one otherwise"""
    return lambda lhs, rhs: z3.If(e, eq_word(m, lhs, rhs + [r]), eq_word(m, lhs, rhs))


def c_dec(r):
    N = r.key("public.pk0")
    m = mod_n2(N)
    n = L_
    e = bits(r, n)
    K, D = r.res("public.cap_k"), r.res("public.cap_d")
    X, S, G = r.res("public.cap_x"), r.res("public.cap_s"), r.res("public.cap_g")
    cs, es = elems(r, "self.commitments"), elems(r, "self.elements")
    z = lambda j: el_num(r, es.at(j), "z")
    w = lambda j: el_num(r, es.at(j), "w")
    clog = BITS(norm(r["public.num_parties"] - 1))
    return [("the challenge is the recomputed one", seqs_equal(r, e, elems(r, "self.e"))), ("one commitment per round", cs.n == n), ("one response per round", es.n == n),
            ("enc(w; nu) - K*z = A + D*e", n, lambda j: opt(m, e.at(j), D)([enc_word(N, w(j), unwrap(el(r, es.at(j), "nu"))), powr(K, -z(j))], [rint(m, unwrap(el(r, cs.at(j), "cap_a")))])),
            ("g*z = C + X*e", n, lambda j: opt(GROUP, e.at(j), X)([gmul(z(j))], [unwrap(el(r, cs.at(j), "cap_c"))])),
            ("G*w = B + S*e", n, lambda j: opt(GROUP, e.at(j), S)([powr(G, w(j))], [unwrap(el(r, cs.at(j), "cap_b"))])),
            ("z in range", n, lambda j: rng_ok(z(j), L_ + EPS_)),
            ("w in range", n, lambda j: rng_ok(w(j), LP_ + EPS_ + 1 + clog + EPS_))]


def b_rounds(r, seq, **f):
    """fields of every element of a hashed sequence"""
    s = elems(r, seq)
    j = z3.Int("j!")
    return [(f"{seq}[j].{n}", g(el(r, s.at(j), n))) for n, g in f.items()] + [(f"the length of {seq}", Op("len", s.n))]


def b_dec(r):
    return b_rounds(r, "self.commitments", cap_a=unwrap, cap_b=unwrap, cap_c=unwrap) + [("the public key", r.key("public.pk0"))] + \
        [(f"public.{n}", r.res(f"public.{n}")) for n in ("cap_k", "cap_x", "cap_d", "cap_s", "cap_g")] + b_setup(r) + b_aux(r)


def p_dec(r):
    n = r["public.num_parties"]
    b = BITS(norm(n - 1))
    # 1 <= n - 1 < 2^20, so its bit length is between 1 and 20
    return [n >= 2, n <= 2 ** 20, b >= 1, b <= 20]


vspec("dec", "DecProof", {"public": b_struct({"pk0": key_as("N0"), "cap_k": ctx_under("N0"), "cap_d": ctx_under("N0")})}, c_dec, b_dec, ["C16"], ("self.e", lambda r: bits(r, L_)), pre=p_dec)


def c_aff_g_star(r):
    N0, N1 = r.key("public.pk0"), r.key("public.pk1")
    m0, m1 = mod_n2(N0), mod_n2(N1)
    n = L_
    e = bits(r, n)
    C, D, Y, X = [r.res("public.cap_" + x) for x in "cdyx"]
    cs, es = elems(r, "self.commitments"), elems(r, "self.elements")
    z = lambda j: el_num(r, es.at(j), "z")
    zp = lambda j: el_num(r, es.at(j), "z_prime")
    u = lambda j, n: unwrap(el(r, es.at(j), n))
    return [("the challenge is the recomputed one", seqs_equal(r, e, elems(r, "self.e"))), ("one commitment per round", cs.n == n), ("one response per round", es.n == n),
            ("z in range", n, lambda j: rng_ok(z(j), L_ + EPS_)), ("z' in range", n, lambda j: rng_ok(zp(j), LP_ + EPS_)),
            ("C*z + enc0(z'; w) = A + D*e", n, lambda j: opt(m0, e.at(j), D)([powr(C, z(j)), enc_word(N0, zp(j), u(j, "w"))], [rint(m0, unwrap(el(r, cs.at(j), "cap_a")))])),
            ("g*z = R + X*e", n, lambda j: opt(GROUP, e.at(j), X)([gmul(z(j))], [unwrap(el(r, cs.at(j), "cap_r"))])),
            ("enc1(z'; lambda) = B - Y*e", n, lambda j: opt(m1, e.at(j), powr(Y, -1))([enc_word(N1, zp(j), u(j, "lambda"))], [rint(m1, unwrap(el(r, cs.at(j), "cap_b")))]))]


def b_aff_g_star(r):
    return b_rounds(r, "self.commitments", cap_a=unwrap, cap_b=unwrap, cap_r=unwrap) + [("the public key 0", r.key("public.pk0")), ("the public key 1", r.key("public.pk1"))] + \
        [(f"public.{n}", r.res(f"public.{n}")) for n in ("cap_c", "cap_d", "cap_y", "cap_x")] + b_aux(r)


vspec("aff_g_star", "AffGStarProof", {"public": b_struct(AFFG)}, c_aff_g_star, b_aff_g_star, ["C15"], ("self.e", lambda r: bits(r, L_)))


def c_prm(r):
    N, s, t = r.setup()
    m = mod_n(N)
    n = z3.Int("SECURITY_BITS")
    e = bits(r, n)
    cs, es = elems(r, "self.commitment"), elems(r, "self.proof")
    return [("the challenge is the recomputed one", seqs_equal(r, e, elems(r, "self.challenge"))), ("one commitment per round", cs.n == n), ("one response per round", es.n == n),
            ("t^z = A s^e", n, lambda j: opt(m, e.at(j), s)([powr(t, unwrap(es.at(j)))], [rint(m, unwrap(cs.at(j)))]))]


def b_prm(r):
    s = elems(r, "self.commitment")
    return [("self.commitment[j]", unwrap(s.at(z3.Int("j!")))), ("the number of commitments", Op("len", s.n))] + b_setup(r) + b_aux(r)


vspec("prm", "PrmProof", {}, c_prm, b_prm, ["C20"], ("self.challenge", lambda r: bits(r, z3.Int("SECURITY_BITS"))))


def mod_challenge(r):
    """the challenge of the transcript: the real constructor on the same inputs"""
    p = Z + "mod_::ModChallenge::<P>::new"
    if p not in r.mir.fns:
        raise Unsupported(f"{p} not found")
    st = r.st.copy()
    outs = r.ex.exec_body(st, "fn", p, r.mir.body("fn", p), {}, [r.arg["pk"], r.ex.ref(st, r["self.commitment"]), r.arg["aux"]])
    if len(outs) != 1 or isinstance(outs[0][1], Panic):
        raise Unsupported("ModChallenge::new branches")
    return outs[0][1]


def mod_draw(r):
    r.C = mod_challenge(r)
    v = unwrap(r.C)
    if not isinstance(v, Seq):
        raise Unsupported("ModChallenge holds no sequence")
    x = unwrap(v.at(z3.Int("j!")))
    ns = [n for n in core.consts_of(x) if n in XOFS] if isint(x) else []
    if len(ns) != 1:
        raise Unsupported("the challenge residues are not draws from one transcript")
    return XOFS[ns[0]]


def c_mod(r):
    N = r.key("pk")
    m = mod_n(N)
    n = z3.Int("SECURITY_BITS")
    C = unwrap(r.C)
    es = elems(r, "self.proof")
    w = r.word("self.commitment")
    y = lambda j: rint(m, unwrap(C.at(j)))
    x = lambda j: rint(m, unwrap(el(r, es.at(j), "x")))
    z = lambda j: rint(m, unwrap(el(r, es.at(j), "z")))
    a, b = [(lambda j, t=t: el(r, es.at(j), t)) for t in "ab"]

    def root(j):
        r4 = powr(x(j), 4)
        eq = lambda s, e: res_eq(r4, rint(m, s * unwrap(C.at(j)) * (w if e else 1)))
        return z3.If(a(j), z3.If(b(j), eq(-1, 1), eq(-1, 0)), z3.If(b(j), eq(1, 1), eq(1, 0)))
    return [("the challenge is the recomputed one", seqs_equal(r, C, elems(r, "self.challenge"))),
            ("SECURITY_BITS challenges", C.n == n), ("one response per challenge", es.n == n),
            ("N is not prime", z3.Not(core.PRIME(norm(N)))), ("w is a unit modulo N", GCD(norm(N), norm(w)) == 1),
            ("z^N = y", n, lambda j: eq_word(m, [powr(z(j), N)], [y(j)])),
            ("x^4 = (-1)^a w^b y", n, root)]


def b_mod(r):
    return [("the public key", r.key("pk")), ("the commitment", r.word("self.commitment"))] + b_aux(r)


vspec("mod_", "ModProof", {"pk": key_as("N0")}, c_mod, b_mod, ["C19"], ("self.challenge", lambda r: r.C), drawn=mod_draw)


# ---------------------------------------------------------------- completeness: what `new` returns is accepted by `verify`
def named(n, f):
    """name of another input of the same run, e.g. secret.x"""
    return n.split("@")[0].split(".")[0], n


def wit(n, path):
    """constant of another input of the same run"""
    uid = n.split("@")[1].split(".")[0]
    a, _, rest = path.partition(".")
    return z3.Int(f"{a}@{uid}" + ("." + rest if rest else ""))


def b_const(f, wrap):
    """a public input determined by the witness: f(name) -> residue"""
    return via_ref(lambda ex, st, t, n: wrap(ex, n, f(n)))


def b_point(f):
    return b_const(f, lambda ex, n, r: Agg(PNT, [r]))


def b_cipher(kn, f):
    return under(kn, lambda ex, st, N, n: mk(CTX, ex.mir, pk=mk_pk(ex, N), ciphertext=f(n, N)))


def shared_N(n, kn):
    return modulus_int(kn + "@" + n.split("@")[1].split(".")[0])


def complete(mod, adt, over, pre, props, order=("public", "setup", "aux"), resp=(), post=lambda r, v: [], each=()):
    """honest inputs: `pre`; excluded events of negligible probability: a response outside its range (`resp`), a neutral element
    among the points of the first message"""
    pn, pv = f"{Z}{mod}::{adt}::<P>::new", f"{Z}{mod}::{adt}::<P>::verify"

    @theorem(f"{Z}{mod}: an honest proof is accepted", props)
    def f(ex, rep):
        XOFS.clear()
        nm = f"{adt}::new"

        def setup(r):
            r.st.pc += [z3.simplify(x) for x in pre(r)] + hyps_of(r)
        r = Run(ex, pn, over, setup=setup)
        if not feasible(r.st.pc):
            raise Unsupported("the hypotheses of the completeness theorem are contradictory")
        r.go()
        n_ok = 0
        for k, (s, v) in enumerate(r.outs):
            if isinstance(v, Panic):
                if "to_compressed_array" not in v.why:
                    prove(rep, f"{nm}: path {k}: no panic ({v.why})", s.pc + units_of([(s, v)]), FALSE)
                continue
            for n, e in resp:
                s.pc.append(rng_ok(inum(ex, s, v, n), e))
            s.pc += post(r, v)
            if not feasible(s.pc):
                continue
            vals = [ex.ref(s, v)] + [o(r, s) if callable(o) else r.arg[o] for o in order]
            rv = Run(ex, pv, st=s, vals=vals).go()
            hs = units_of(rv.outs)
            for i, (s2, b) in enumerate(rv.outs):
                pc = s2.pc + hs
                for seq, n, e in each:
                    xs = fld(ex.mir, v, seq)
                    while isinstance(xs, Agg):
                        xs = ex.deref(s, xs.fs[0])
                    for j in index_consts(pc):
                        pc = pc + in_range_at(ex, s2, xs, j, n, e(r) if callable(e) else e)
                if isinstance(b, Panic):
                    prove(rep, f"{adt}: verify after new, path {k}.{i}: no panic ({b.why})", pc, FALSE)
                else:
                    if feasible(pc + [b]):
                        n_ok += 1
                    prove(rep, f"{adt}: verify after new, path {k}.{i}: accepted", pc, b)
        rep.ob(f"{nm}: honest proofs exist", "proved" if n_ok else "refuted", "no accepting path")
    return f


def in_range_at(ex, s, xs, j, n, e):
    """the response n of round j lies in its range (under either branch of a closure that computes it)"""
    r = []
    for s2, x in ext.elem_outs(ex, s, xs, j):
        if not isinstance(x, Panic):
            new = s2.pc[len(s.pc):]
            r.append(z3.Implies(z3.And(list(new) + [TRUE]), rng_ok(inum(ex, s2, x, n), e)))
    return r


def inum(ex, s, v, n):
    v = ex.deref(s, v)
    for p in n.split("."):
        v = ex.deref(s, fld(ex.mir, v, p))
    v = sval(ex.mir, v)
    return v.e if isinstance(v, W) else v


def w_pt(*terms):
    """sum of (point | generator multiples): each term a residue of the group"""
    return prodw(GROUP, *terms)


ENC_ELG_PUB = {"pk0": key_as("N0"),
               "cap_c": b_cipher("N0", lambda n, N: enc_word(N, wit(n, "secret.x"), wit(n, "secret.rho"))),
               "cap_b": b_point(lambda n: gmul(wit(n, "secret.b"))),
               "cap_x": b_point(lambda n: w_pt(powr(gpoint("A@" + n.split("@")[1].split(".")[0]), wit(n, "secret.b")), gmul(wit(n, "secret.x")))),
               "cap_a": b_point(lambda n: gpoint("A@" + n.split("@")[1].split(".")[0]))}


def honest(r, **bits):
    """the secret integers lie in their ranges, and so do their declared bounds"""
    hs = []
    for n, e in bits.items():
        hs += [rng_ok(r.num("secret." + n), e), fld(r.mir, r["secret." + n], "bound") <= e]
    return hs


complete("enc_elg", "EncElgProof", {"secret": b_struct({"rho": rnd_under("N0")}), "public": b_struct(ENC_ELG_PUB)}, lambda r: honest(r, x=L_), ["C13"], resp=[("z1", norm(L_ + EPS_))])

AFF_G_PUB = {"pk0": key_as("N0"), "pk1": key_as("N1"), "cap_c": ctx_under("N0"),
             "cap_d": b_cipher("N0", lambda n, N: prodw(mod_n2(N), powr(Res(mod_n2(N), e=z3.Int(n.replace("cap_d", "cap_c"))), wit(n, "secret.x")), enc_word(N, -wit(n, "secret.y"), wit(n, "secret.rho")))),
             "cap_y": b_cipher("N1", lambda n, N: enc_word(N, wit(n, "secret.y"), wit(n, "secret.rho_y"))),
             "cap_x": b_point(lambda n: gmul(wit(n, "secret.x")))}
complete("aff_g", "AffGProof", {"secret": b_struct({"rho": rnd_under("N0"), "rho_y": rnd_under("N1")}), "public": b_struct(AFF_G_PUB)},
         lambda r: honest(r, x=L_, y=LP_), ["C14"], resp=[("z1", norm(L_ + EPS_)), ("z2", norm(LP_ + EPS_))])

ELOG_PUB = {"cap_l": b_point(lambda n: gmul(wit(n, "secret.lambda"))),
            "cap_m": b_point(lambda n: w_pt(gmul(wit(n, "secret.y")), powr(gpoint("X@" + n.split("@")[1].split(".")[0]), wit(n, "secret.lambda")))),
            "cap_x": b_point(lambda n: gpoint("X@" + n.split("@")[1].split(".")[0])),
            "cap_y": b_point(lambda n: powr(gpoint("H@" + n.split("@")[1].split(".")[0]), wit(n, "secret.y"))),
            "h": b_point(lambda n: gpoint("H@" + n.split("@")[1].split(".")[0]))}
complete("elog", "ElogProof", {"public": b_struct(ELOG_PUB)}, lambda r: [], ["C17"], order=("public", "aux"))

complete("sch", "SchProof", {"commitment": via_ref(lambda ex, st, t, n: Agg(t[1], [Agg(PNT, [gmul(wit(n, "proof_secret.0"))])])),
                             "cap_x": b_point(lambda n: gmul(z3.Int(n.replace("cap_x", "x"))))}, lambda r: [], ["C17"], order=("commitment", "cap_x", "aux"))

complete("fac", "FacProof", {}, lambda r: [], ["C18"], order=(lambda r, s: r.ex.ref(s, fld(r.mir, r["sk0"], "public_key")), "setup", "aux"),
         resp=[("z1", norm(L_ + EPS_ + PB - 2)), ("z2", norm(L_ + EPS_ + PB - 2))])


def b_setup_of(kn):
    """the ring-Pedersen parameters made from the secret: same modulus, s = t^lambda"""
    def f(ex, st, t, n):
        name = kn + "@" + n.split("@")[1].split(".")[0]
        N = modulus_int(name)
        tt = elem(f"t({n})", mod_n(N), True)
        lam = z3.Int(f"lambda({name})")
        return mk(RPP, ex.mir, modulus=mk_pm(ex, N), base_randomizer=tt, base_value=res_pow(tt, lam))
    return via_ref(f)


complete("prm", "PrmProof", {"setup": b_setup_of("secret")}, lambda r: [], ["C20"], order=("setup", "aux"))

AFFGS_PUB = {"pk0": key_as("N0"), "pk1": key_as("N1"), "cap_c": ctx_under("N0"), "cap_d": AFF_G_PUB["cap_d"],
             "cap_y": b_cipher("N1", lambda n, N: enc_word(N, wit(n, "secret.y"), wit(n, "secret.mu"))), "cap_x": AFF_G_PUB["cap_x"]}
complete("aff_g_star", "AffGStarProof", {"secret": b_struct({"rho": rnd_under("N0"), "mu": rnd_under("N1")}), "public": b_struct(AFFGS_PUB)},
         lambda r: honest(r, x=L_, y=LP_), ["C15"], order=("public", "aux"), each=[("elements", "z", norm(L_ + EPS_)), ("elements", "z_prime", norm(LP_ + EPS_))])


def clog(r):
    return BITS(norm(r["public.num_parties"] - 1))


def dec_y(r):
    return norm(LP_ + EPS_ + 1 + clog(r))


DEC_PUB = {"pk0": key_as("N0"), "cap_k": ctx_under("N0"),
           "cap_d": b_cipher("N0", lambda n, N: prodw(mod_n2(N), enc_word(N, wit(n, "secret.y"), wit(n, "secret.rho")), powr(Res(mod_n2(N), e=z3.Int(n.replace("cap_d", "cap_k"))), -wit(n, "secret.x")))),
           "cap_x": b_point(lambda n: gmul(wit(n, "secret.x"))),
           "cap_g": b_point(lambda n: gpoint("G@" + n.split("@")[1].split(".")[0])),
           "cap_s": b_point(lambda n: powr(gpoint("G@" + n.split("@")[1].split(".")[0]), wit(n, "secret.y")))}
complete("dec", "DecProof", {"secret": b_struct({"rho": rnd_under("N0")}), "public": b_struct(DEC_PUB)},
         lambda r: p_dec(r) + honest(r, x=L_, y=dec_y(r)), ["C16"], each=[("elements", "z", lambda r: norm(L_ + EPS_)), ("elements", "w", lambda r: norm(dec_y(r) + EPS_))])


# The Paillier-Blum proof: for primes p, q = 3 mod 4 every unit is plus or minus a square modulo p and modulo q, and the commitment has
# opposite signs (contract of random_nonsquare_residue). All sign patterns are run through, one at a time.
def mono_words(d, m):
    """the terms of a polynomial, as words modulo m; constants with a known residue are replaced by it"""
    r = []
    for k, c in poly(d).d.items():
        w = as_word(Res(m, e=c))
        for a, n in k:
            x = Res(m, e=Poly.ATOMS[a])
            if x.e is not None and x.e.num_args() == 0 and x.e.decl().name() in core._reps:
                x = core._reps[x.e.decl().name()]
            w = wmul(m, w, wpow(m, as_word(x), n))
        r.append(Res(m, w=w))
    return r


def crt(r, outs, p, q, N):
    """x = 0 mod p q exactly when it is 0 modulo both primes"""
    hs = []
    for s, v in outs:
        for f in s.pc + ([v] if isbool(v) else []):
            for n in core.bools_of(f):
                if n in core.ATOMS_DEF and core.ATOMS_DEF[n][0].name == mod_n(N).name and core.ATOMS_DEF[n][1] is not None:
                    d = core.ATOMS_DEF[n][1]
                    if len(d.d) == 2:
                        both = []
                        for m in (Mod(p), Mod(q)):
                            x, y = mono_words(d.expr(), m)
                            both.append(res_eq(x, prodw(m, Res(m, w=as_word(Res(m, e=z3.IntVal(-1)))), y)))
                        hs.append(z3.Bool(n) == z3.And(both))
    return hs


@theorem(f"{Z}mod_: an honest proof is accepted", ["C19"])
def t_mod(ex, rep):
    pn, pv = f"{Z}mod_::ModProof::<P>::new", f"{Z}mod_::ModProof::<P>::verify"
    n_ok = 0
    for sp in (1, -1):
        for sq in (1, -1):
            for sw in (1, -1):
                XOFS.clear()
                r = Run(ex, pn)
                sk = r["sk"]
                name = "sk@" + r.st.rp[1:-1]
                p, q, N, phi = c_enc.primes(name)
                mp, mq = Mod(p), Mod(q)
                added = []

                def hook(kind, x, M):
                    if not eqpoly(M, N):
                        return
                    k = list(dict(list(poly(x).d)[0]))[0]
                    for m, t, sg in ((mp, "p", sw if kind == "nonsquare" else sp), (mq, "q", -sw if kind == "nonsquare" else sq)):
                        g = elem(f"root({t}){x}", m, True)
                        core.CONG[(k, m.name)] = norm(sg * as_int(g) * as_int(g))
                        added.append((k, m.name))
                nm = f"ModProof::new, y = ({sp}, {sq}), w = ({sw}, {-sw})"
                minus = [z3.Not(res_eq(Res(m, e=z3.IntVal(-1)), Res(m, e=z3.IntVal(1)))) for m in (mp, mq)] + \
                        [z3.Not(res_eq(Res(m, w=as_word(Res(m, e=z3.IntVal(-1)))), Res(m, w={}))) for m in (mp, mq)]
                # the product of two primes is not prime
                r.st.pc += [z3.simplify(x) for x in minus] + [z3.Not(core.PRIME(norm(N)))]
                c_keys.HOOKS.append(hook)
                try:
                    if not feasible(r.st.pc):
                        raise Unsupported("the hypotheses of the completeness theorem are contradictory")
                    r.go()
                    hs = units_of(r.outs)
                    for k, (s, v) in enumerate(r.outs):
                        if isinstance(v, Panic):
                            prove(rep, f"{nm}: path {k}: no panic ({v.why})", s.pc + hs, FALSE)
                            continue
                        vals = [ex.ref(s, v), ex.ref(s, fld(ex.mir, sk, "public_key")), r.arg["aux"]]
                        rv = Run(ex, pv, st=s, vals=vals).go()
                        hv = hs + units_of(rv.outs) + crt(rv, rv.outs, p, q, N)
                        for i, (s2, b) in enumerate(rv.outs):
                            pc = s2.pc + hv
                            if isinstance(b, Panic):
                                prove(rep, f"{nm}: verify, path {k}.{i}: no panic ({b.why})", pc, FALSE)
                            else:
                                if feasible(pc + [b]):
                                    n_ok += 1
                                prove(rep, f"{nm}: verify, path {k}.{i}: accepted", pc, b)
                finally:
                    c_keys.HOOKS.remove(hook)
                    for x in added:
                        core.CONG.pop(x, None)
    rep.ob("ModProof::new: honest proofs exist", "proved" if n_ok >= 8 else "refuted", f"{n_ok} accepting paths")
