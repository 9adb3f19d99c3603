"""Transcript hashing (src/tools/hashing.rs): what is fed to the hash determines the transcript.

Each function that adds to a transcript is run on two arbitrary arguments. An item of a fixed width must be equal in
both runs; a string whose length is not fixed must come after something that determines its length. Under the equalities
that follow from equal byte strings the arguments must be equal. lemmas/Transcript.lean carries this to whole transcripts.
"""
from spec import *
from c_shares import run_fn, normal, with_opaque, id_set, by_ref
import core, ext, lib

H = "tools::hashing::"
HD = H + "Hasher::<D>::"
BITS32 = 2 ** 32


def before(x):
    return Op("digest", Op("before", z3.Int(x)))


def hasher(x):
    return lambda ex, st, t, name: (lambda v: ex.ref(st, v) if isinstance(t, tuple) and t[0] == "ref" else v)(Agg(H + "Hasher", [before(x)]))


def content(ex, st, v):
    """what has been fed to the hash"""
    while isinstance(v, (Agg, Ref)):
        v = ex.deref(st, v) if isinstance(v, Ref) else v.fs[0]
    if isinstance(v, Op) and v.tag == "digest":
        return v.args
    if isinstance(v, Op) and v.tag == "xof":
        return v.args[0].args
    if isinstance(v, BE) and z3.is_const(v.v) and str(v.v) in XOFS:
        return XOFS[str(v.v)][0].args
    raise Unsupported(f"digest expected, got {v!r}"[:120])


def word(s):
    """(width, value) of a byte string of a fixed width that encodes one integer"""
    if isinstance(s, Seq) and not isinstance(s, BE) and s.f is not None:
        x = s.at(z3.Int("j!"))
        if isinstance(x, Op) and x.tag.startswith("byte_"):
            return int(x.tag[7:]), x.args[0]
    return None


class Pair:
    """what two equal byte strings have in common"""

    def __init__(self, ex, rep, name, pc):
        self.ex, self.rep, self.name, self.pc, self.facts = ex, rep, name, pc, []

    def same_len(self, n, m, what):
        if key(norm(n)) != key(norm(m)):
            prove(self.rep, f"{self.name}: {what} delimits itself", self.pc + self.facts, n == m)

    def string(self, x, y, what):
        if isinstance(x, BE) and isinstance(y, BE):
            self.same_len(x.n, y.n, what)
            self.facts.append(x.v == y.v)
            return
        if isinstance(x, lib.Opaque) and isinstance(y, lib.Opaque) and x.op.tag == y.op.tag == "sec1" and key(x.op.args[1:]) == key(y.op.args[1:]):
            self.same_len(x.n, y.n, what)
            self.facts.append(core.res_eq(x.op.args[0], y.op.args[0]))
            return
        a, b = word(x), word(y)
        if a and b and a[0] == b[0]:
            self.facts.append(a[1] == b[1])
            return
        if isinstance(x, Seq) and isinstance(y, Seq) and x.items is not None and y.items is not None and len(x.items) == len(y.items) and all(z3.is_expr(e) for e in x.items + y.items):
            self.facts += [z3.simplify(p == q) for p, q in zip(x.items, y.items)]
            return
        raise Unsupported(f"bytes {x!r}"[:150])

    def items(self, xs, ys):
        if len(xs) != len(ys) or any(x.tag != y.tag for x, y in zip(xs, ys)):
            raise Unsupported("the shape of what is hashed depends on the value")
        for i, (x, y) in enumerate(zip(xs, ys)):
            what = f"item {i} ({x.tag})"
            if x.tag in ("raw", "bytes"):
                self.string(x.args[0] if x.tag == "bytes" else x.args[0], y.args[0], what)
            elif x.tag == "len":
                self.facts.append(x.args[0] == y.args[0])
            elif x.tag == "leaf":
                if x.args[0] != y.args[0]:
                    raise Unsupported("leaf type")
                self.facts.append(x.args[1] == y.args[1])
            elif x.tag == "each":
                self.same_len(x.args[0], y.args[0], what)
                p = Pair(self.ex, self.rep, f"{self.name}[j]", self.pc + self.facts + [z3.Int("j!") >= 0, z3.Int("j!") < x.args[0]])
                p.items(x.args[1].args, y.args[1].args)
                self.facts += p.facts
            elif x.tag == "val":
                self.facts.append(ext.veq(x.args[0], y.args[0]))
            elif x.tag == "before":
                self.facts.append(x.args[0] == y.args[0])
            else:
                raise Unsupported(what)


def determined(rep, ex, name, runs, hyps=()):
    """runs: two (state, digest content, {label: value}): equal contents mean equal values"""
    (s, xs, vs), (t, ys, ws) = runs
    st = s.copy()
    st.pc = s.pc + t.pc + list(hyps)
    for c, x in t.mem.items():
        st.mem.setdefault(c, x)
    core.CUR[0] = st
    p = Pair(ex, rep, name, st.pc)
    p.items(xs, ys)
    for l in vs:
        a = vs[l]
        gs = [(l, ext.veq(a, ws[l]))] if isinstance(a, Agg) and a.tag == "set" else eq_goals(ex, st, a, ws[l], l)
        for k, g in gs:
            prove(rep, f"{name}: what is hashed determines {k}", st.pc + p.facts, g)


def one(rep, name, outs):
    o = [(s, v) for s, v in outs if not isinstance(v, Panic)]
    if len(o) != 1:
        raise Unsupported(f"{name}: {len(o)} outcomes")
    return o[0]


def twice(ex, rep, name, path, args, goals, pre=(), allow=None):
    runs = []
    for k in "01":
        st, vals, outs = run_fn(ex, path, **{n: f(k) for n, f in args.items()})
        hy = [h for f in pre for h in f(vals)]
        for s, v in outs:
            if isinstance(v, Panic):
                prove(rep, f"{name}: does not fail", s.pc + hy, FALSE)
        s, v = one(rep, name, outs)
        s.pc = s.pc + hy
        runs.append((s, content(ex, s, v), dict(zip(goals, (deep(ex, s, vals[i]) for i in goals.values())))))
    determined(rep, ex, name, runs)


def deep(ex, s, v):
    while isinstance(v, Ref):
        v = ex.deref(s, v)
    if isinstance(v, Agg) and v.tag == H + "Hasher":
        v = v.fs[0]
    if isinstance(v, Op) and v.tag == "digest":
        return v.args[0].args[0]
    return v


def impl(ex, m):
    p = f"<{H}Hasher<D> as {H}Chain>::{m}"
    return p if p in ex.mir.fns else f"{H}Chain::{m}"


@theorem("tools::hashing::Chain (raw bytes are appended)", ["C06"])
def t_raw(ex, rep):
    p = impl(ex, "chain_raw_bytes")
    st, vals, outs = run_fn(ex, p, self=hasher("before"))
    for s, v in normal(rep, p, outs):
        xs = content(ex, s, v)
        prove(rep, "chain_raw_bytes keeps what was hashed before", s.pc, z3.BoolVal(key(xs[:1]) == key(before("before").args)))
        b = lib.D(ex, s, vals[1])
        if len(xs) == 1:
            prove(rep, "chain_raw_bytes appends the bytes", s.pc, norm(b.n) == 0)
            continue
        if len(xs) != 2 or xs[1].tag != "raw":
            raise Unsupported("the bytes are appended in pieces")
        prove(rep, "chain_raw_bytes appends the bytes", s.pc, z3.BoolVal(key(lib.D(ex, s, xs[1].args[0])) == key(b)))
    p = impl(ex, "as_digest_mut")
    st, vals, outs = run_fn(ex, p, self=hasher("before"))
    for s, v in normal(rep, p, outs):
        prove(rep, "as_digest_mut gives the digest of this hasher", s.pc, z3.BoolVal(isinstance(v, Ref) and key(ex.deref(s, v)) == key(before("before"))))


def slice_bytes(k):
    def b(ex, st, t, name):
        n = z3.Int(f"len(bytes{k})")
        if str(n) not in FACT:
            fact(str(n), n >= 0, n < 2 ** 63)
        v = z3.Int(f"bytes{k}")
        if str(v) not in FACT:
            fact(str(v), v >= 0, v < p256(n))
        return ex.ref(st, BE(v, n))
    return b


@theorem("tools::hashing::Chain::chain_bytes (items are separated)", ["C06"])
def t_bytes(ex, rep):
    lemma(rep, "Transcript", "item_prefix_free", "transcript_injective", "dst_transcript_injective")
    for p in {impl(ex, "chain_bytes"), H + "Chain::chain_bytes"}:
        me = lambda k: lambda ex, st, t, name: hasher("before" + k)(ex, st, t, name) if isinstance(t, tuple) and t[0] == "adt" else before("before" + k)
        twice(ex, rep, "chain_bytes", p, {"self": me, "bytes": slice_bytes}, {"the earlier content": 0, "the bytes": 1})


class opaque:
    """callees of which only their argument matters"""

    def __init__(self, ex, hs):
        self.ex, self.hs = ex, hs

    def __enter__(self):
        self.old = with_opaque(self.ex, self.hs)

    def __exit__(self, *a):
        self.ex.handlers, self.ex.contracts = self.old


@theorem("tools::hashing::Hasher::new_with_dst (domain separation)", ["C06"])
def t_dst(ex, rep):
    twice(ex, rep, "new_with_dst", HD + "new_with_dst", {"dst": slice_bytes}, {"the domain tag": 0})


def spb(vals):
    return [vals[1] >= 0, vals[1] < BITS32]


@theorem("tools::hashing::Hasher::finalize (the digest)", ["C06"])
def t_final(ex, rep):
    """the output is taken from the hash of the whole content, with the number of bytes of the security level"""
    st, vals, outs = run_fn(ex, HD + "finalize", self=hasher("before"))
    for s, v in outs:
        if isinstance(v, Panic):
            prove(rep, "finalize: does not fail", s.pc + spb(vals), FALSE)
            continue
        xs = content(ex, s, v)
        prove(rep, "finalize hashes the whole transcript", s.pc, z3.BoolVal(key(xs[:1]) == key(before("before").args)))
        b = v
        while isinstance(b, Agg):
            b = b.fs[0]
        sb = vals[1]
        prove(rep, "finalize: twice the security level in bits, in whole bytes", s.pc + spb(vals), b.n == DIV(norm(2 * sb + 7), z3.IntVal(8)))
    st, vals, outs = run_fn(ex, HD + "finalize_to_reader", self=hasher("before"))
    for s, v in normal(rep, "finalize_to_reader", outs):
        prove(rep, "finalize_to_reader hashes the whole transcript", s.pc, z3.BoolVal(key(content(ex, s, v)[:1]) == key(before("before").args)))


# ---------------------------------------------------------------- values
def hashed_types(ex):
    """the types of the values that the crate hashes"""
    out = {}

    def walk(x):
        if isinstance(x, dict):
            if x.get("path") == H + "Chain::chain" and len(x.get("args", ())) == 2:
                t = strip(tup(x["args"][1]))
                out.setdefault(ts(t), t)
            for y in x.values():
                walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
    for p in ex.mir.fns:
        b = ex.mir.body("fn", p)
        if b and "tests" not in p:
            walk(b["blocks"])
    return out


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


def strip(t):
    while isinstance(t, tuple) and t[0] == "ref":
        t = t[2]
    return t


BLANKET = "<T as tools::hashing::Hashable>::chain"


@theorem("tools::hashing::Hashable (hashed values are determined)", ["C06"])
def t_values(ex, rep):
    lemma(rep, "Transcript", "fixed_prefix_free", "pair_prefix_free", "seq_prefix_free")
    left = []
    for n, t in sorted(hashed_types(ex).items()):
        if t[0] == "param" or "BTreeSet" in n:
            continue                      # a type of the caller
        runs = []
        for k in "01":
            env = {"T": t, "C": ("adt", H + "Hasher", (("param", "D"),))}
            st = State()
            st.rp = f"@{k}hash."
            core.CUR[0] = st
            v = fresh(ex, st, t, f"v{k}:{n[-24:]}")
            ex.active = {BLANKET}
            outs = ex.exec_body(st, "fn", BLANKET, ex.mir.body("fn", BLANKET), env, [ex.ref(st, v), Agg(H + "Hasher", [before("before" + k)])])
            s, w = one(rep, n, outs)
            runs.append((s, content(ex, s, w), {"the earlier content": z3.Int("before" + k), "the value": v}))
        try:
            determined(rep, ex, n, runs)
        except Unsupported as e:
            left.append(f"{n}: {e}")
    if left:
        raise Unsupported("; ".join(left))


# ---------------------------------------------------------------- parameters and session identifiers
def opaque_curve(ex, st, c):
    d = c.vals[0]
    return d.put(0, Op("digest", *d.fs[0].args, Op("val", Op("curve")))) if isinstance(d, Agg) else Op("digest", *d.args, Op("val", Op("curve")))


@theorem("params::traits::chain_scheme_params (every parameter is hashed)", ["C06"])
def t_params(ex, rep):
    p = "params::traits::chain_scheme_params"
    with opaque(ex, {"curve::arithmetic::chain_curve": opaque_curve}):
        st, vals, outs = run_fn(ex, p, digest=lambda ex, st, t, name: before("before"))
    s, v = one(rep, p, outs)
    xs = content(ex, s, v)
    prove(rep, "what was hashed before is kept", s.pc, z3.BoolVal(key(xs[:1]) == key(before("before").args)))
    prove(rep, "the curve is hashed", s.pc, z3.BoolVal(any(x.tag == "val" for x in xs)))
    ws = [w[1] for w in (word(x.args[0]) for x in xs if x.tag == "raw") if w]
    for n in ("SECURITY_BITS", "NUM_BITS", "PRIME_BITS"):      # the other constants are functions of these
        x = z3.Int(n)
        prove(rep, f"{n} is hashed", s.pc + [x >= 0, x < BITS32], z3.Or([w == x for w in ws] + [FALSE]))


@theorem("entities::internal::Sid::new (session identifiers)", ["C06"])
def t_sid(ex, rep):
    def params(ex, st, c):
        d = c.vals[0]
        return d.put(0, Op("digest", *d.fs[0].args, Op("val", Op("parameters"))))
    runs = []
    for k in "01":
        ids = id_set(f"ids{k}")
        with opaque(ex, {"params::traits::chain_scheme_params": params}):
            st, vals, outs = run_fn(ex, "entities::internal::Sid::new", shared_randomness=slice_bytes(k), ids=lambda ex, st, t, name, ids=ids: ex.ref(st, ids))
        s, v = one(rep, "Sid::new", outs)
        runs.append((s, content(ex, s, v), {"the shared randomness": deep(ex, s, vals[0]), "the parties": ids}))
    determined(rep, ex, "Sid::new", runs)
