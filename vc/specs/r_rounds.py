"""Contracts of the protocol rounds (src/protocols).

The interface of `manul` (shim/manul/src/rounds.rs) is modelled: a part of a message is absent or carries a value; decoding
it as a type either fails or gives a value of that type that is determined by the part."""
from spec import *
from c_shares import run_fn, normal, is_err, by_ref, pid, pids, id_set, pmap, index
from c_bip32 import handle, D
from c_sss import *
import re
from engine import State
import core, lib, ext, folds

PR = "manul::protocol::"
RE, ME, LE = PR + "ReceiveError", PR + "MessageError", PR + "LocalError"
MPART = PR + "ProtocolMessagePart::"
MSG = PR + "ProtocolMessage"
KINDS = ("echo_broadcast", "normal_broadcast", "direct_message")


def part(name, j, present=None):
    """a part of a message of the party at position j; present: True, False or None (either)"""
    return Agg("part", [Op("label", name, norm(iv(j))), z3.Bool(f"present({name} of {key(norm(iv(j)))})") if present is None else z3.BoolVal(present)])


def message(name, j, **kw):
    """any message; kw: which of its parts are known to be there or not"""
    return Agg(MSG, [part(f"{name}.{k}", j, kw.get(k)) for k in KINDS])


def label(p):
    return f"{p.fs[0].args[0]} of {key(p.fs[0].args[1])}"


def decodes(p, t):
    if p.fs[0].tag == "made":
        return z3.BoolVal(p.fs[0].args[1] == ext.ts(t))
    n = p.fs[0].args[0]
    if n.startswith("echo"):        # the echoes of a round were accepted, as the broadcast of the sender was: they decode alike
        return z3.Bool(f"m{n[4:]}.echo_broadcast of {key(norm(z3.Int('from')))} is {ext.ts(t)}")
    return z3.And(p.fs[1], z3.Bool(f"{label(p)} is {ext.ts(t)}"))


def decoded(ex, st, p, t):
    if p.fs[0].tag == "made":
        return p.fs[0].args[0]
    return value(ex, t, *p.fs[0].args)


def targ(c, i):
    return c.cal["args"][i]


def error(t, why="error"):
    return Agg(t, [Op(why)])


@handle(MPART + "assert_is_none")
def assert_is_none(ex, st, c):
    p = D(ex, st, c.vals[0])
    return lib.branches(ex, st, p.fs[1], err(error(ME)), ok(Agg("tuple", [])))


@handle(MPART + "deserialize")
def deserialize(ex, st, c):
    p, t = D(ex, st, c.vals[0]), tup(targ(c, 1))
    return lib.branches(ex, st, decodes(p, t), ok(decoded(ex, st, p, t)), err(error(ME)))


@handle(MPART + "verify_is_not")
def verify_is_not(ex, st, c):
    p, t = D(ex, st, c.vals[0]), tup(targ(c, 1))
    return lib.branches(ex, st, decodes(p, t), err(error(PR + "MessageValidationError")), ok(Agg("tuple", [])))


@handle(MPART + "verify_is_some")
def verify_is_some(ex, st, c):
    p = D(ex, st, c.vals[0])
    return lib.branches(ex, st, p.fs[1], ok(Agg("tuple", [])), err(error(PR + "MessageValidationError")))


@handle(PR + "Payload::new", PR + "Artifact::new")
def payload(ex, st, c):
    return Agg("payload", [c.vals[0], Op(ext.ts(tup(targ(c, 0))))])


@handle(MPART + "new")
def made(ex, st, c):
    return ok(Agg("part", [Op("made", c.vals[1], ext.ts(tup(targ(c, 1)))), z3.BoolVal(True)]))


@handle(PR + "Payload::empty")
def payload_empty(ex, st, c):
    return Agg("payload", [Agg("tuple", []), Op("()")])


@handle(PR + "Payload::downcast", PR + "Artifact::downcast")
def downcast(ex, st, c):
    v = D(ex, st, c.vals[0])
    return ok(v.fs[0]) if v.fs[1].tag == ext.ts(tup(targ(c, 0))) else err(error(LE))


@handle("<alloc::boxed::Box<T, A> as core::ops::Drop>::drop")
def box_drop(ex, st, c):
    return Agg("tuple", [])


@handle(PR + "BoxedRound::<Id, P>::new_dynamic")
def boxed(ex, st, c):
    return c.vals[0]


@handle(RE + "::<Id, P>::protocol")
def re_protocol(ex, st, c):
    return Agg(RE, [c.vals[0]], 2)


# ---------------------------------------------------------------- values that belong to a party
HO, BV, SID = "tools::hashing::HashOutput", "tools::bitvec::BitVec", "entities::internal::Sid"
OPAQUE = set()      # types whose values are not looked into


def hash_value(tag, *args):
    return Agg(HO, [Op(tag, *args)])


def bits_value(name, j):
    return Agg(BV, [pt_at("bits " + name, j)])


def value(ex, t, name, j):
    """the value of type t that the party at position j sent (or holds) under this name"""
    t = tup(t)
    if t[0] == "adt":
        p = t[1]
        if p == HO:
            return hash_value("hash", Op(name, norm(iv(j))))
        if p == BV:
            return bits_value(name, j)
        if p == "curve::arithmetic::Point":
            return pnt(pt_at(name, j))
        if p == "curve::arithmetic::Scalar":
            return scal(scalar_fn(name, True)(j))
        if p in OPAQUE:
            return Agg(p, [Op(name, norm(iv(j)))])
        if p == "alloc::collections::BTreeMap":
            return Agg("sent map", [Op(name, norm(iv(j))), Op("values", TypeArg(tup(t[2][1])))])
        if p == "manul::utils::SerializableMap":
            return Agg(p, [Agg("sent map", [Op(name, norm(iv(j))), Op("values", TypeArg(tup(t[2][1])))])])
        if p in ex.mir.adts and len(ex.mir.adts[p]["variants"]) == 1:
            return Agg(p, [value(ex, ft, f"{name}.{n}", j) for n, ft in ex.mir.adts[p]["variants"][0][1]])
    raise Unsupported(f"value of type {ext.ts(t)}")


def values(ex, t, name, n):
    return Seq(n=n, f=lambda j: value(ex, t, name, j), key=f"values<{name}>[..{key(n)}]")


@handle(f"<{HO} as core::cmp::PartialEq>::eq")
def hash_eq(ex, st, c):
    return equal_hashes(*[D(ex, st, x) for x in c.vals])


def equal_hashes(x, y):
    return ext.veq(x, y)


# ---------------------------------------------------------------- a protocol
REQ, PVE = PR + "RequiredMessages", PR + "ProtocolValidationError"
RID = PR + "RoundId"


@handle(f"{RID}::new", f"<{RID} as core::convert::From<u8>>::from")
def round_id(ex, st, c):
    return D(ex, st, c.vals[0])


for _k, _n in enumerate(KINDS):
    def _only(ex, st, c, k=_k):
        return Agg("parts", [z3.BoolVal(i == k) for i in range(3)])

    def _and(ex, st, c, k=_k):
        return Agg("parts", [z3.BoolVal(True) if i == k else x for i, x in enumerate(D(ex, st, c.vals[0]).fs)])
    handle(f"{PR}RequiredMessageParts::{_n}")(_only)
    handle(f"{PR}RequiredMessageParts::and_{_n}")(_and)


@handle(REQ + "::new")
def required(ex, st, c):
    return Agg(REQ, [D(ex, st, x) for x in c.vals])


@handle(SID + "::new")
def sid_new(ex, st, c):
    return session(*[D(ex, st, x) for x in c.vals])


def session(rnd, ids):
    return Agg(SID, [Op("session", rnd, ids)])


def inserted(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    m = ex.read(st, r.cell, r.proj)
    if isinstance(m, Agg) and m.tag in ("map", "set") and isinstance(m.fs[0], Seq) and m.fs[0].items is None and not m.fs[0].keep:
        ex.write(st, r.cell, r.proj, Agg("with", [m] + list(c.vals[1:])))
        return Op("previous entry")
    return ext.minsert(ex, st, c)


def got(ex, st, c):
    """a look-up in a map of the other parties to which this party has been added"""
    r = ex.lastref(st, c.vals[0])
    m = ex.read(st, r.cell, r.proj)
    if isinstance(m, Agg) and m.tag == "with" and len(m.fs) == 3:
        if key(m.fs[1]) == key(D(ex, st, c.vals[1])):
            return some(Ref(r.cell, r.proj + (("f", 2),)))
        c = ext.Call(c.path, c.cal, [Ref(r.cell, r.proj + (("f", 0),))] + list(c.vals[1:]), None, None, 0, None)
    return ext.mget(ex, st, c)


def removed(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    m = ex.read(st, r.cell, r.proj)
    ex.write(st, r.cell, r.proj, Agg("without", [m, D(ex, st, c.vals[1])]))
    return Op("previous entry")


def xor_assign(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    a, b = ex.read(st, r.cell, r.proj), D(ex, st, c.vals[1])
    ex.write(st, r.cell, r.proj, Agg(BV, [core.res_add(a.fs[0], b.fs[0])]))
    return Agg("tuple", [])


def boolean(tag):
    """a predicate of its arguments"""
    def f(ex, st, c):
        return z3.Bool(f"{tag}({','.join(key(clean(ex, st, v)) for v in c.vals)})")
    return f


def clean(ex, st, v):
    """without references"""
    v = D(ex, st, v)
    if isinstance(v, Agg):
        return Agg(v.tag, [clean(ex, st, x) for x in v.fs], v.var)
    return v


def entries(m):
    if isinstance(m, Agg):
        return list(m.fs[0].items) if m.tag == "set" else list(zip(m.fs[0].items, m.fs[1].items))
    return [tuple(x.fs) if isinstance(x, Agg) else x for x in m.items]


class Protocol:
    def __init__(self, ex, rep, mod, name, err, rounds, opaque=(), handlers=()):
        self.ex, self.rep, self.mod, self.name, self.rounds = ex, rep, mod, name, rounds
        self.proto = f"<{mod}{name}<P, Id> as manul::protocol::Protocol<Id>>::"
        self.err = [x for x in (f"<{mod}{err}<{g}> as manul::protocol::ProtocolError<Id>>::" for g in ("P", "P, Id")) if x + "required_messages" in ex.mir.fns]
        if len(self.err) != 1:
            raise Unsupported("verification of evidence")
        self.err = self.err[0]
        self.errt = mod + err
        self.ids = id_set("others", 1)
        self.keys = self.ids.fs[0]
        self.n = self.keys.n
        self.i = index("from", self.n)
        self.guilty = self.keys.at(self.i)
        self.echo = pids("echoing", length("len(echoing)", 1))
        self.mine = index("mine", self.echo.n)      # this party is one of the others of the sender
        self.me = self.echo.at(self.mine)
        self.rnd = Op("shared randomness")
        self.all = Agg("set", [pids("all", length("len(all)", 2))])
        self.sid = session(self.rnd, self.all)
        self.about = {"reported_by": self.me, "failed_for": self.me}
        self.advalue, self.full = None, False
        SENT[0] = self
        OPAQUE.clear()
        OPAQUE.update(opaque)
        self.handlers = dict(handlers)

    def __enter__(self):
        ex = self.ex
        self.old = ex.handlers, ex.contracts
        hs = dict(self.handlers)
        miss = [p for p in hs if p not in ex.mir.fns]
        if miss:
            raise Unsupported(f"function not found: {miss[0]}")
        for t in OPAQUE:
            if f"<{t}<P> as core::clone::Clone>::clone" in ex.mir.fns:
                hs[f"<{t}<P> as core::clone::Clone>::clone"] = lambda ex, st, c: D(ex, st, c.vals[0])
        hs[ext.BT + "keys"] = sent_keys
        hs[ext.BT + "values"] = sent_values
        hs.update({f: map_values for f in self.ex.mir.fns if f.endswith("::map_values_ref") and "BTreeMap" in f})
        hs[ext.BT + "iter"] = hs["<&'a alloc::collections::BTreeMap<K, V, A> as core::iter::IntoIterator>::into_iter"] = sent_iter
        for n in ("eq", "ne"):
            hs["core::cmp::PartialEq::" + n] = compare(n)
        hs[ext.BT + "insert"] = hs[ext.BS + "insert"] = inserted
        hs[ext.BT + "get"] = got_named
        hs[ext.BS + "remove"] = hs[ext.BT + "remove"] = removed
        hs[f"<{BV} as core::ops::BitXorAssign<&{BV}>>::bitxor_assign"] = xor_assign
        ex.handlers = dict(ex.handlers, **hs)
        ex.contracts = {p: c for p, c in ex.contracts.items() if p not in hs}
        return self

    def __exit__(self, *a):
        self.ex.handlers, self.ex.contracts = self.old

    def draw_bits(self):
        self.bits += 1
        return bits_value(f"drawn {self.bits}", self.who)

    def pos(self):
        return [iv(self.i) >= 0, iv(self.i) < self.n, self.n >= 1]

    # ------------------------------------------------------------ running
    def run(self, path, after, args):
        """outcomes of a function"""
        g = lambda v: lambda ex, st, t, name: ex.ref(st, v) if isinstance(t, tuple) and t[0] == "ref" else v
        bs = {k: g(v) for k, v in enumerate(args)}
        st, vals, env = inputs(self.ex, path, {}, bs)
        if after is not None:
            st.pc += after.pc
            st.foralls += after.foralls
            for c, x in after.mem.items():
                st.mem.setdefault(c, x)
        CUR[0] = st
        self.ex.active = {path}
        return self.ex.exec_body(st, "fn", path, self.ex.mir.body("fn", path), env, vals)

    def method(self, r, m):
        return f"<{self.mod}{self.rounds[r]}<P, Id> as manul::protocol::Round<Id>>::{m}"

    def receive(self, r, state, after=None, i=None, msg=None):
        """outcomes of round r on a message: (state, kind, value) with kind accepted / message / local / error name"""
        i = self.i if i is None else i
        res = []
        for s, v in self.run(self.method(r, "receive_message"), after, [state, Op("format"), self.keys.at(i), msg or message(f"m{r}", i)]):
            if isinstance(v, Panic):
                res.append((s, "panic", v))
            elif v.var == 0:
                res.append((s, "accepted", v.fs[0]))
            else:
                e = v.fs[0]
                if e.tag == RE and e.var == 2:
                    res.append((s, "error", e.fs[0]))
                elif e.tag == ME or e.tag.endswith("LocalError"):
                    res.append((s, "message" if e.tag == ME else "local", e))
                elif e.tag == RE:
                    res.append((s, "local" if e.var == 0 else "message", e))
                else:
                    raise Unsupported(f"error {e!r}"[:100])
        return res

    def accepted(self, r, state, after=None, i=None, msg=None):
        o = [(s, v) for s, k, v in self.receive(r, state, after, i, msg) if k == "accepted"]
        if len(o) != 1:
            raise Unsupported(f"{len(o)} ways of accepting a message of round {r}")
        return o[0]

    def payloads(self, r, state, msg=None):
        """what the messages of round r contribute when they are accepted"""
        memo = {}

        def at(j):
            k = key(norm(iv(j)))
            if k not in memo:
                memo[k] = self.accepted(r, state, None, j, msg and msg(j))[1]
            return memo[k]
        return Agg("map", [self.keys, Seq(n=self.n, f=at, key=f"payloads of round {r}")])

    def finalize(self, r, state, msg=None):
        """the state of the next round, or the result"""
        o = [(s, v) for s, v in self.run(self.method(r, "finalize"), None, [state, Op("rng"), self.payloads(r, state, msg), Op("artifacts")])]
        return o

    def next(self, r, state, msg=None):
        """the state of the round after round r"""
        o = [v.fs[0].fs[0] for s, v in self.finalize(r, state, msg) if not isinstance(v, Panic) and v.var == 0 and v.fs[0].var == 0]
        if len(o) != 1:
            raise Unsupported(f"{len(o)} outcomes of round {r}")
        return o[0]

    def combined(self, mine, others):
        """the contributions of the sender and of the parties whose messages it has passed on"""
        return Agg(BV, [core.res_add(bits_value(mine, self.i).fs[0], folds.psum(self.echo.n, lambda j: bits_value(others, j).fs[0]))])

    def error(self, e):
        """the name of an error"""
        x = e.fs[0]
        vs = self.ex.mir.adts[self.mod + "Error"]["variants"]
        return vs[x.var or 0][0]

    def errors(self, r, about=None):
        """the errors that round r may report"""
        about = about or self.about
        vs = [v[0] for v in self.ex.mir.adts[self.mod + "Error"]["variants"]]
        if not all(re.match(r"R\d", v) for v in vs):
            raise Unsupported("names of errors")
        fs = self.ex.mir.adts[self.errt]["variants"][0][1]
        vs2 = self.ex.mir.adts[self.mod + "Error"]["variants"]
        return [(v, Agg(self.errt, [Agg(self.mod + "Error", [about[f] for f, _ in vs2[k][1]], k) if n == "error" else Agg("core::marker::PhantomData", []) for n, _ in fs])) for k, v in enumerate(vs) if v.startswith(f"R{r}")]

    # ------------------------------------------------------------ honest parties
    def begin(self, entry, ent, j):
        """the first state of the party at position j"""
        self.who, self.bits = j, 0
        o = self.run(f"<{self.mod}{entry}<P, Id> as manul::protocol::EntryPoint<Id>>::make_round", None, [ent, Op("rng"), self.rnd, self.keys.at(j)])
        o = [v for s, v in o if not isinstance(v, Panic) and v.var == 0]
        if len(o) != 1:
            raise Unsupported(f"{len(o)} ways of starting")
        return o[0].fs[0]

    def send(self, r, state, to=None):
        """the message that a party in this state sends in round r"""
        parts = []
        for k in KINDS:
            path = self.method(r, "make_" + k)
            if path not in self.ex.mir.fns:
                parts.append(Agg("part", [Op("made", Agg("tuple", []), "nothing"), z3.BoolVal(False)]))
                continue
            args = [state, Op("rng"), Op("format")] + ([to] if k == "direct_message" else [])
            o = self.run(path, None, args)
            if len(o) != 1 or isinstance(o[0][1], Panic) or o[0][1].var != 0:
                raise Unsupported(f"{len(o)} ways of sending a message of round {r}")
            v = o[0][1].fs[0]
            parts.append(v.fs[0] if k == "direct_message" else v)
        return Agg(MSG, parts)

    def honest(self, r, state, msg, after=None):
        """round r accepts this message"""
        outs = self.receive(r, state, after, None, msg)
        for s, k, v in outs:
            what = f" ({v.why})" if k == "panic" else f" ({self.error(v)})" if k == "error" else ""
            prove(self.rep, f"round {r}: the message of an honest party is accepted{what}", s.pc, z3.BoolVal(k == "accepted"))
        return outs

    def only_if(self, r, state, conds, after=None):
        """round r accepts a message exactly if every part that has to be there is well-formed, the others are absent, and
        the conditions hold: conds: [(error, condition)], in the order in which they are checked"""
        for s, k, v in self.receive(r, state, after):
            if k == "accepted":
                for e, c in conds:      # c: a condition, or one for the position of every other party of the sender
                    if callable(c):
                        prove(self.rep, f"round {r}: an accepted message passes the check for {e} for every party", s.pc + self.every(s), c(self.anyone if self.full else self.mine))
                    else:
                        prove(self.rep, f"round {r}: an accepted message passes the check for {e}", s.pc, c)
            elif k == "error":
                hit = [c for e, c in conds if e == self.error(v)]
                if hit and callable(hit[0]):
                    x = v.fs[0].fs[0].fs[0]
                    if not (z3.is_app(x) and x.decl().name() == ("PID<all>" if self.full else "PID<echoing>")):
                        raise Unsupported("party that an error names")
                    hit = [hit[0](x.arg(0))]
                prove(self.rep, f"round {r}: a message rejected with {self.error(v)} fails that check", s.pc, z3.Not(hit[0]) if hit else FALSE)

    # ------------------------------------------------------------ evidence
    def evidence(self, r, e, after):
        """outcomes of the verification of the evidence for the error e in the message of round r"""
        (s0, req), = self.run(self.err + "required_messages", after, [e])
        this, prev, echos = req.fs
        msg = self.kept(f"m{r}", this)
        rounds, vals = [], []
        if prev.var == 1:
            for k, p in entries(prev.fs[0]):
                x = conc(k)
                if x is None or x >= r:
                    raise Unsupported("required rounds")
                rounds.append(k)
                vals.append(self.kept(f"m{x}", p))
        ek, ev = [], []
        if echos.var == 1:
            for k in entries(echos.fs[0]):
                x = conc(k)
                ek.append(k)
                ev.append(Agg("map", [self.echo, Seq(n=self.echo.n, f=lambda j, x=x: part(f"echo{x}", j, True), key=f"echos of round {x}")]))
        ad = self.advalue if self.advalue is not None else mk(self.adata, self.ex.mir, ids=self.all)
        return self.run(self.err + "verify_messages_constitute_error", s0, [
            e, Op("format"), self.guilty, self.rnd, ad, msg, Agg("map", [Seq(items=rounds), Seq(items=vals)]), Agg("map", [Seq(items=ek), Seq(items=ev)])])

    def kept(self, name, flags):
        """the parts of a message that evidence consists of"""
        return Agg(MSG, [part(f"{name}.{k}", self.i, None if z3.is_true(f) else False) for k, f in zip(KINDS, flags.fs)])

    def every(self, s):
        """what was checked for every other party of the sender, at the position of this party"""
        from t_zk import inst
        r = [g for f in s.foralls if core.eqpoly(f.n, self.echo.n) for g in inst(f, self.mine)]
        if self.full:
            r += [g for f in s.foralls if core.eqpoly(f.n, self.all.fs[0].n) for g in inst(f, self.anyone)] + [self.anyone >= 0, iv(self.anyone) < self.all.fs[0].n]
        return r

    def convicts(self, r, state, after=None):
        """round r: what is rejected is convicted by its evidence, what is accepted is not"""
        seen = set()
        for s, k, v in self.receive(r, state, after):
            if k == "panic":
                prove(self.rep, f"round {r}: receiving a message does not fail ({v.why})", s.pc, FALSE)
                continue
            if k == "local":
                prove(self.rep, f"round {r}: a message of a participant is not a local error", s.pc, FALSE)
                continue
            seen.add(k)
            bad = []
            for kd, nm in zip(KINDS, ("echo_broadcast", "normal_broadcast", "direct_message")):
                bad.append(self.run(self.proto + f"verify_{nm}_is_invalid", s, [Op("format"), z3.IntVal(r), part(f"m{r}.{kd}", self.i)]))
            for kd, outs in zip(KINDS, bad):
                for s2, w in outs:
                    if isinstance(w, Panic):
                        prove(self.rep, f"round {r}: checking a message part does not fail ({w.why})", s2.pc, FALSE)
            if k == "message":
                # in every case some part is reported as invalid
                allbad = [s2.pc[len(s.pc):] for outs in bad for s2, w in outs if not isinstance(w, Panic) and w.var == 0]
                prove(self.rep, f"round {r}: a message rejected as malformed has a part that is reported as invalid", s.pc, z3.Or([z3.And(p) if p else TRUE for p in allbad]) if allbad else FALSE)
            else:
                for kd, outs in zip(KINDS, bad):
                    for s2, w in outs:
                        if not isinstance(w, Panic) and w.var == 0:
                            prove(self.rep, f"round {r}: the {kd.replace('_', ' ')} of a well-formed message is not reported as invalid", s2.pc, FALSE)
            for nm, e in self.errors(r):
                hit = k == "error" and self.error(v) == nm
                if k == "error" and self.error(v) != nm or k == "message":
                    continue
                for s2, w in self.evidence(r, v if hit else e, s):
                    if isinstance(w, Panic):
                        prove(self.rep, f"round {r}: checking the evidence for {nm} does not fail ({w.why})", s2.pc, FALSE)
                    elif hit:
                        prove(self.rep, f"round {r}: a message rejected with {nm} is convicted by its evidence", s2.pc, z3.BoolVal(w.var == 0))
                    else:
                        prove(self.rep, f"round {r}: an accepted message is not convicted of {nm}", s2.pc + self.every(s2), z3.BoolVal(w.var != 0))
            if k not in ("error", "message") and "reported_by" in self.about:
                # another party than the one that received the message
                o = index("another", self.echo.n)
                hyp = [0 <= o, o < self.echo.n, o != self.mine]
                named = {v[0] for v in self.ex.mir.adts[self.mod + "Error"]["variants"] if any(f == "reported_by" for f, _ in v[1])}
                for nm, e in self.errors(r, dict(self.about, reported_by=self.echo.at(o))):
                    if nm in named:
                        for s2, w in self.evidence(r, e, s):
                            if not isinstance(w, Panic):
                                prove(self.rep, f"round {r}: an accepted message is not convicted of {nm} in the name of a party that did not receive it", s2.pc + hyp, z3.BoolVal(w.var != 0))
            if k == "error":
                prove(self.rep, f"round {r}: the error belongs to this round", s.pc, z3.BoolVal(self.error(v) in [n for n, _ in self.errors(r)]))
        if "accepted" not in seen:
            raise Unsupported(f"no message of round {r} is accepted")


# ---------------------------------------------------------------- key initialization
KI = "protocols::key_init::"
SCHP, SCHC = "zk::sch::SchProof", "zk::sch::SchCommitment"


def bare(v):
    """a map, whether in its serializable form or not"""
    if isinstance(v, Agg) and v.tag == "manul::utils::SerializableMap":
        return bare(v.fs[0])
    return Agg(v.tag, [bare(x) for x in v.fs], v.var) if isinstance(v, Agg) else v


def plain_hash(tag):
    return lambda ex, st, c: hash_value(tag, *[bare(clean(ex, st, x)) for x in c.vals])


def same(a, b):
    return z3.BoolVal(key(a) == key(b))


def sch_new(ex, st, c):
    return Agg(SCHP, [Op("proof of knowledge", *[clean(ex, st, x) for x in c.vals])])


def sch_verify(ex, st, c):
    """complete (C17): accepts a proof made with the secrets behind the commitment and the public point, and the same auxiliary data"""
    psi, a, x, aux = [clean(ex, st, v) for v in c.vals]
    o = psi.fs[0] if isinstance(psi, Agg) and psi.fs and isinstance(psi.fs[0], Op) else None
    if o is not None and o.tag == "proof of knowledge":
        tau, sec, a2, x2, aux2 = o.args
        if key(a) == key(commitment(tau)) == key(a2) and key(x) == key(x2) == key(pub(sec)) and key(aux) == key(aux2):
            return z3.BoolVal(True)
    return z3.Bool(f"SchProof::verify({','.join(key(v) for v in (psi, a, x, aux))})")


def key_share(ex, st, c):
    return lib.branches(ex, st, z3.Bool("no key share"), err(Op("no key share")), ok(Op("key share", *[clean(ex, st, v) for v in c.vals])))


def commitment(tau):
    return Agg(SCHC, [pnt(pt_at(f"commitment {key(tau)}", 0))])


def pub(sec):
    """the public point of a secret scalar"""
    v = sec.fs[0] if isinstance(sec, Agg) and sec.tag == SEC else sec
    return pnt(res_pow(gen(), as_int(scalar_res(v))))


def scalar_res(v):
    while isinstance(v, Agg):
        v = v.fs[0]
    return v


def key_init(ex, rep):
    p = Protocol(ex, rep, KI, "KeyInitProtocol", "KeyInitError", {1: "Round1", 2: "Round2", 3: "Round3"}, opaque={SCHP},
                 handlers={KI + "PublicData::<P>::hash": plain_hash("public data"), SID + "::new": sid_new,
                           SCHP + "::<P>::verify": sch_verify, SCHP + "::<P>::new": sch_new,
                           "entities::full::KeyShare::<P, I>::new": key_share,
                           "curve::arithmetic::Scalar::<P>::random": lambda ex, st, c: scalar_fn("secret", True)(p.who),
                           "zk::sch::SchSecret::<P>::random": lambda ex, st, c: Agg("zk::sch::SchSecret", [Op("tau", norm(iv(p.who)))]),
                           SCHC + "::<P>::new": lambda ex, st, c: commitment(clean(ex, st, c.vals[0])),
                           BV + "::random": lambda ex, st, c: p.draw_bits()})
    p.adata = KI + "KeyInitAssociatedData"
    p.ctx = mk(KI + "Context", ex.mir, other_ids=p.ids, my_id=p.me, x=Agg(SEC, [scalar_fn("own x", False)(0)]), tau=Op("tau"), public_data=value(ex, ("adt", KI + "PublicData", ()), "own", 0), sid=p.sid)
    return p


@theorem("KeyInit: rejected messages are convicted by their evidence and accepted ones are not", props=["C29"])
def ki_evidence(ex, rep):
    with key_init(ex, rep) as p:
        r1 = mk(KI + "Round1", ex.mir, context=p.ctx)
        p.convicts(1, r1)
        s1, _ = p.accepted(1, r1)
        r2 = p.next(1, r1)
        p.convicts(2, r2, s1)
        s2, _ = p.accepted(2, r2, s1)
        r3 = p.next(2, r2)
        # every party combines the contributions of all parties: its own and those of the others (see below; the sum over
        # all parties does not depend on who forms it: Lean)
        lemma(rep, "Rounds", "combined_contributions")
        r3 = put(ex.mir, r3, "rho_combined", p.combined("m2.echo_broadcast.rho", "echo2.rho"))
        p.convicts(3, r3, s2)


def ki_states(p, ex):
    r1 = mk(KI + "Round1", ex.mir, context=p.ctx)
    r2 = p.next(1, r1)
    return r1, r2, p.next(2, r2)


def eq(ex, a, b):
    """equality of values of the same shape"""

    return z3.And([g for _, g in eq_goals(ex, State(), a, b)] + [TRUE])


def mem(f):
    d = {}

    def g(j):
        k = key(norm(iv(j)))
        if k not in d:
            d[k] = f(j)
        return d[k]
    return g


def per_party(p, m, f):
    """the map has the entry f(j) for the party at position j"""
    j = p.i
    if m.tag != "map":
        return FALSE
    return z3.And(m.fs[0].n == p.n, m.fs[1].n == p.n, eq(p.ex, m.fs[0].at(j), p.keys.at(j)), eq(p.ex, m.fs[1].at(j), f(j)))


@theorem("KeyInit: what is accepted and what results", props=["C29"])
def ki_results(ex, rep):
    with key_init(ex, rep) as p:
        r1, r2, r3 = ki_states(p, ex)
        get = lambda v, *path: get(fld(ex.mir, v, path[0]), *path[1:]) if path else v
        # round 1
        cv = lambda j: value(ex, ("adt", HO, ()), "m1.echo_broadcast.cap_v", j)
        prove(rep, "round 1: the context is kept", [], same(get(r2, "context"), p.ctx))
        prove(rep, "round 1: the commitment of every party is kept under its name", p.pos(), per_party(p, get(r2, "cap_vs"), cv))
        # round 2
        pt, bits = ("adt", "curve::arithmetic::Point", ()), ("adt", BV, ())
        val = lambda t, n: lambda j: value(ex, t, n, j)
        cx, ca = val(pt, "m2.normal_broadcast.cap_x"), val(("adt", SCHC, ()), "m2.normal_broadcast.cap_a")
        u, rho = val(bits, "m2.normal_broadcast.u"), val(bits, "m2.echo_broadcast.rho")
        data = mk(KI + "PublicData", ex.mir, cap_x=cx(p.i), cap_a=ca(p.i), rho=rho(p.i), u=u(p.i))
        opens = hash_value("public data", data, p.sid, p.guilty)
        p.only_if(2, r2, [("R2HashMismatch", equal_hashes(opens, cv(p.i)))])
        prove(rep, "round 2: the context is kept", [], same(get(r3, "context"), p.ctx))
        prove(rep, "round 2: the public share of every party is kept under its name", p.pos(), per_party(p, get(r3, "cap_xs"), cx))
        prove(rep, "round 2: the proof commitment of every party is kept under its name", p.pos(), per_party(p, get(r3, "cap_as"), ca))
        own = get(p.ctx, "public_data", "rho")
        mine = Agg(BV, [core.res_add(own.fs[0], folds.psum(p.n, lambda j: rho(j).fs[0]))])
        prove(rep, "round 2: the contributions of all parties are combined", p.pos(), eq(ex, get(r3, "rho_combined"), mine))
        # round 3
        psi = Agg(SCHP, [Op("m3.normal_broadcast.psi", norm(iv(p.i)))])
        aux = Agg("tuple", [p.sid, p.guilty, get(r3, "rho_combined")])
        good = z3.Bool(f"SchProof::verify({','.join(key(v) for v in (psi, ca(p.i), cx(p.i), aux))})")
        p.only_if(3, r3, [("R3InvalidSchProof", good)])
        # the result
        n = 0
        for s, v in p.finalize(3, r3):
            if isinstance(v, Panic):
                prove(rep, f"the last round does not fail ({v.why})", s.pc, FALSE)
            elif v.var == 0:
                n += 1
                res = v.fs[0]
                want = Op("key share", p.me, get(p.ctx, "x"), Agg("with", [get(r3, "cap_xs"), p.me, get(p.ctx, "public_data", "cap_x")]))
                prove(rep, "the result is the key share of this party, its secret and the public shares of all parties", s.pc, z3.BoolVal(res.var == 1 and key(res.fs[0]) == key(want)))
            else:
                prove(rep, "the last round fails only if no key share can be formed", s.pc, z3.Bool("no key share"))
        if n != 1:
            raise Unsupported("outcomes of the last round")


@theorem("KeyInit: messages of honest parties are accepted", props=["C29"])
def ki_honest(ex, rep):
    with key_init(ex, rep) as p:
        ent = mk(KI + "KeyInit", ex.mir, all_ids=p.all, phantom=Agg("core::marker::PhantomData", []))
        # the sender, at any position among the others, and this party go through the rounds
        one = mem(lambda j: p.begin("KeyInit", ent, j))
        msg1 = mem(lambda j: p.send(1, one(j)))
        two = mem(lambda j: p.next(1, one(j)))
        msg2 = mem(lambda j: p.send(2, two(j)))
        r1 = mk(KI + "Round1", ex.mir, context=p.ctx)
        p.honest(1, r1, msg1(p.i))
        r2 = p.next(1, r1, msg1)
        p.honest(2, r2, msg2(p.i))
        r3 = p.next(2, r2, msg2)
        # both combine the contributions of all parties (above, Lean)
        lemma(rep, "Rounds", "combined_contributions")
        three = put(ex.mir, p.next(2, two(p.i)), "rho_combined", fld(ex.mir, r3, "rho_combined"))
        p.honest(3, r3, p.send(3, three))


def hashed_value(ex, st, c):
    """a value is hashed as a sequence of items that determines it (C06)"""
    d, x = c.vals[1], Op("val", clean(ex, st, c.vals[0]))
    return d.put(0, Op("digest", *d.fs[0].args, x)) if isinstance(d, Agg) else Op("digest", *d.args, x)


def hash_binds(ex, rep, mod, fields=()):
    """the hash of the public data is a digest of the session, the party and all of the data"""
    import c_hash
    path = [x for x in (mod + "PublicData::<P>::hash", mod + "PublicData::<P, Id>::hash") if x in ex.mir.fns]
    if not path:
        raise Unsupported("hash of the public data")
    path = path[0]
    runs = []
    for k in "01":
        st0 = State()
        st0.rp = f"@{k}pd."
        core.CUR[0] = st0
        data = value(ex, ("adt", mod + "PublicData", (("param", "P"),)), f"data{k}", 0)
        sid = fresh(ex, st0, ("adt", SID, ()), f"sid{k}")
        me = pid(z3.Int(f"id{k}"))
        g = lambda v: lambda ex, st, t, name: ex.ref(st, v)
        with c_hash.opaque(ex, {c_hash.BLANKET: hashed_value}):
            ex.handlers = {p: h for p, h in ex.handlers.items() if p != path}
            st, vals, outs = run_fn(ex, path, self=g(data), sid=g(sid), id=g(me))
        s, v = c_hash.one(rep, "PublicData::hash", outs)
        x = {"the session": sid, "the party": me}
        for (n, _), f in zip(ex.mir.adts[mod + "PublicData"]["variants"][0][1], data.fs):
            x[f"the field {n}"] = f
        runs.append((s, c_hash.content(ex, s, v), x))
    lemma(rep, "Transcript", "fixed_prefix_free", "pair_prefix_free", "seq_prefix_free")
    c_hash.determined(rep, ex, "PublicData::hash", runs)


@theorem("KeyInit: commitments bind the session, the party and all of the data", props=["C29"])
def ki_hash(ex, rep):
    hash_binds(ex, rep, KI)


# ---------------------------------------------------------------- auxiliary data
AG = "protocols::aux_gen::"
PKW, PK, SKW, SK = [f"paillier::keys::{x}" for x in ("PublicKeyPaillierWire", "PublicKeyPaillier", "SecretKeyPaillierWire", "SecretKeyPaillier")]
RPW, RPP, RPS = [f"paillier::ring_pedersen::{x}" for x in ("RPParamsWire", "RPParams", "RPSecret")]
PRMP, MODP, FACP = "zk::prm::PrmProof", "zk::mod_::ModProof", "zk::fac::FacProof"


def form(ex, st, v):
    """the wire form behind a value, and whether the value is precomputed"""
    v = clean(ex, st, v)
    o = v.fs[0]
    return (o.args[0], True) if o.tag == "precomputed" else (o, False)


def convert(t, pre):
    """into_precomputed / into_wire and the like: the same data in the other form (C05, C11)"""
    def f(ex, st, c):
        o, _ = form(ex, st, c.vals[0])
        return Agg(t, [Op("precomputed", o) if pre else o])
    return f


def modulus(ex, st, c):
    o, _ = form(ex, st, c.vals[0])
    x = z3.Int(f"modulus({key(o)})")
    st.pc.append(x > 0)
    if o.tag in ("public key", "made with"):        # generated keys have moduli of the full size (C11)
        st.pc.append(ext.BITS(norm(x)) >= 2 * z3.Int("PRIME_BITS") - 2)
    return ex.ref(st, x)


def prover(t):
    return lambda ex, st, c: Agg(t, [Op("honest", *[clean(ex, st, x) for x in c.vals[1:]])])


def complete(t, good):
    """complete (C18-C20): accepts what is proved with the secrets behind the statement and the same auxiliary data"""
    def f(ex, st, c):
        vs = [clean(ex, st, v) for v in c.vals]
        o = vs[0].fs[0] if vs[0].fs else None
        if isinstance(o, Op) and o.tag == "honest" and good(o.args, vs[1:]):
            return z3.BoolVal(True)
        return accepts(t, *vs)
    return f


def accepts(t, *vs):
    return z3.Bool(f"{t}::verify({','.join(key(v) for v in vs)})")


def alike(*ps):
    return all(key(a) == key(b) for a, b in ps)


def secret_key(sk):
    """the public key of a secret key"""
    o = sk.fs[0]
    return Agg(PK, [Op("precomputed", Op("public key", Agg(SKW, [o.args[0] if o.tag == "precomputed" else o])))])


def key_material(p):
    """what an honest party makes for itself (p: list with the protocol)"""
    return {
            PRMP + "::<P>::verify": complete("PrmProof", lambda a, v: alike((a[1], v[0]), (a[2], v[1]), (v[0].fs[0], Op("precomputed", Op("made with", a[0]))))),
            MODP + "::<P>::verify": complete("ModProof", lambda a, v: alike((secret_key(a[0]), v[0]), (a[1], v[1]))),
            FACP + "::<P>::verify": complete("FacProof", lambda a, v: alike((secret_key(a[0]), v[0]), (a[1], v[1]), (a[2], v[2]))),
            PRMP + "::<P>::new": prover(PRMP), MODP + "::<P>::new": prover(MODP), FACP + "::<P>::new": prover(FACP),
            SKW + "::<P>::random": lambda ex, st, c: Agg(SKW, [Op("secret key", norm(iv(p[0].who)))]),
            SKW + "::<P>::public_key": lambda ex, st, c: Agg(PKW, [Op("public key", clean(ex, st, c.vals[0]))]),
            RPS + "::<P>::random": lambda ex, st, c: Agg(RPS, [Op("ring-Pedersen secret", norm(iv(p[0].who)))]),
            RPP + "::<P>::random_with_secret": lambda ex, st, c: Agg(RPP, [Op("precomputed", Op("made with", clean(ex, st, c.vals[1])))]),
            BV + "::random": lambda ex, st, c: p[0].draw_bits()}


def aux_gen(ex, rep):
    p0 = []
    p = Protocol(ex, rep, AG, "AuxGenProtocol", "AuxGenError", {1: "Round1", 2: "Round2", 3: "Round3"}, opaque={PKW, PK, SKW, SK, RPW, RPP, PRMP, MODP, FACP},
                 handlers={AG + "PublicData::<P>::hash": plain_hash("public data"), SID + "::new": sid_new,
                           PKW + "::<P>::into_precomputed": convert(PK, True), PK + "::<P>::into_wire": convert(PKW, False),
                           SKW + "::<P>::into_precomputed": convert(SK, True), SK + "::<P>::into_wire": convert(SKW, False),
                           RPW + "::<P>::to_precomputed": convert(RPP, True), RPP + "::<P>::to_wire": convert(RPW, False),
                           **{f"{t}::<P>::modulus": modulus for t in (PKW, PK, RPW, RPP)},
                           **key_material(p0)})
    p0.append(p)
    p.adata = AG + "AuxGenAssociatedData"
    sk = Agg(SK, [Op("precomputed", Op("own secret key"))])
    # this party's ring-Pedersen parameters are those in the message that the sender has passed on
    rp = Agg(RPP, [Op("precomputed", Op("echo2.rp_params", norm(iv(p.mine))))])
    p.ctx = mk(AG + "Context", ex.mir, paillier_sk=sk, rp_params=rp, my_id=p.me, other_ids=p.ids, sid=p.sid)
    p.own = value(ex, ("adt", AG + "PublicData", ()), "own", 0)
    p.own = put(ex.mir, p.own, "rp_params", rp)
    p.own = put(ex.mir, p.own, "paillier_pk", secret_key(sk))
    p.r1 = mk(AG + "Round1", ex.mir, context=p.ctx, public_data=p.own)
    return p


@theorem("AuxGen: rejected messages are convicted by their evidence and accepted ones are not", props=["C29"])
def ag_evidence(ex, rep):
    with aux_gen(ex, rep) as p:
        p.convicts(1, p.r1)
        s1, _ = p.accepted(1, p.r1)
        r2 = p.next(1, p.r1)
        p.convicts(2, r2, s1)
        s2, _ = p.accepted(2, r2, s1)
        r3 = p.next(2, r2)
        lemma(rep, "Rounds", "combined_contributions")
        r3 = put(ex.mir, r3, "rid_combined", p.combined("m2.echo_broadcast.rid", "echo2.rid"))
        p.convicts(3, r3, s2)


def fields(ex, v, *path):
    for n in path:
        v = fld(ex.mir, v, n)
    return v


@theorem("AuxGen: what is accepted and what results", props=["C29"])
def ag_results(ex, rep):
    with aux_gen(ex, rep) as p:
        r1 = p.r1
        r2 = p.next(1, r1)
        r3 = p.next(2, r2)
        val = lambda t, n: lambda j: value(ex, ("adt", t, ()), n, j)
        cv = val(HO, "m1.echo_broadcast.cap_v")
        prove(rep, "round 1: the context and the own data are kept", [], z3.BoolVal(alike((fields(ex, r2, "context"), p.ctx), (fields(ex, r2, "public_data"), p.own))))
        prove(rep, "round 1: the commitment of every party is kept under its name", p.pos(), per_party(p, fields(ex, r2, "cap_vs"), cv))
        pre = lambda t, f: lambda j: Agg(t, [Op("precomputed", f(j).fs[0])])
        pk, rp = pre(PK, val(PKW, "m2.normal_broadcast.paillier_pk")), pre(RPP, val(RPW, "m2.echo_broadcast.rp_params"))
        psi, u, rid = val(PRMP, "m2.normal_broadcast.psi"), val(BV, "m2.normal_broadcast.u"), val(BV, "m2.echo_broadcast.rid")
        data = mk(AG + "PublicData", ex.mir, paillier_pk=pk(p.i), rp_params=rp(p.i), psi=psi(p.i), rid=rid(p.i), u=u(p.i))
        opens = hash_value("public data", data, p.sid, p.guilty)
        large = lambda x: ext.BITS(norm(z3.Int(f"modulus({key(x.fs[0].args[0])})"))) >= 2 * z3.Int("PRIME_BITS") - 2
        aux = Agg("tuple", [p.sid, p.guilty])
        p.only_if(2, r2, [("R2HashMismatch", equal_hashes(opens, cv(p.i))), ("R2PaillierModulusTooSmall", large(pk(p.i))), ("R2RPModulusTooSmall", large(rp(p.i))),
                          ("R2PrmFailed", accepts("PrmProof", psi(p.i), rp(p.i), aux))])
        prove(rep, "round 2: the context is kept", [], same(fields(ex, r3, "context"), p.ctx))
        mine = Agg(BV, [core.res_add(fields(ex, p.own, "rid").fs[0], folds.psum(p.n, lambda j: rid(j).fs[0]))])
        prove(rep, "round 2: the contributions of all parties are combined", p.pos(), eq(ex, fields(ex, r3, "rid_combined"), mine))
        pay = lambda pk, rp, rid: mk(AG + "Round2Payload", ex.mir, paillier_pk=pk, rp_params=rp, rid=rid)
        m = fields(ex, r3, "r2_payloads")
        isw = m.tag == "with" and alike((m.fs[1], p.me), (m.fs[2], pay(*[fields(ex, p.own, n) for n in ("paillier_pk", "rp_params", "rid")])))
        prove(rep, "round 2: this party's data are added under its name", [], z3.BoolVal(isw))
        prove(rep, "round 2: the data of every other party are kept under its name", p.pos(), per_party(p, m.fs[0], lambda j: pay(pk(j), rp(j), rid(j))))
        aux = Agg("tuple", [p.sid, p.guilty, fields(ex, r3, "rid_combined")])
        psi3, fac = val(MODP, "m3.normal_broadcast.psi_prime")(p.i), val(FACP, "m3.direct_message.psi")(p.i)
        p.only_if(3, r3, [("R3ModFailed", accepts("ModProof", psi3, pk(p.i), aux)), ("R3FacFailed", accepts("FacProof", fac, pk(p.i), fields(ex, p.ctx, "rp_params"), aux))])
        # the result, for any collection of accepted data
        m = Agg("map", [p.keys, Seq(n=p.n, f=lambda j: pay(pk(j), rp(j), rid(j)))])
        outs = p.finalize(3, put(ex.mir, r3, "r2_payloads", m))
        n = 0
        for s, v in outs:
            if isinstance(v, Panic) or v.var != 0:
                prove(rep, "the last round does not fail", s.pc, FALSE)
                continue
            n += 1
            a = v.fs[0].fs[0] if v.fs[0].var == 1 else None
            if a is None:
                prove(rep, "the last round gives a result", s.pc, FALSE)
                continue
            sec = fields(ex, a, "secret", "paillier_sk")
            prove(rep, "the result has this party's name and secret key", s.pc, z3.BoolVal(alike((fields(ex, a, "owner"), p.me), (sec, Agg(SKW, [form(ex, s, fields(ex, p.ctx, "paillier_sk"))[0]])))))
            pub = fields(ex, a, "public").fs[0]
            while isinstance(pub, Agg) and pub.tag != "map":
                pub = pub.fs[0]
            want = lambda j: mk("entities::full::PublicAuxInfo", ex.mir, paillier_pk=Agg(PKW, [pk(j).fs[0].args[0]]), rp_params=Agg(RPW, [rp(j).fs[0].args[0]]))
            prove(rep, "the result has the public data of every party under its name", s.pc + p.pos(), per_party(p, pub, want))
        if not n:
            raise Unsupported("no result")


@theorem("AuxGen: messages of honest parties are accepted", props=["C29"])
def ag_honest(ex, rep):
    with aux_gen(ex, rep) as p:
        ent = mk(AG + "AuxGen", ex.mir, all_ids=p.all, phantom=Agg("core::marker::PhantomData", []))
        one = mem(lambda j: p.begin("AuxGen", ent, j))
        msg1 = mem(lambda j: p.send(1, one(j)))
        two = mem(lambda j: p.next(1, one(j)))
        msg2 = mem(lambda j: p.send(2, two(j)))
        p.honest(1, p.r1, msg1(p.i))
        r2 = p.next(1, p.r1, msg1)
        p.honest(2, r2, msg2(p.i))
        r3 = p.next(2, r2, msg2)
        # both combine the contributions of all parties; the sender has this party's data from its message
        lemma(rep, "Rounds", "combined_contributions")
        m = fields(ex, r3, "r2_payloads")
        if m.tag != "with" or key(m.fs[1]) != key(p.me):
            raise Unsupported("collection of the payloads")
        three = p.next(2, two(p.i))
        r3 = put(ex.mir, r3, "rid_combined", fields(ex, three, "rid_combined"))
        three = put(ex.mir, three, "r2_payloads", Agg("with", [m.fs[0], p.me, m.fs[2]]))
        p.honest(3, r3, p.send(3, three, p.me))


@theorem("AuxGen: commitments bind the session, the party and all of the data", props=["C29"])
def ag_hash(ex, rep):
    with aux_gen(ex, rep):
        hash_binds(ex, rep, AG)


# ---------------------------------------------------------------- interactive signing
IS, KSH = "protocols::interactive_signing::", "entities::full::KeyShare"
CTW, CT = "paillier::encryption::CiphertextWire", "paillier::encryption::Ciphertext"
ENCP, ELOGP, AFFGP = "zk::enc_elg::EncElgProof", "zk::elog::ElogProof", "zk::aff_g::AffGProof"


NAMED = {}


def named(name, t):
    """a map with an entry for every party"""
    NAMED[name] = t
    return Agg("named", [Op(name)])


def got_named(ex, st, c):
    r = ex.lastref(st, c.vals[0])
    m = ex.read(st, r.cell, r.proj)
    while isinstance(m, Agg) and m.tag == "manul::utils::SerializableMap":
        r, m = Ref(r.cell, r.proj + (("f", 0),)), m.fs[0]
        c = with_vals(c, [r] + list(c.vals[1:]))
    if isinstance(m, Agg) and m.tag == "sent map" and SENT[0].full:
        k = D(ex, st, c.vals[1])
        if not (isinstance(k, Agg) and k.tag == "pid"):
            raise Unsupported("look-up of a party")
        v = some(ex.ref(st, sent_entry(ex, m, k.fs[0])))
        if checked_keys(m, st):
            return v
        return lib.branches(ex, st, z3.Bool(f"has<{m.fs[0].tag} of {key(m.fs[0].args[0])}>({key(k)})"), v, ext.NONE)
    if isinstance(m, Agg) and m.tag == "sent map":
        return ext.mget(ex, st, with_vals(c, [ex.ref(st, sent_map(ex, m, st))] + list(c.vals[1:])))
    if isinstance(m, Agg) and m.tag == "named":
        k = D(ex, st, c.vals[1])
        if not (isinstance(k, Agg) and k.tag == "pid"):
            raise Unsupported("look-up of a party")
        return some(ex.ref(st, NAMED[m.fs[0].tag](k.fs[0])))
    return got(ex, st, c)


def scalar_of(tag, *vs):
    """a scalar that is determined by the arguments"""
    x = value(None, SCALT, "", 0).fs[0]
    return Agg("curve::arithmetic::Scalar", [core.Res(x.m, e=z3.Int(f"{tag}({','.join(key(v) for v in vs)})"))])


def checked_keys(m, st):
    flag = z3.Bool(f"ids<{m.fs[0].tag} of {key(m.fs[0].args[0])}>")
    return any(z3.eq(flag, x) for x in st.pc)


def sent_entry(ex, m, who):
    """what a map in a message says for a party"""
    return value(ex, m.fs[1].args[0], f"{m.fs[0].tag} of {key(m.fs[0].args[0])} for", who)


def sent_map(ex, m, st):
    """a map in a message, once it is known that its keys are the other parties of the sender"""
    name, pos = m.fs[0].tag, m.fs[0].args[0]
    p = SENT[0]
    if not checked_keys(m, st):
        raise Unsupported("a map of a message whose keys have not been checked")
    if p.full:
        return Agg("map", [p.all.fs[0], Seq(n=p.all.fs[0].n, f=lambda j: sent_entry(ex, m, p.all.fs[0].at(j).fs[0]), key=f"{name} of {key(pos)} for all")])
    return Agg("map", [p.echo, Seq(n=p.echo.n, f=lambda j: value(ex, m.fs[1].args[0], f"{name} of {key(pos)} at", j), key=f"{name} of {key(pos)}")])


SENT = [None]


class TypeArg(tuple):
    """a type, as the argument of a term"""
    def __repr__(self):
        return ext.ts(tuple(self))


def peel(ex, st, v):
    r = ex.lastref(st, v)
    m = ex.read(st, r.cell, r.proj)
    while isinstance(m, Agg) and m.tag == "manul::utils::SerializableMap":
        r, m = Ref(r.cell, r.proj + (("f", 0),)), m.fs[0]
    return r, m


def sent_keys(ex, st, c):
    r, m = peel(ex, st, c.vals[0])
    if m.tag == "sent map":
        return ext.maprefs(0)(ex, st, with_vals(c, [ex.ref(st, Agg("map", [pids(f"sent {m.fs[0].tag} of {key(m.fs[0].args[0])}", length("len(sent)", 0)), Op("values")]))]))
    if m.tag == "named":
        return ext.maprefs(0)(ex, st, with_vals(c, [ex.ref(st, Agg("map", [SENT[0].all.fs[0], Op("values")]))]))
    return ext.maprefs(0)(ex, st, with_vals(c, [r]))


def with_vals(c, vals):
    return ext.Call(c.path, c.cal, vals, None, None, 0, None)


def with_all(ex, st, r, m):
    """a map of the other parties to which this party has been added, as one map (its order does not matter for what is done with it)"""
    from engine import seq_concat
    if m.tag == "with" and len(m.fs) == 3 and m.fs[0].tag == "map":
        return ex.ref(st, Agg("map", [seq_concat(Seq(items=(m.fs[1],)), m.fs[0].fs[0]), seq_concat(Seq(items=(m.fs[2],)), m.fs[0].fs[1])]))
    return r


def one_value(ex, st, f, v):
    s1 = st.copy()
    o = ex.call_fnv(s1, f, [ex.ref(s1, v)])
    if len(o) != 1 or isinstance(o[0][1], Panic):
        raise Unsupported("values of a map")
    return clean(ex, o[0][0], o[0][1])


def map_values(ex, st, c):
    r, m = peel(ex, st, c.vals[0])
    g = ex.ref(st, c.vals[1], True) if not isinstance(c.vals[1], core.FnV) else c.vals[1]
    st = st.copy()

    def over(m):
        f = mem(lambda j: one_value(ex, st, g, m.fs[1].at(j)))
        return Agg("map", [m.fs[0], Seq(n=m.fs[1].n, f=f, key=f"values {key(f(z3.Int('some position')))}")])
    if m.tag == "with" and len(m.fs) == 3 and m.fs[0].tag == "map":
        return Agg("with", [over(m.fs[0]), m.fs[1], one_value(ex, st, g, m.fs[2])])
    return over(m)


def sent_values(ex, st, c):
    r, m = peel(ex, st, c.vals[0])
    if m.tag == "sent map":
        r = ex.ref(st, sent_map(ex, m, st))
    return ext.maprefs(1)(ex, st, with_vals(c, [with_all(ex, st, r, m)]))


def sent_iter(ex, st, c):
    r, m = peel(ex, st, c.vals[0])
    r = with_all(ex, st, r, m)
    if m.tag == "sent map":
        r = ex.ref(st, sent_map(ex, m, st))
    return ext.miter(ex, st, with_vals(c, [r]))


def compare(n):
    def f(ex, st, c):
        vs = [D(ex, st, v) for v in c.vals]
        if all(isinstance(v, Agg) and v.tag == "set" for v in vs):
            # the same elements position by position: equal sets
            a, b = (clean(ex, st, v).fs[0] for v in vs)
            x = z3.Int("some position")
            if a.items is b.items is a.keep is b.keep is None and key(a.n) == key(b.n) and key(clean(ex, st, a.at(x))) == key(clean(ex, st, b.at(x))):
                return z3.BoolVal(n == "eq")
        if all(isinstance(v, Agg) and v.tag in ("set", "without") for v in vs) and (not SENT[0].full or "PID<sent " in key(vs[0])):
            g = sets_equal(ex, st, *[clean(ex, st, v) for v in vs])
            return g if n == "eq" else z3.Not(g)
        return ext.HANDLERS["core::cmp::PartialEq::" + n](ex, st, c)
    return f


def sets_equal(ex, st, a, b):
    p = SENT[0]
    if a.tag == "set" and b.tag == "without" and not p.full and key(a.fs[0].n) == key(p.echo.n) and a.fs[0].items is a.fs[0].keep is None:
        x = z3.Int("some position")
        if key(clean(ex, st, a.fs[0].at(x))) == key(p.echo.at(x)) and key(b.fs[0]) == key(p.all) and key(b.fs[1]) == key(p.guilty):
            return TRUE           # (the parties that the sender has passed messages on of are all but itself)
    if a.tag != "set" or b.tag != ("set" if SENT[0].full else "without"):
        raise Unsupported("comparison of sets")
    x = a.fs[0].at(z3.Int("some position"))
    x = clean(ex, st, x)
    f = x.fs[0].decl().name()
    if f.startswith("PID<sent ") and SENT[0].full:
        if key(b) != key(SENT[0].all):
            raise Unsupported("comparison of sets")
        return z3.Bool(f"ids<{f[len('PID<sent '):-1]}>")
    if not f.startswith("PID<sent ") or key(b.fs[0]) != key(SENT[0].all) and key(clean(ex, st, b.fs[0].fs[0].at(z3.Int("some position")))) != key(SENT[0].all.fs[0].at(z3.Int("some position"))) or key(b.fs[1]) != key(SENT[0].guilty):
        raise Unsupported("comparison of sets")
    return z3.Bool(f"ids<{f[len('PID<sent '):-1]}>")


def signing(ex, rep):
    scalar = lambda tag: lambda ex, st, c: scalar_of(tag, *[clean(ex, st, v) for v in c.vals])
    pre = lambda ex, st, c: Agg(CT, [Op("under", clean(ex, st, c.vals[0]), clean(ex, st, c.vals[1]))])
    p = Protocol(ex, rep, IS, "InteractiveSigningProtocol", "InteractiveSigningError", {1: "Round1", 2: "Round2", 3: "Round3", 4: "Round4"}, opaque={PKW, PK, SKW, SK, RPW, RPP, CTW, CT, ENCP, ELOGP, AFFGP},
                 handlers={IS + "Epid::new": lambda ex, st, c: Agg(IS + "Epid", [Op("epoch", *[clean(ex, st, x) for x in c.vals])]),
                           PKW + "::<P>::into_precomputed": convert(PK, True), RPW + "::<P>::to_precomputed": convert(RPP, True),
                           CTW + "::<P>::to_precomputed": pre, CT + "::<P>::decrypt": lambda ex, st, c: Op("decrypted", *[clean(ex, st, v) for v in c.vals]),
                           [x for x in ex.mir.fns if x.endswith("::secret_scalar_from_signed")][0]: lambda ex, st, c: Agg(SEC, [scalar_of("of", clean(ex, st, c.vals[0]))]),
                           "curve::arithmetic::Scalar::<P>::from_reduced_bytes": scalar("reduced"), "curve::arithmetic::Point::<P>::x_coordinate": scalar("x"),
                           [x for x in ex.mir.fns if x.endswith("::verifying_key_as_point")][0]: lambda ex, st, c: pnt(pt_at("key", 0)),
                           **{t + "::<P>::verify": lambda ex, st, c, t=t: accepts(t.split("::")[-1], *[clean(ex, st, v) for v in c.vals]) for t in (ENCP, ELOGP, AFFGP)}})
    key_of = lambda n: lambda j: Op(n, norm(iv(j)))
    p.auxw = lambda j: mk("entities::full::PublicAuxInfo", ex.mir, paillier_pk=Agg(PKW, [key_of("paillier_pk")(j)]), rp_params=Agg(RPW, [key_of("rp_params")(j)]))
    p.auxp = lambda j: mk("entities::full::PublicAuxInfoPrecomputed", ex.mir, paillier_pk=Agg(PK, [Op("precomputed", key_of("paillier_pk")(j))]), rp_params=Agg(RPP, [Op("precomputed", key_of("rp_params")(j))]))
    smap = lambda n, t: Agg("manul::utils::SerializableMap", [named(n, t)])
    p.advalue = mk(IS + "InteractiveSigningAssociatedData", ex.mir, shares=Agg("entities::full::PublicKeyShares", [smap("shares", lambda j: pnt(pt_at("share", j)))]),
                   aux=Agg("entities::full::PublicAuxInfos", [smap("aux (wire)", p.auxw)]), message=Op("message"))
    p.epid = Agg(IS + "Epid", [Op("epoch", p.rnd, p.advalue)])
    sec = lambda n: Agg(SEC, [scal(scalar_fn(n, True)(z3.IntVal(0)))])
    p.share = Agg(KSH, [fields(ex, p.advalue, "shares") if n == "public" else Op(n) for n, _ in ex.mir.adts[KSH]["variants"][0][1]])
    p.ctx = mk(IS + "Context", ex.mir, scalar_message=scalar_of("reduced", Op("message")), epid=p.epid, my_id=p.me, other_ids=p.ids, all_ids=p.all, key_share=p.share, aux_info=mk("entities::full::AuxInfoPrecomputed", ex.mir, secret_aux=mk("entities::full::SecretAuxInfoPrecomputed", ex.mir, paillier_sk=Agg(SK, [Op("precomputed", Op("own secret key"))])), public_aux=named("aux", p.auxp)),
               **{n: sec(n) for n in ("k", "gamma", "a", "b")}, rho=Op("rho"), nu=Op("nu"))
    return p


def earlier(p, *ms):
    """the messages of earlier rounds, which were accepted, decode"""
    st = State()
    for r, t in ms:
        k = next(k for k in KINDS if "".join(w.capitalize() for w in k.split("_")) in t)
        pt = part(f"m{r}.{k}", p.i)
        g = [("param", "P"), ("param", "Id")][:len(p.ex.mir.adts[p.mod + t]["generics"])]
        st.pc.append(decodes(pt, ("adt", p.mod + t, tuple(g))))
    return st


@theorem("InteractiveSigning: round 1", props=["C30"])
def is_round1(ex, rep):
    with signing(ex, rep) as p:
        r1 = mk(IS + "Round1", ex.mir, context=p.ctx, r1_echo_broadcast=Op("own broadcast"))
        p.convicts(1, r1)
        val = lambda t, n: value(ex, ("adt", t, ()), n, p.i)
        pt = lambda n: val("curve::arithmetic::Point", "m1.echo_broadcast." + n)
        j, me = p.guilty.fs[0], p.me.fs[0]
        pk, rp = fields(ex, p.auxp(j), "paillier_pk"), fields(ex, p.auxp(me), "rp_params")
        def good(psi, c, b, x):
            c = Agg(CT, [Op("under", val(CTW, "m1.echo_broadcast." + c), pk)])
            return accepts("EncElgProof", val(ENCP, "m1.direct_message." + psi), mk("zk::enc_elg::EncElgPublicInputs", ex.mir, pk0=pk, cap_c=c, cap_a=pt("cap_y"), cap_b=pt(b), cap_x=pt(x)), rp, Agg("tuple", [p.epid, p.guilty]))
        p.only_if(1, r1, [("R1EncElg0Failed", good("psi0", "cap_k", "cap_a1", "cap_a2")), ("R1EncElg1Failed", good("psi1", "cap_g", "cap_b1", "cap_b2"))])

        def contributes(ex, pc, got):
            prove(rep, "round 1: the encrypted nonce share is kept under the sender's key", pc, eq(ex, fields(ex, got, "cap_k"), Agg(CT, [Op("under", val(CTW, "m1.echo_broadcast.cap_k"), pk)])))
            for f in ("cap_a1", "cap_a2", "cap_b1", "cap_b2", "cap_y"):
                prove(rep, f"round 1: the sender's point {f} is kept", pc, eq(ex, fields(ex, got, f), pt(f)))
        each(p, rep, 1, r1, contributes)


def each(p, rep, r, state, good, after=None):
    """what a message of round r contributes when it is accepted"""
    n = 0
    for s, k, v in p.receive(r, state, after):
        if k == "accepted":
            n += 1
            good(p.ex, s.pc, bare(clean(p.ex, s, v.fs[0])))
    if not n:
        raise Unsupported(f"accepted messages of round {r}")


SCALT, PNTT = ("adt", "curve::arithmetic::Scalar", ()), ("adt", "curve::arithmetic::Point", ())


def of_sender(p, f):
    """a map of what every party has sent in an earlier round; f(position) for the sender of the message at hand"""
    def g(j):
        if key(norm(iv(j))) == key(norm(iv(p.guilty.fs[0]))):
            return f(p.i)
        raise Unsupported("what another party has sent")
    return g


def total_point(p, mine, others):
    """the sum of the points of the sender and of those that it has passed on"""
    g = value(p.ex, PNTT, mine, p.i).fs[0]
    return Agg("curve::arithmetic::Point", [core.res_add(g, folds.psum(p.echo.n, lambda j: pt_at(others, j)))])


def total_scalar(p, mine, others):
    g = value(p.ex, SCALT, mine, p.i).fs[0]
    f = scalar_fn(others, True)
    x = folds.sum_(p.echo.n, lambda j: core.as_int(f(j)))
    return Agg("curve::arithmetic::Scalar", [core.res_add(g, core.Res(g.m, e=x))])


@theorem("InteractiveSigning: round 3", props=["C30"])
def is_round3(ex, rep):
    with signing(ex, rep) as p:
        # the sum over all parties does not depend on who forms it (Lean); the sender's echo broadcasts of rounds 1 and 2 are the messages m1, m2
        lemma(rep, "Rounds", "combined_contributions")
        pt = lambda n: value(ex, PNTT, n, p.i)
        pay = lambda j: mk(IS + "Round1Payload", ex.mir, cap_k=Op("K"), **{n: value(ex, PNTT, "m1.echo_broadcast." + n, j) for n in ("cap_a1", "cap_a2", "cap_b1", "cap_b2", "cap_y")})
        gamma = total_point(p, "m2.echo_broadcast.cap_gamma", "echo2.cap_gamma")
        vals = {n: Op(n) for n, _ in ex.mir.adts[IS + "Round3"]["variants"][0][1]}
        vals.update(context=p.ctx, cap_gamma_combined=gamma, r1_payloads=named("round 1 payloads", of_sender(p, pay)))
        r3 = mk(IS + "Round3", ex.mir, **vals)
        p.convicts(3, r3, earlier(p, (1, "Round1EchoBroadcast"), (2, "Round2EchoBroadcast")))
        psi = Agg(ELOGP, [Op("m3.normal_broadcast.psi_prime", norm(iv(p.i)))])
        pub = mk("zk::elog::ElogPublicInputs", ex.mir, cap_l=pt("m1.echo_broadcast.cap_a1"), cap_m=pt("m1.echo_broadcast.cap_a2"), cap_x=pt("m1.echo_broadcast.cap_y"), cap_y=pt("m3.normal_broadcast.cap_delta"), h=gamma)
        p.only_if(3, r3, [("R3ElogFailed", accepts("ElogProof", psi, pub, Agg("tuple", [p.epid, p.guilty])))])

        def contributes(ex, pc, got):
            prove(rep, "round 3: the sender's delta is kept", pc, eq(ex, fields(ex, got, "delta"), value(ex, SCALT, "m3.echo_broadcast.delta", p.i)))
            for f in ("cap_delta", "cap_s"):
                prove(rep, f"round 3: the sender's point {f} is kept", pc, eq(ex, fields(ex, got, f), pt("m3.normal_broadcast." + f)))
        each(p, rep, 3, r3, contributes, earlier(p, (1, "Round1EchoBroadcast"), (2, "Round2EchoBroadcast")))


@theorem("InteractiveSigning: round 4", props=["C30"])
def is_round4(ex, rep):
    with signing(ex, rep) as p:
        lemma(rep, "Rounds", "combined_contributions")
        gamma = total_point(p, "m2.echo_broadcast.cap_gamma", "echo2.cap_gamma")
        delta = total_scalar(p, "m3.echo_broadcast.delta", "echo3.delta").fs[0]
        inv = lib.scalar_inv(delta)
        scaled = lambda n: of_sender(p, lambda j: Agg("curve::arithmetic::Point", [core.res_pow(value(ex, PNTT, n, j).fs[0], core.as_int(inv))]))
        pre = mk(IS + "PresigningData", ex.mir, cap_gamma_combined=gamma, tilde_k=Op("k"), tilde_chi=Op("chi"), tilde_cap_deltas=named("Deltas", scaled("m3.normal_broadcast.cap_delta")),
                 tilde_cap_ss=named("Ss", scaled("m3.normal_broadcast.cap_s")))
        r4 = mk(IS + "Round4", ex.mir, context=p.ctx, presigning_data=pre, sigma=Op("sigma"))
        before = earlier(p, (2, "Round2EchoBroadcast"), (3, "Round3EchoBroadcast"), (3, "Round3NormalBroadcast"))
        before.pc.append(lib.unit_cond(delta))          # (round 3 leads to round 4 only then)
        p.convicts(4, r4, before)
        # gamma sigma = (message Delta + nonce S) / delta
        sigma = value(ex, SCALT, "m4.normal_broadcast.sigma", p.i).fs[0]
        pw = lambda a, b: core.res_pow(a.fs[0], core.as_int(b))
        right = core.res_add(pw(scaled("m3.normal_broadcast.cap_delta")(p.guilty.fs[0]), fields(ex, p.ctx, "scalar_message").fs[0]),
                             pw(scaled("m3.normal_broadcast.cap_s")(p.guilty.fs[0]), scalar_of("x", gamma).fs[0]))
        g = ext.veq(pnt(pw(gamma, sigma)), pnt(right))
        p.only_if(4, r4, [("R4InvalidSignatureShare", g)])
        each(p, rep, 4, r4, lambda ex, pc, got: prove(rep, "round 4: the sender's share of the signature is kept", pc, eq(ex, fields(ex, got, "sigma"), value(ex, SCALT, "m4.normal_broadcast.sigma", p.i))), before)


@theorem("InteractiveSigning: round 2", props=["C30"])
def is_round2(ex, rep):
    with signing(ex, rep) as p:
        SENT[0] = p
        pay = lambda n, j, pid: mk(IS + "Round1Payload", ex.mir, cap_k=Agg(CT, [Op("under", value(ex, ("adt", CTW, ()), n + ".cap_k", j), fields(ex, p.auxp(pid), "paillier_pk"))]),
                                   **{x: value(ex, PNTT, f"{n}.{x}", j) for x in ("cap_a1", "cap_a2", "cap_b1", "cap_b2", "cap_y")})

        def payload(j):
            if key(norm(iv(j))) == key(norm(iv(p.guilty.fs[0]))):
                return pay("m1.echo_broadcast", p.i, j)
            if z3.is_app(j) and j.decl().name() == "PID<echoing>":
                return pay("echo1", j.arg(0), j)
            raise Unsupported("what another party has sent")
        vals = {n: Op(n) for n, _ in ex.mir.adts[IS + "Round2"]["variants"][0][1]}
        vals.update(context=p.ctx, r1_payloads=named("round 1 payloads", payload))
        r2 = mk(IS + "Round2", ex.mir, **vals)
        p.convicts(2, r2, earlier(p, (1, "Round1EchoBroadcast")))
        val = lambda t, n: lambda j: value(ex, ("adt", t, ()), f"{n} of {key(norm(iv(p.i)))} at", j)
        ids = lambda n: z3.And([z3.Bool(f"ids<m2.{x} of {key(norm(iv(p.i)))}>") for x in n])
        gamma, share = value(ex, PNTT, "m2.echo_broadcast.cap_gamma", p.i), pnt(pt_at("share", p.guilty.fs[0]))
        aux = Agg("tuple", [p.epid, p.guilty])
        pk = lambda j: fields(ex, p.auxp(j), "paillier_pk")

        def affg(psis, ds, fs, x):
            def c(j):
                to = p.echo.at(j).fs[0]
                pub = mk("zk::aff_g::AffGPublicInputs", ex.mir, pk0=pk(to), pk1=pk(p.guilty.fs[0]), cap_c=fields(ex, payload(to), "cap_k"),
                         cap_d=Agg(CT, [Op("under", val(CTW, "m2." + ds)(j), pk(to))]), cap_y=Agg(CT, [Op("under", val(CTW, "m2." + fs)(j), pk(p.guilty.fs[0]))]), cap_x=x)
                return accepts("AffGProof", val(AFFGP, "m2." + psis)(j), pub, fields(ex, p.auxp(to), "rp_params"), aux)
            return c
        m1 = lambda n: value(ex, PNTT, "m1.echo_broadcast." + n, p.i)
        elog = mk("zk::elog::ElogPublicInputs", ex.mir, cap_l=m1("cap_b1"), cap_m=m1("cap_b2"), cap_x=m1("cap_y"), cap_y=gamma, h=pnt(Res(GROUP, w={"G": ("G", z3.IntVal(1))})))
        nb, eb = "normal_broadcast.", "echo_broadcast."
        p.only_if(2, r2, [("R2WrongIdsD", ids([nb + "cap_ds", nb + "hat_cap_ds"])), ("R2WrongIdsF", ids([eb + "cap_fs", eb + "hat_cap_fs"])), ("R2WrongIdsPsi", ids([nb + "psis", nb + "hat_psis"])),
                          ("R2AffGPsiFailed", affg(nb + "psis", nb + "cap_ds", eb + "cap_fs", gamma)), ("R2AffGHatPsiFailed", affg(nb + "hat_psis", nb + "hat_cap_ds", eb + "hat_cap_fs", share)),
                          ("R2ElogFailed", accepts("ElogProof", Agg(ELOGP, [Op("m2.normal_broadcast.psi_elog", norm(iv(p.i)))]), elog, aux))])
        def contributes(ex, pc, got):
            """the ciphertexts for every party and by whom, and what this party learns from the ones for it"""
            of = lambda n, pub: lambda j: Agg(CT, [Op("under", val(CTW, "m2." + n)(j), pub(p.echo.at(j).fs[0]))])
            its, own = lambda to: pk(to), lambda to: pk(p.guilty.fs[0])
            a = z3.Int("a party")
            for f, c in (("cap_ds", of(nb + "cap_ds", its)), ("cap_fs", of(eb + "cap_fs", own)), ("hat_cap_ds", of(nb + "hat_cap_ds", its)), ("hat_cap_fs", of(eb + "hat_cap_fs", own))):
                m = fields(ex, got, f)
                g = FALSE if m.tag != "map" else z3.And(m.fs[0].n == p.echo.n, m.fs[1].n == p.echo.n, eq(ex, m.fs[0].at(a), p.echo.at(a)), eq(ex, m.fs[1].at(a), c(a)))
                prove(rep, f"round 2: the ciphertexts {f} are kept under the names of those they are for", pc + [a >= 0, a < p.echo.n], g)
            sk = fields(ex, p.ctx, "aux_info", "secret_aux", "paillier_sk")
            for f, n in (("alpha", "cap_ds"), ("hat_alpha", "hat_cap_ds")):
                prove(rep, f"round 2: {f} is what the sender's ciphertext in {n} for this party holds", pc, eq(ex, fields(ex, got, f), Agg(SEC, [scalar_of("of", Op("decrypted", of(nb + n, its)(p.mine), sk))])))
            prove(rep, "round 2: the sender's Gamma is kept", pc, eq(ex, fields(ex, got, "cap_gamma"), gamma))
        each(p, rep, 2, r2, contributes, earlier(p, (1, "Round1EchoBroadcast")))


@theorem("InteractiveSigning: what round 2 computes", props=["C30"])
def is_shares(ex, rep):
    """the shares of the inverse of the nonce and of the masked key, from this party's secrets and from what it has decrypted"""
    with signing(ex, rep) as p:
        sec = lambda n: lambda j: Agg(SEC, [scal(scalar_fn(n, True)(j))])
        at0 = lambda n: sec(n)(z3.IntVal(0))
        table = lambda n: Agg("map", [p.keys, Seq(n=p.n, f=lambda j: Op(n, norm(iv(j))), key=n)])
        none = lambda n: Agg("map", [Seq(items=[]), Seq(items=[])])
        ctx = put(ex.mir, p.ctx, "key_share", Agg(KSH, [at0("x") if n == "secret" else x for (n, _), x in zip(ex.mir.adts[KSH]["variants"][0][1], p.share.fs)]))
        cts = ("cap_ds", "cap_fs", "hat_cap_ds", "hat_cap_fs")
        own_pt = lambda n: value(ex, PNTT, "own " + n, 0)
        own = mk(IS + "Round1Payload", ex.mir, cap_k=Op("K"), **{n: own_pt(n) for n in ("cap_a1", "cap_a2", "cap_b1", "cap_b2", "cap_y")})
        vals = {n: Op(n) for n, _ in ex.mir.adts[IS + "Round2"]["variants"][0][1]}
        gamma = value(ex, PNTT, "own Gamma", 0)
        vals.update(context=ctx, cap_gamma=gamma, betas=table("beta"), hat_betas=table("hat beta"), r1_payloads=named("round 1 payloads", lambda j: own), **{n: none(n) for n in cts})
        r2 = mk(IS + "Round2", ex.mir, **vals)
        pay = lambda j: mk(IS + "Round2Payload", ex.mir, cap_gamma=value(ex, PNTT, "m2.Gamma", j), alpha=sec("alpha")(norm(iv(j))), hat_alpha=sec("hat alpha")(norm(iv(j))), **{n: none(n) for n in cts})
        pm = Agg("map", [p.keys, Seq(n=p.n, f=lambda j: Agg("payload", [pay(j), Op(ext.ts(("adt", IS + "Round2Payload", (("param", "P"), ("param", "Id")))))]), key="payloads of round 2")])
        ex.handlers[ELOGP + "::<P>::new"] = prover(ELOGP)
        f = lambda n: lambda j: core.as_int(sec(n)(j).fs[0].fs[0])
        summed = lambda n: folds.sum_(p.n, f(n))
        of = lambda n: folds.sum_(p.n, lambda j: core.as_int(scalar_of("of", Op(n, norm(iv(j)))).fs[0]))
        sc = lambda x: scal(core.Res(core.QMOD, e=norm(x)))
        prod = lambda a, b: f(a)(z3.IntVal(0)) * f(b)(z3.IntVal(0))
        total = pnt(core.res_add(gamma.fs[0], folds.psum(p.n, lambda j: value(ex, PNTT, "m2.Gamma", j).fs[0])))
        delta, chi = sc(prod("gamma", "k") + summed("alpha") + of("beta")), sc(prod("x", "k") + summed("hat alpha") + of("hat beta"))
        times = lambda pt, x: pnt(core.res_pow(pt.fs[0], core.as_int(x.fs[0])))
        big = times(total, at0("k").fs[0])
        inputs_ = mk("zk::elog::ElogPublicInputs", ex.mir, cap_l=own_pt("cap_a1"), cap_m=own_pt("cap_a2"), cap_x=own_pt("cap_y"), cap_y=big, h=total)
        proof = Agg(ELOGP, [Op("honest", mk("zk::elog::ElogSecretInputs", ex.mir, y=at0("k"), **{"lambda": at0("a")}), inputs_, Agg("tuple", [p.epid, p.me]))])
        n = 0
        for s, v in p.run(p.method(2, "finalize"), None, [r2, Op("rng"), pm, Op("artifacts")]):
            if isinstance(v, Panic) or v.var != 0 or v.fs[0].var != 0 or v.fs[0].fs[0].tag != IS + "Round3":
                prove(rep, "round 2 leads to round 3", s.pc, FALSE)
                continue
            n += 1
            r3 = clean(ex, s, v.fs[0].fs[0])
            get = lambda *path: fields(ex, r3, *path)
            for what, x, y in (("the combined nonce is the sum of the Gamma of all parties", get("cap_gamma_combined"), total),
                               ("delta is gamma k plus what was decrypted and what was masked", get("r3_echo_broadcast", "delta"), delta),
                               ("chi is x k plus what was decrypted and what was masked", get("chi"), Agg(SEC, [chi])),
                               ("Delta is the combined nonce times k", get("r3_normal_broadcast", "cap_delta"), big),
                               ("S is the combined nonce times chi", get("r3_normal_broadcast", "cap_s"), times(total, chi))):
                prove(rep, "round 2: " + what, s.pc, eq(ex, x, y))
            prove(rep, "round 2: the proof for Delta is about this party's own commitment to k, its combined nonce, its session and its name", s.pc, z3.BoolVal(alike((get("r3_normal_broadcast", "psi_prime"), proof))))
            prove(rep, "round 2: the context and the messages of round 1 are kept", s.pc, z3.BoolVal(alike((get("context"), ctx), (get("r1_payloads"), vals["r1_payloads"]), (get("cap_k"), vals["cap_k"]))))
            for field in ("betas", "hat_betas", "rs", "ss", "hat_rs", "hat_ss"):
                prove(rep, f"round 2: the secrets {field} are kept", s.pc, z3.BoolVal(alike((get(field), vals[field]))))
        if not n:
            raise Unsupported("outcomes of round 2")


@theorem("InteractiveSigning: the messages of an honest party are accepted", props=["C30"])
def is_honest(ex, rep):
    """what a party sends in the first two rounds, from the secrets that it has drawn, is accepted by a party with the same session"""
    with signing(ex, rep) as p:
        hs, SENT[0] = ex.handlers, p

        def draw(ex, st, c):
            return scal(scalar_fn(f"drawn at line {c.line}", True)(z3.IntVal(0)))

        def randomizer(ex, st, c):
            return Op("randomizer", z3.IntVal(c.line), clean(ex, st, c.vals[1]))
        under = lambda w, pk: Agg(CT, [Op("under", Agg(CTW, [w]), pk)])
        enc = lambda pk, x, r: under(Op("encryption", x, r), pk)
        product = lambda a, x: under(Op("product", a, x), a.fs[0].args[1])

        def added(a, b):
            if not alike((a.fs[0].args[1], b.fs[0].args[1])):
                raise Unsupported("ciphertexts under different keys")
            return under(Op("sum", *sorted((a, b), key=lambda v: str(key(v)))), a.fs[0].args[1])
        sk = Agg(SK, [Op("precomputed", Op("sender's secret key"))])
        pk = fields(ex, p.auxp(p.guilty.fs[0]), "paillier_pk")        # the sender has published the key to its secret key
        hs["curve::arithmetic::Scalar::<P>::random"] = draw
        hs["paillier::encryption::Randomizer::<P>::random"] = randomizer
        hs[CT + "::<P>::new_with_randomizer"] = lambda ex, st, c: enc(*[clean(ex, st, v) for v in c.vals])
        hs[CT + "::<P>::to_wire"] = lambda ex, st, c: clean(ex, st, c.vals[0]).fs[0].args[0]
        find = lambda *ws: [x for x in ex.mir.fns if all(w in x for w in ws)]
        ct = "Ciphertext<P> as core::ops::"
        for f in find("paillier", ct + "Mul", "::mul"):
            hs[f] = lambda ex, st, c: product(*[clean(ex, st, v) for v in c.vals])
        for f in find("paillier", ct + "Add", "::add"):
            hs[f] = lambda ex, st, c: added(*[clean(ex, st, v) for v in c.vals])
        for f in find("SecretSigned", "core::ops::Neg", "::neg"):
            hs[f] = lambda ex, st, c: Op("negated", clean(ex, st, c.vals[0]))
        for f in find("::SecretSigned::", "::random_in_exponent_range"):
            hs[f] = lambda ex, st, c: Op("random number", z3.IntVal(c.line))
        hs[SK + "::<P>::public_key"] = lambda ex, st, c: pk
        hs[[x for x in ex.mir.fns if x.endswith("::secret_signed_from_scalar")][0]] = lambda ex, st, c: Op("signed", clean(ex, st, c.vals[0]))
        hs["entities::full::AuxInfo::<P, I>::into_precomputed"] = lambda ex, st, c: mk("entities::full::AuxInfoPrecomputed", ex.mir, secret_aux=mk("entities::full::SecretAuxInfoPrecomputed", ex.mir, paillier_sk=sk), public_aux=named("aux", p.auxp))
        for t in (ENCP, ELOGP, AFFGP):
            hs[t + "::<P>::new"] = prover(t)
        secret = Agg(SEC, [scal(scalar_fn("sender's share", True)(z3.IntVal(0)))])
        gen = lambda s: pnt(Res(GROUP, w={"G": ("G", core.as_int(s.fs[0].fs[0]))}))
        pw = lambda a, s: core.res_pow(a.fs[0], core.as_int(s.fs[0].fs[0]))
        plus = lambda a, b: pnt(core.res_add(a.fs[0] if isinstance(a, Agg) else a, b.fs[0] if isinstance(b, Agg) else b))

        def enc_elg(a, pub):
            g = lambda n: fields(ex, pub, n)
            x, rho, b = [fields(ex, a, n) for n in ("x", "rho", "b")]
            return z3.And(z3.BoolVal(alike((g("cap_c"), enc(g("pk0"), x, rho)))), eq(ex, g("cap_b"), gen(b)), eq(ex, g("cap_x"), plus(pw(g("cap_a"), b), gen(x.args[0]))))

        def elog(a, pub):
            g = lambda n: fields(ex, pub, n)
            y, l = fields(ex, a, "y"), fields(ex, a, "lambda")
            return z3.And(eq(ex, g("cap_l"), gen(l)), eq(ex, g("cap_m"), plus(gen(y), pw(g("cap_x"), l))), eq(ex, g("cap_y"), pnt(pw(g("h"), y))))

        def aff_g(a, pub):
            g = lambda n: fields(ex, pub, n)
            x, y, rho, rho_y = [fields(ex, a, n) for n in ("x", "y", "rho", "rho_y")]
            d = added(product(g("cap_c"), x), enc(g("pk0"), Op("negated", y), rho))
            at = gen(secret) if alike((g("cap_x"), pnt(pt_at("share", p.guilty.fs[0])))) else g("cap_x")       # the sender's public share belongs to its secret share
            return z3.And(z3.BoolVal(alike((g("cap_d"), d), (d.fs[0].args[1], g("pk0")), (g("cap_y"), enc(g("pk1"), y, rho_y)))), eq(ex, at, gen(x.args[0])))
        rel = {ENCP: enc_elg, ELOGP: elog, AFFGP: aff_g}

        def checked(t):
            def f(ex, st, c):
                vs = [clean(ex, st, v) for v in c.vals]
                o = vs[0].fs[0]
                if isinstance(o, Op) and o.tag == "honest" and alike(*zip(o.args[1:], vs[1:])):
                    return rel[t](o.args[0], vs[1])
                return accepts(t.split("::")[-1], *vs)
            return f
        for t in rel:
            hs[t + "::<P>::verify"] = checked(t)
        if not all(f in ex.mir.fns for f in hs if "::<P>::" in f and f.startswith(("paillier::", "zk::", "curve::"))):
            raise Unsupported("functions not found")
        ex.contracts = {f: c for f, c in ex.contracts.items() if f not in hs}
        share = Agg(KSH, [{"owner": p.guilty, "secret": secret, "public": fields(ex, p.advalue, "shares")}[n] for n, _ in ex.mir.adts[KSH]["variants"][0][1]])
        ent = mk(IS + "InteractiveSigning", ex.mir, key_share=share, aux_info=mk("entities::full::AuxInfo", ex.mir, owner=p.guilty, secret=Op("secret"), public=fields(ex, p.advalue, "aux")), message=Op("message"))
        r1s = p.begin("InteractiveSigning", ent, p.i)
        r1 = mk(IS + "Round1", ex.mir, context=p.ctx, r1_echo_broadcast=Op("own broadcast"))
        m1 = p.send(1, r1s, p.me)
        got = [bare(clean(ex, s, v.fs[0])) for s, k, v in p.honest(1, r1, m1) if k == "accepted"]
        # what the two of them know of the others from round 1 (echo broadcasts are the same for all)
        theirs = lambda j: mk(IS + "Round1Payload", ex.mir, cap_k=under(Op("K", j), fields(ex, p.auxp(j), "paillier_pk")), **{x: value(ex, PNTT, "echo1." + x, j) for x in ("cap_a1", "cap_a2", "cap_b1", "cap_b2", "cap_y")})
        pm = Agg("map", [p.echo, Seq(n=p.echo.n, f=lambda j: Agg("payload", [theirs(p.echo.at(j).fs[0]), Op(IS + "Round1Payload<P>")]), key="the sender's payloads of round 1")])
        r1s = put(ex.mir, r1s, "context", put(ex.mir, fields(ex, r1s, "context"), "other_ids", Agg("set", [p.echo])))
        o = [v.fs[0].fs[0] for s, v in p.run(p.method(1, "finalize"), None, [r1s, Op("rng"), pm, Op("artifacts")]) if not isinstance(v, Panic) and v.var == 0]
        if len(o) != 1 or len(got) != 1:
            raise Unsupported(f"{len(o)} outcomes of round 1")
        r1p = lambda j: got[0] if key(norm(iv(j))) == key(norm(iv(p.guilty.fs[0]))) else theirs(j)
        vals = {n: Op(n) for n, _ in ex.mir.adts[IS + "Round2"]["variants"][0][1]}
        vals.update(context=p.ctx, r1_payloads=named("round 1 payloads", r1p))
        p.honest(2, mk(IS + "Round2", ex.mir, **vals), p.send(2, o[0]))


@theorem("InteractiveSigning: nonce and presigning data", props=["C30"])
def is_nonce(ex, rep):
    with signing(ex, rep) as p:
        own = lambda t, n: value(ex, t, "own " + n, 0)
        sec = lambda n: Agg(SEC, [scal(scalar_fn(n, True)(z3.IntVal(0)))])
        vals = {n: Op(n) for n, _ in ex.mir.adts[IS + "Round3"]["variants"][0][1]}
        gamma, chi = own(PNTT, "Gamma"), sec("chi")
        eb = mk(IS + "Round3EchoBroadcast", ex.mir, delta=own(SCALT, "delta"))
        nb = mk(IS + "Round3NormalBroadcast", ex.mir, cap_delta=own(PNTT, "Delta"), psi_prime=Op("psi"), cap_s=own(PNTT, "S"))
        pays = Agg("map", [p.keys, Seq(n=p.n, f=lambda j: mk(IS + "Round1Payload", ex.mir, cap_k=Agg(CT, [Op("K", norm(iv(j)))]), **{n: value(ex, PNTT, n, j) for n in ("cap_a1", "cap_a2", "cap_b1", "cap_b2", "cap_y")}), key="round 1 payloads")])
        vals.update(context=p.ctx, cap_gamma_combined=gamma, chi=chi, r1_payloads=pays, r3_echo_broadcast=eb, r3_normal_broadcast=nb)
        r3 = mk(IS + "Round3", ex.mir, **vals)
        pm = Agg("map", [p.keys, Seq(n=p.n, f=lambda j: Agg("payload", [mk(IS + "Round3Payload", ex.mir, delta=value(ex, SCALT, "m3.delta", j), cap_delta=value(ex, PNTT, "m3.cap_delta", j), cap_s=value(ex, PNTT, "m3.cap_s", j)), Op(IS + "Round3Payload<P>")]), key="payloads of round 3")])
        m3 = lambda t, n: lambda j: value(ex, t, "m3." + n, j)
        total = lambda mine, n: Agg(PNTT[1], [core.res_add(mine.fs[0], folds.psum(p.n, lambda j: m3(PNTT, n)(j).fs[0]))])
        f = scalar_fn("m3.delta", True)
        sc = lambda x: scal(core.Res(core.QMOD, e=x))
        delta = sc(norm(core.as_int(fields(ex, eb, "delta").fs[0]) + folds.sum_(p.n, lambda j: core.as_int(f(j)))))
        times = lambda pt, x: pnt(core.res_pow(pt.fs[0], core.as_int(x.fs[0])))
        big, big_s = total(fields(ex, nb, "cap_delta"), "cap_delta"), total(fields(ex, nb, "cap_s"), "cap_s")
        nonce_ok = ext.veq(pnt(Res(GROUP, w={"G": ("G", core.as_int(delta.fs[0]))})), big)
        key_ok = ext.veq(big_s, times(pnt(pt_at("key", 0)), delta))
        unit = lib.unit_cond(delta.fs[0])
        inv = scal(lib.scalar_inv(delta.fs[0]))
        mul = lambda a, b: sc(norm(core.as_int(a.fs[0]) * core.as_int(b.fs[0])))
        n = 0
        for s, v in p.run(p.method(3, "finalize"), None, [r3, Op("rng"), pm, Op("artifacts")]):
            if isinstance(v, Panic):
                prove(rep, f"round 3 does not panic ({v.why})", s.pc, FALSE)
                continue
            if v.var == 1:
                prove(rep, "round 3 fails only if the combined delta is zero", s.pc, z3.Not(unit))
                continue
            nxt = v.fs[0].fs[0] if v.fs[0].var == 0 else None
            if nxt is None:
                prove(rep, "round 3 does not give a result", s.pc, FALSE)
                continue
            prove(rep, f"{nxt.tag.split('::')[-1]} keeps the context", s.pc, same(fields(ex, nxt, "context"), p.ctx))
            if nxt.tag == IS + "Round5":
                prove(rep, "round 5 follows only if the nonce is inconsistent with the deltas", s.pc, z3.Not(nonce_ok))
            elif nxt.tag == IS + "Round6":
                prove(rep, "round 6 follows only if the signature shares are inconsistent with the key", s.pc, z3.Not(key_ok))
            elif nxt.tag == IS + "Round4":
                n += 1
                prove(rep, "round 4 follows only if the nonce is consistent with the deltas", s.pc, nonce_ok)
                prove(rep, "round 4 follows only if the sum of the shares S is the key times delta", s.pc, key_ok)
                prove(rep, "round 4 follows only if the combined delta is invertible", s.pc, unit)
                d = fields(ex, nxt, "presigning_data")
                prove(rep, "the presigning data have the combined nonce", s.pc, eq(ex, fields(ex, d, "cap_gamma_combined"), gamma))
                tk, tc = mul(sec("k").fs[0], inv), mul(chi.fs[0], inv)
                prove(rep, "the presigning data have k / delta", s.pc, eq(ex, fields(ex, d, "tilde_k"), Agg(SEC, [tk])))
                prove(rep, "the presigning data have chi / delta", s.pc, eq(ex, fields(ex, d, "tilde_chi"), Agg(SEC, [tc])))
                for field, what in (("tilde_cap_deltas", "cap_delta"), ("tilde_cap_ss", "cap_s")):
                    m = fields(ex, d, field)
                    if m.tag != "with" or len(m.fs) != 3:
                        prove(rep, f"the presigning data have the value {what} of this party", s.pc, FALSE)
                        continue
                    prove(rep, f"the presigning data have the value {what} / delta of this party under its name", s.pc, z3.And(eq(ex, m.fs[1], p.me), eq(ex, m.fs[2], times(fields(ex, nb, what), inv))))
                    prove(rep, f"the presigning data have the value {what} / delta of every other party under its name", s.pc + p.pos(), per_party(p, m.fs[0], lambda j: times(m3(PNTT, what)(j), inv)))
                sigma = norm(core.as_int(mul(tk, fields(ex, p.ctx, "scalar_message")).fs[0]) + core.as_int(mul(tc, scalar_of("x", gamma)).fs[0]))
                prove(rep, "the signature share is k / delta * message + chi / delta * r", s.pc, eq(ex, fields(ex, nxt, "sigma"), sc(sigma)))
            else:
                prove(rep, "round 3 leads to round 4, 5 or 6", s.pc, FALSE)
        if not n:
            raise Unsupported("outcomes of round 3")


@theorem("InteractiveSigning: an honest share of the signature is accepted", props=["C30"])
def is_honest_share(ex, rep):
    """the share that a party forms in round 3 from the k and chi behind its Delta and S is accepted in round 4"""
    with signing(ex, rep) as p:
        gamma, sec = value(ex, PNTT, "Gamma", 0), lambda n: Agg(SEC, [scal(scalar_fn(n, True)(z3.IntVal(0)))])
        times = lambda pt, x: pnt(core.res_pow(pt.fs[0], core.as_int(x.fs[0])))
        delta = value(ex, SCALT, "own delta", 0)
        big, big_s = times(gamma, sec("k").fs[0]), times(gamma, sec("chi").fs[0])
        vals = {n: Op(n) for n, _ in ex.mir.adts[IS + "Round3"]["variants"][0][1]}
        pays = Agg("map", [p.echo, Seq(n=p.echo.n, f=lambda j: mk(IS + "Round1Payload", ex.mir, cap_k=Agg(CT, [Op("K", norm(iv(j)))]), **{n: value(ex, PNTT, n, j) for n in ("cap_a1", "cap_a2", "cap_b1", "cap_b2", "cap_y")}), key="round 1 payloads")])
        vals.update(context=put(ex.mir, p.ctx, "my_id", p.guilty), cap_gamma_combined=gamma, chi=sec("chi"), r1_payloads=pays, r3_echo_broadcast=mk(IS + "Round3EchoBroadcast", ex.mir, delta=delta),
                    r3_normal_broadcast=mk(IS + "Round3NormalBroadcast", ex.mir, cap_delta=big, psi_prime=Op("psi"), cap_s=big_s))
        hear = lambda j: mk(IS + "Round3Payload", ex.mir, delta=value(ex, SCALT, "m3.delta", j), cap_delta=value(ex, PNTT, "m3.cap_delta", j), cap_s=value(ex, PNTT, "m3.cap_s", j))
        pm = Agg("map", [p.echo, Seq(n=p.echo.n, f=lambda j: Agg("payload", [hear(j), Op(IS + "Round3Payload<P>")]), key="payloads of round 3")])
        f = scalar_fn("m3.delta", True)
        total = core.Res(core.QMOD, e=norm(core.as_int(delta.fs[0]) + folds.sum_(p.echo.n, lambda j: core.as_int(f(j)))))
        inv = scal(lib.scalar_inv(total))
        of = lambda n, x: named(n + " of the sender", of_sender(p, lambda j: times(x, inv)))
        pre = mk(IS + "PresigningData", ex.mir, cap_gamma_combined=gamma, tilde_k=Op("k"), tilde_chi=Op("chi"), tilde_cap_deltas=of("Delta", big), tilde_cap_ss=of("S", big_s))
        r4 = mk(IS + "Round4", ex.mir, context=p.ctx, presigning_data=pre, sigma=Op("sigma"))
        n = 0
        for s, v in p.run(p.method(3, "finalize"), None, [mk(IS + "Round3", ex.mir, **vals), Op("rng"), pm, Op("artifacts")]):
            if isinstance(v, Panic) or v.var != 0 or v.fs[0].var != 0 or v.fs[0].fs[0].tag != IS + "Round4":
                continue
            n += 1
            m4 = p.send(4, clean(ex, s, v.fs[0].fs[0]))
            after = State()
            after.pc += s.pc + [lib.unit_cond(total)]
            for t, k, w in p.receive(4, r4, after, None, m4):
                what = f" ({w.why})" if k == "panic" else f" ({p.error(w)})" if k == "error" else ""
                prove(rep, f"round 4: the share of an honest party is accepted{what}", t.pc, z3.BoolVal(k == "accepted"))
        if not n:
            raise Unsupported("outcomes of round 3")


@theorem("InteractiveSigning: the signature", props=["C30"])
def is_result(ex, rep):
    with signing(ex, rep) as p:
        gamma, mine = value(ex, PNTT, "Gamma", 0), value(ex, SCALT, "own sigma", 0)
        pre = mk(IS + "PresigningData", ex.mir, cap_gamma_combined=gamma, tilde_k=Op("k"), tilde_chi=Op("chi"), tilde_cap_deltas=Op("Deltas"), tilde_cap_ss=Op("Ss"))
        r4 = mk(IS + "Round4", ex.mir, context=p.ctx, presigning_data=pre, sigma=mine)
        pm = Agg("map", [p.keys, Seq(n=p.n, f=lambda j: Agg("payload", [mk(IS + "Round4Payload", ex.mir, sigma=value(ex, SCALT, "m4.sigma", j)), Op(IS + "Round4Payload<P>")]), key="payloads of round 4")])
        f = scalar_fn("m4.sigma", True)
        sigma = scal(core.Res(core.QMOD, e=norm(core.as_int(mine.fs[0]) + folds.sum_(p.n, lambda j: core.as_int(f(j))))))
        none, made = z3.Bool("no signature"), []

        def build(ex, st, c):
            made.append([clean(ex, st, v) for v in c.vals])
            yes, no = st.copy(), st.copy()
            yes.pc, no.pc = yes.pc + [z3.Not(none)], no.pc + [none]
            return [(yes, ext.some(Op("signature", *made[-1]))), (no, ext.NONE)]
        ex.handlers["curve::ecdsa::RecoverableSignature::<P>::from_scalars"] = build
        n = 0
        for s, v in p.run(p.method(4, "finalize"), None, [r4, Op("rng"), pm, Op("artifacts")]):
            if isinstance(v, Panic):
                prove(rep, f"round 4 does not panic ({v.why})", s.pc, FALSE)
            elif v.var == 1:
                prove(rep, "round 4 fails only if no signature can be formed", s.pc, none)
            else:
                n += 1
                r = v.fs[0].fs[0] if v.fs[0].var == 1 else None
                if not (isinstance(r, Op) and r.tag == "signature"):
                    prove(rep, "the result is a signature that was checked", s.pc, FALSE)
                    continue
                for what, x, y in zip(("r is the x coordinate of the combined nonce", "s is the sum of the shares of all parties", "the key is the key of the shares", "the message is the message to sign"), r.args,
                                      (scalar_of("x", gamma), sigma, pnt(pt_at("key", 0)), fields(ex, p.ctx, "scalar_message"))):
                    prove(rep, "the signature: " + what, s.pc, eq(ex, x, y))
        if not n:
            raise Unsupported("outcomes of round 4")


# ---------------------------------------------------------------- key refresh
KR = "protocols::key_refresh::"


def key_refresh(ex, rep):
    p = Protocol(ex, rep, KR, "KeyRefreshProtocol", "KeyRefreshError", {1: "Round1", 2: "Round2", 3: "Round3"}, opaque={PKW, PK, SKW, SK, RPW, RPP, PRMP, MODP, FACP, SCHP, SCHC},
                 handlers={KR + "PublicData::<P, Id>::hash": plain_hash("public data"), SID + "::new": sid_new,
                           PKW + "::<P>::into_precomputed": convert(PK, True), RPW + "::<P>::to_precomputed": convert(RPP, True),
                           PK + "::<P>::into_wire": convert(PKW, False), RPP + "::<P>::to_wire": convert(RPW, False), SK + "::<P>::into_wire": convert(SKW, False),
                           **{f"{t}::<P>::modulus": modulus for t in (PKW, PK, RPW, RPP)},
                           "curve::arithmetic::Scalar::<P>::from_xof_reader": lambda ex, st, c: scalar_of("mask", clean(ex, st, c.vals[0])),
                           **{t + "::<P>::verify": lambda ex, st, c, t=t: accepts(t.split("::")[-1], *[clean(ex, st, v) for v in c.vals]) for t in (PRMP, MODP, FACP, SCHP)}})
    p.full = True
    p.adata = KR + "KeyRefreshAssociatedData"
    p.anyone = index("anyone", p.all.fs[0].n)
    p.about = {"reported_by": p.me, "failed_for": p.all.fs[0].at(p.anyone)}
    # this party's ring-Pedersen parameters and El-Gamal keys are those in the message that the sender has passed on
    p.y = lambda j: Agg(SEC, [scal(scalar_fn("y", True)(j))])
    p.about["y"] = p.y(p.guilty.fs[0]).fs[0]
    rp = Agg(RPP, [Op("precomputed", Op("echo2.rp_params", norm(iv(p.mine))))])
    p.ctx = mk(KR + "Context", ex.mir, paillier_sk=Op("own secret key"), rp_params=rp, xs=Op("xs"), ys=named("ys", p.y), taus=Op("taus"), my_id=p.me, other_ids=p.ids, all_ids=p.all, sid=p.sid)
    return p


def kr_round3(p):
    """the third round, for whatever was accepted in the second"""
    ex, rep = p.ex, p.rep
    lemma(rep, "Rounds", "combined_contributions")
    nbt, ebt = (("adt", KR + t, (("param", "P"), ("param", "Id"))) for t in ("Round2NormalBroadcast", "Round2EchoBroadcast"))
    nb, eb = value(ex, nbt, "m2.normal_broadcast", p.i), value(ex, ebt, "m2.echo_broadcast", p.i)
    inner = lambda v: v.fs[0]
    pay = mk(KR + "Round2Payload", ex.mir, cap_xs=inner(fields(ex, nb, "cap_xs")), cap_as=inner(fields(ex, nb, "cap_as")), cap_ys=inner(fields(ex, eb, "cap_ys")),
             paillier_pk=Agg(PK, [Op("precomputed", fields(ex, nb, "paillier_pk").fs[0])]), rp_params=Agg(RPP, [Op("precomputed", fields(ex, eb, "rp_params").fs[0])]), rid=fields(ex, eb, "rid"))
    r3 = mk(KR + "Round3", ex.mir, context=p.ctx, rid_combined=p.combined("m2.echo_broadcast.rid", "echo2.rid"), r2_payloads=named("payloads of round 2", of_sender(p, lambda j: pay)), psi_prime=Op("psi"), hat_psis=Op("psis"))
    before = earlier(p, (2, "Round2NormalBroadcast"), (2, "Round2EchoBroadcast"))
    ids = lambda v: z3.Bool(f"ids<{inner(v).fs[0].tag} of {key(inner(v).fs[0].args[0])}>")
    mine = value(ex, ebt, "echo2", p.mine)
    before.pc += [ids(v) for v in (fields(ex, nb, "cap_xs"), fields(ex, nb, "cap_as"), fields(ex, eb, "cap_ys"), fields(ex, mine, "cap_ys"))]
    # this party's El-Gamal key for the sender is the one that belongs to its secret
    published = sent_entry(ex, inner(fields(ex, mine, "cap_ys")), p.guilty.fs[0])
    before.pc.append(ext.veq(published, pnt(Res(GROUP, w={"G": ("G", core.as_int(p.y(p.guilty.fs[0]).fs[0].fs[0]))}))))
    return nb, eb, before, r3


@theorem("KeyRefresh: rejected messages are convicted by their evidence and accepted ones are not", props=["C31"])
def kr_evidence(ex, rep):
    with key_refresh(ex, rep) as p:
        r1 = mk(KR + "Round1", ex.mir, context=p.ctx, public_data=Op("own data"))
        p.convicts(1, r1)
        s1, _ = p.accepted(1, r1)
        r2 = p.next(1, r1)
        p.convicts(2, r2, s1)
        nb, eb, before, r3 = kr_round3(p)
        import c_hash
        with c_hash.opaque(ex, {c_hash.BLANKET: hashed_value}):
            p.convicts(3, r3, before)


@theorem("KeyRefresh: what is accepted", props=["C31"])
def kr_accepts(ex, rep):
    import c_hash
    with key_refresh(ex, rep) as p:
        r1 = mk(KR + "Round1", ex.mir, context=p.ctx, public_data=Op("own data"))
        r2 = p.next(1, r1)
        nb, eb, before, r3 = kr_round3(p)
        inner = lambda v: v.fs[0]
        cv = value(ex, ("adt", HO, ()), "m1.echo_broadcast.cap_v", p.i)
        pk, rp = Agg(PK, [Op("precomputed", fields(ex, nb, "paillier_pk").fs[0])]), Agg(RPP, [Op("precomputed", fields(ex, eb, "rp_params").fs[0])])
        data = mk(KR + "PublicData", ex.mir, cap_xs=inner(fields(ex, nb, "cap_xs")), cap_ys=inner(fields(ex, eb, "cap_ys")), cap_as=inner(fields(ex, nb, "cap_as")), paillier_pk=pk, rp_params=rp,
                  psi=fields(ex, nb, "psi"), rid=fields(ex, eb, "rid"), u=fields(ex, nb, "u"))
        prove(rep, "round 1: the context is kept", [], same(fields(ex, r2, "context"), p.ctx))
        prove(rep, "round 1: the commitment of every party is kept under its name", p.pos(), per_party(p, fields(ex, r2, "cap_vs"), lambda j: value(ex, ("adt", HO, ()), "m1.echo_broadcast.cap_v", j)))
        opens = hash_value("public data", data, p.sid, p.guilty)
        ids = lambda v: z3.Bool(f"ids<{inner(v).fs[0].tag} of {key(inner(v).fs[0].args[0])}>")
        large = lambda x: ext.BITS(norm(z3.Int(f"modulus({key(x.fs[0].args[0])})"))) >= 2 * z3.Int("PRIME_BITS") - 2
        change = lambda j: sent_entry(ex, inner(fields(ex, nb, "cap_xs")), p.all.fs[0].at(j).fs[0])
        total = ext.veq(pnt(folds.psum(p.all.fs[0].n, lambda j: change(j).fs[0])), pnt(Res(GROUP, w={})))
        p.only_if(2, r2, [("R2HashMismatch", equal_hashes(opens, cv)), ("R2WrongIdsX", ids(fields(ex, nb, "cap_xs"))), ("R2WrongIdsY", ids(fields(ex, eb, "cap_ys"))), ("R2WrongIdsA", ids(fields(ex, nb, "cap_as"))),
                          ("R2PaillierModulusTooSmall", large(pk)), ("R2RPModulusTooSmall", large(rp)), ("R2NonZeroSumOfChanges", total),
                          ("R2PrmFailed", accepts("PrmProof", fields(ex, nb, "psi"), rp, Agg("tuple", [p.sid, p.guilty])))])
        with c_hash.opaque(ex, {c_hash.BLANKET: hashed_value}):
            aux = Agg("tuple", [p.sid, p.guilty, fields(ex, r3, "rid_combined")])
            of = lambda n, j: sent_entry(ex, inner(fields(ex, nb, n)), p.all.fs[0].at(j).fs[0])
            m3 = lambda k, f, t: value(ex, ("adt", t, ()), f"m3.{k}.{f}", p.i)
            psis = f"m3.echo_broadcast.hat_psis of {key(norm(iv(p.i)))}"
            psi = lambda j: value(ex, ("adt", SCHP, ()), psis + " for", p.all.fs[0].at(j).fs[0])
            # the change of this party's share, without the mask that only the two of them know
            cap_y = sent_entry(ex, inner(fields(ex, eb, "cap_ys")), p.me.fs[0])
            shared = pnt(core.res_pow(cap_y.fs[0], core.as_int(p.y(p.guilty.fs[0]).fs[0].fs[0])))
            mask = [m for m in masks(p, r3, before)]
            if len(mask) != 1 or not all(key(x) in key(mask[0]) for x in (p.sid, fields(ex, r3, "rid_combined"), p.guilty, shared)):
                raise Unsupported("mask of a share change")
            x = scal(core.Res(core.QMOD, e=norm(core.as_int(m3("direct_message", "cap_c", SCALT[1]).fs[0]) - core.as_int(scalar_of("mask", mask[0]).fs[0]))))
            mine = ext.veq(pnt(Res(GROUP, w={"G": ("G", core.as_int(x.fs[0]))})), sent_entry(ex, inner(fields(ex, nb, "cap_xs")), p.me.fs[0]))
            p.only_if(3, r3, [("R3ShareChangeMismatch", mine), ("R3ModFailed", accepts("ModProof", m3("normal_broadcast", "psi_prime", MODP), pk, aux)),
                              ("R3FacFailed", accepts("FacProof", m3("direct_message", "psi", FACP), pk, fields(ex, p.ctx, "rp_params"), aux)),
                              ("R3WrongIdsHatPsi", z3.Bool(f"ids<{psis}>")),
                              ("R3SchFailed", lambda j: accepts("SchProof", psi(j), of("cap_as", j), of("cap_xs", j), aux))], before)


def masks(p, r3, before):
    """what the mask of a share change is derived from"""
    seen = {}
    h = p.ex.handlers["curve::arithmetic::Scalar::<P>::from_xof_reader"]

    def note(ex, st, c):
        v = clean(ex, st, c.vals[0])
        seen[key(v)] = v
        return h(ex, st, c)
    p.ex.handlers["curve::arithmetic::Scalar::<P>::from_xof_reader"] = note
    p.receive(3, r3, before)
    p.ex.handlers["curve::arithmetic::Scalar::<P>::from_xof_reader"] = h
    return list(seen.values())


@theorem("KeyRefresh: commitments bind the session, the party and all of the data", props=["C31"])
def kr_hash(ex, rep):
    with key_refresh(ex, rep):
        hash_binds(ex, rep, KR)


@theorem("KeyRefresh: what results", props=["C31"])
def kr_results(ex, rep):
    with key_refresh(ex, rep) as p:
        change = lambda j, who: pnt(pt_at(f"change for {key(norm(iv(who)))}", j))
        changes = lambda j: named(f"changes of {key(norm(iv(j)))}", lambda who, j=j: change(j, who))
        pk, rp = (lambda t, n: lambda j: Agg(t, [Op("precomputed", Op(n, norm(iv(j))))]))(PK, "paillier_pk"), (lambda j: Agg(RPP, [Op("precomputed", Op("rp_params", norm(iv(j))))]))
        pay = lambda j: mk(KR + "Round2Payload", ex.mir, cap_xs=changes(j), cap_as=Op("As", norm(iv(j))), cap_ys=Op("Ys", norm(iv(j))), paillier_pk=pk(j), rp_params=rp(j), rid=Op("rid", norm(iv(j))))
        mine = Agg(SEC, [scal(scalar_fn("own change", True)(z3.IntVal(0)))])
        ctx = put(ex.mir, put(ex.mir, p.ctx, "xs", named("xs", lambda who: mine if key(who) == key(p.me.fs[0]) else None)), "paillier_sk", Agg(SK, [Op("precomputed", Op("own secret key"))]))
        # (the entries of all parties, after this party has added its own)
        everyone = p.all.fs[0]
        m = Agg("map", [everyone, Seq(n=everyone.n, f=lambda j: pay(everyone.at(j).fs[0]), key="payloads of round 2")])
        r3 = mk(KR + "Round3", ex.mir, context=ctx, rid_combined=Op("rid"), r2_payloads=m, psi_prime=Op("psi"), hat_psis=Op("psis"))
        f = scalar_fn("change", True)
        pm = Agg("map", [p.keys, Seq(n=p.n, f=lambda j: Agg("payload", [mk(KR + "Round3Payload", ex.mir, x=Agg(SEC, [scal(f(j))])), Op(KR + "Round3Payload<P>")]), key="payloads of round 3")])
        a, n = p.anyone, 0
        hyp = [a >= 0, iv(a) < everyone.n, everyone.n >= 2]
        who = everyone.at(a)

        def all_parties(m, want):
            if not (isinstance(m, Agg) and m.tag == "map"):
                return FALSE
            return z3.And(m.fs[0].n == everyone.n, m.fs[1].n == everyone.n, eq(ex, m.fs[0].at(a), who), eq(ex, m.fs[1].at(a), want))
        for s, v in p.run(p.method(3, "finalize"), None, [r3, Op("rng"), pm, Op("artifacts")]):
            if isinstance(v, Panic) or v.var != 0 or v.fs[0].var != 1:
                prove(rep, "the last round gives a result", s.pc + hyp, FALSE)
                continue
            n += 1
            ch, aux = [bare(clean(ex, s, x)) for x in v.fs[0].fs[0].fs]
            prove(rep, "the result has this party's name", s.pc, z3.And(eq(ex, fields(ex, ch, "owner"), p.me), eq(ex, fields(ex, aux, "owner"), p.me)))
            total = scal(core.Res(core.QMOD, e=norm(core.as_int(mine.fs[0].fs[0]) + folds.sum_(p.n, lambda j: core.as_int(f(j))))))
            prove(rep, "the change of the secret share is the sum of the changes from all parties", s.pc, eq(ex, fields(ex, ch, "secret_share_change"), Agg(SEC, [total])))
            public = pnt(folds.psum(everyone.n, lambda j: change(everyone.at(j).fs[0], who.fs[0]).fs[0]))
            prove(rep, "the change of every public share is the sum of the public changes from all parties", s.pc + hyp, all_parties(fields(ex, ch, "public_share_changes"), public))
            prove(rep, "the result has this party's secret key", s.pc, z3.BoolVal(alike((fields(ex, aux, "secret", "paillier_sk"), Agg(SKW, [Op("own secret key")])))))
            pub = fields(ex, aux, "public")
            pub = pub.fs[0] if pub.tag != "map" else pub
            want = mk("entities::full::PublicAuxInfo", ex.mir, paillier_pk=Agg(PKW, [pk(who.fs[0]).fs[0].args[0]]), rp_params=Agg(RPW, [rp(who.fs[0]).fs[0].args[0]]))
            prove(rep, "the result has the public data of every party under its name", s.pc + hyp, all_parties(pub, want))
        if not n:
            raise Unsupported("no result")


@theorem("KeyRefresh: the first messages of an honest party are accepted", props=["C31"])
def kr_honest_start(ex, rep):
    """what a party sends in rounds 1 and 2, about the secrets that it has drawn, is accepted by a party with the same session"""
    with key_refresh(ex, rep) as p:
        hs = ex.handlers
        hs.update(key_material([p]))
        hs[SKW + "::<P>::into_precomputed"] = convert(SK, True)
        hs["curve::arithmetic::Scalar::<P>::random"] = lambda ex, st, c: scal(scalar_fn(f"drawn at line {c.line}", True)(z3.IntVal(0)))
        hs["zk::sch::SchSecret::<P>::random"] = lambda ex, st, c: Agg("zk::sch::SchSecret", [Op("tau", z3.IntVal(c.line))])
        hs[SCHC + "::<P>::new"] = lambda ex, st, c: Agg(SCHC, [Op("commitment", clean(ex, st, c.vals[0]))])
        split = lambda j: Agg(SEC, [scal(scalar_fn("share of zero", True)(j))])
        zero = []

        def shares(ex, st, c):
            # as many as asked for, and they add up to the value (C22)
            n, of = c.vals[2], clean(ex, st, c.vals[1])
            total = folds.psum(n, lambda j: Res(GROUP, w={"G": ("G", core.as_int(split(j).fs[0].fs[0]))}))
            zero.append(ext.veq(pnt(total), pnt(Res(GROUP, w={"G": ("G", core.as_int(of.fs[0].fs[0]))}))))
            return Seq(n=n, f=split, key="shares of zero")
        hs["curve::arithmetic::secret_split"] = shares
        if not all(f in ex.mir.fns for f in ("curve::arithmetic::secret_split", SCHC + "::<P>::new", "zk::sch::SchSecret::<P>::random")):
            raise Unsupported("functions not found")
        ex.contracts = {f: c for f, c in ex.contracts.items() if f not in hs}
        ent = mk(KR + "KeyRefresh", ex.mir, all_ids=p.all, phantom=Agg("core::marker::PhantomData", []))
        one = p.begin("KeyRefresh", ent, p.i)
        r1 = mk(KR + "Round1", ex.mir, context=p.ctx, public_data=Op("own data"))
        got = [bare(clean(ex, s, v.fs[0])) for s, k, v in p.honest(1, r1, p.send(1, one)) if k == "accepted"]
        if len(got) != 1:
            raise Unsupported("outcomes of round 1")
        two = mk(KR + "Round2", ex.mir, context=fields(ex, one, "context"), public_data=fields(ex, one, "public_data"), cap_vs=Op("Vs"))
        r2 = mk(KR + "Round2", ex.mir, context=p.ctx, public_data=Op("own data"), cap_vs=named("Vs", of_sender(p, lambda j: fields(ex, got[0], "cap_v"))))
        after = State()
        after.pc += zero
        p.honest(2, r2, p.send(2, two), after)


@theorem("KeyRefresh: the last message of an honest party is accepted", props=["C31"])
def kr_honest(ex, rep):
    """what a party sends in round 3, after committing to and publishing the data that belong to its secrets, is accepted by a
    party that has the same session and the same combined randomness"""
    with key_refresh(ex, rep) as p:
        ch = lambda v: clean(ex, CUR[0], v)
        gen = lambda s: pnt(Res(GROUP, w={"G": ("G", core.as_int(s.fs[0].fs[0]))}))
        secret = lambda tag: lambda who: Agg(SEC, [scal(scalar_fn(tag, True)(who))])
        xs, ys = secret("sender's change"), secret("sender's El-Gamal key")
        tau = lambda who: Agg("zk::sch::SchSecret", [Op("tau", norm(iv(who)))])
        com = lambda who: Agg(SCHC, [Op("commitment", tau(who))])
        sk = Agg(SK, [Op("precomputed", Op("sender's secret key"))])
        pk = secret_key(sk)
        hs = ex.handlers
        hs[SCHP + "::<P>::new"] = lambda ex, st, c: Agg(SCHP, [Op("honest", *[clean(ex, st, x) for x in c.vals])])
        hs[SCHP + "::<P>::verify"] = complete("SchProof", lambda a, v: alike((a[2], v[0]), (a[3], v[1]), (a[4], v[2]), (v[0], Agg(SCHC, [Op("commitment", a[0])]))) and key(v[1]) == key(gen(a[1])))
        hs[MODP + "::<P>::new"], hs[FACP + "::<P>::new"] = prover(MODP), prover(FACP)
        hs[MODP + "::<P>::verify"] = complete("ModProof", lambda a, v: alike((secret_key(a[0]), v[0]), (a[1], v[1])))
        hs[FACP + "::<P>::verify"] = complete("FacProof", lambda a, v: alike((secret_key(a[0]), v[0]), (a[1], v[1]), (a[2], v[2])))
        cap_xs, cap_as, cap_ys = named("sender's X", lambda w: gen(xs(w))), named("sender's A", com), named("sender's Y", lambda w: gen(ys(w)))
        sctx = p.ctx
        for n, v in (("paillier_sk", sk), ("rp_params", Agg(RPP, [Op("precomputed", Op("sender's parameters"))])), ("xs", named("sender's xs", xs)), ("ys", named("sender's ys", ys)),
                     ("taus", named("sender's taus", tau)), ("my_id", p.guilty)):
            sctx = put(ex.mir, sctx, n, v)
        data = mk(KR + "PublicData", ex.mir, cap_xs=cap_xs, cap_ys=cap_ys, cap_as=cap_as, paillier_pk=pk, rp_params=fields(ex, sctx, "rp_params"), psi=Op("psi"), rid=bits_value("sender's rid", 0), u=Op("u"))
        mine = named("own Y", lambda who: gen(p.y(who)))
        others = lambda j: mk(KR + "Round2Payload", ex.mir, cap_xs=Op("Xs"), cap_as=Op("As"), cap_ys=mine, paillier_pk=Op("pk"), rp_params=fields(ex, p.ctx, "rp_params"), rid=bits_value("rid", j))
        pm = Agg("map", [p.keys, Seq(n=p.n, f=lambda j: Agg("payload", [others(j), Op(ext.ts(("adt", KR + "Round2Payload", (("param", "P"), ("param", "Id")))))]), key="payloads of round 2")])
        r2 = mk(KR + "Round2", ex.mir, context=sctx, public_data=data, cap_vs=Op("Vs"))
        o = [v.fs[0].fs[0] for s, v in p.run(p.method(2, "finalize"), None, [r2, Op("rng"), pm, Op("artifacts")]) if not isinstance(v, Panic) and v.var == 0]
        if len(o) != 1:
            raise Unsupported(f"{len(o)} outcomes of round 2")
        r3s = put(ex.mir, o[0], "r2_payloads", named("sender's payloads", lambda who: others(0)))
        pay = mk(KR + "Round2Payload", ex.mir, cap_xs=cap_xs, cap_as=cap_as, cap_ys=cap_ys, paillier_pk=pk, rp_params=fields(ex, sctx, "rp_params"), rid=fields(ex, data, "rid"))
        r3 = mk(KR + "Round3", ex.mir, context=p.ctx, rid_combined=fields(ex, r3s, "rid_combined"), r2_payloads=named("payloads of round 2", of_sender(p, lambda j: pay)), psi_prime=Op("psi"), hat_psis=Op("psis"))
        import c_hash
        with c_hash.opaque(ex, {c_hash.BLANKET: hashed_value}):
            for s, k, v in p.honest(3, r3, p.send(3, r3s, p.me)):
                if k == "accepted":
                    prove(rep, "round 3: the change of this party's share is the one that the sender has made for it", s.pc, eq(ex, fields(ex, bare(clean(ex, s, v.fs[0])), "x"), xs(p.me.fs[0])))
