"""Contracts of src/entities/full.rs and src/entities/threshold.rs: key shares for any number of parties"""
from spec import *
from c_sss import *
import core, folds

F, T = "entities::full::", "entities::threshold::"
KS, PKS, CHG, TKS = F + "KeyShare", F + "PublicKeyShares", F + "KeyShareChange", T + "ThresholdKeyShare"
FK, TK = F + "KeyShare::<P, I>::", T + "ThresholdKeyShare::<P, I>::"


def pid(e):
    return Agg("pid", [e])


def pids(name, n):
    f = index_fn(f"PID<{name}>", True)
    return Seq(n=n, f=lambda j: pid(f(norm(iv(j)))), key=f"PID<{name}>[..{key(n)}]")


def id_set(name, lo=0):
    return Agg("set", [pids(name, length(f"len({name})", lo))])


def pmap(ids, lo=0, name=None, vals=points):
    n = length(f"len({ids})", lo)
    return Agg("map", [pids(ids, n), vals(name or ids, n)])


def share_ids_of(name, n):
    f = scalar_fn(f"SID<{name}>", True)
    return Seq(n=n, f=lambda j: share_id(f(j)), key=f"SID<{name}>[..{key(n)}]")


def index(name, n):
    """some position in a collection of n elements"""
    o = z3.Int(name)
    if name not in FACT:
        fact(name, o >= 0, o < n)
    return o


def by_ref(f):
    def b(ex, st, t, name):
        v = f(ex, name)
        return ex.ref(st, v) if isinstance(t, tuple) and t[0] == "ref" else v
    return b


def key_share(ex, name, ids=None, owner=None):
    """a key share of one of the parties"""
    m = pmap(ids or name, 1, name)
    o = owner if owner is not None else m.fs[0].at(index(f"owner({ids or name})", m.fs[0].n))
    ex.note = None
    return mk(KS, ex.mir, owner=o, secret=Agg(SEC, [scal(fresh_scalar(f"{name}.secret"))]), public=Agg(PKS, [m]))


def change(ex, name, ids=None, owner=None):
    m = pmap(ids or name, 1, name)
    o = owner if owner is not None else m.fs[0].at(index(f"owner({ids or name})", m.fs[0].n))
    return mk(CHG, ex.mir, owner=o, secret_share_change=Agg(SEC, [scal(fresh_scalar(f"{name}.secret"))]), public_share_changes=m)


def threshold_share(ex, name, ids=None, owner=None):
    n = length(f"len({ids or name})", 1)
    ks = pids(ids or name, n)
    t = z3.Int(f"{name}.threshold")
    if str(t) not in FACT:
        fact(str(t), t >= 1, t < 2 ** 32)
    o = owner if owner is not None else ks.at(index(f"owner({ids or name})", n))
    return mk(TKS, ex.mir, owner=o, threshold=t, secret_share=Agg(SEC, [scal(fresh_scalar(f"{name}.secret"))]),
              share_ids=Agg("map", [ks, share_ids_of(name, n)]), public_shares=Agg("map", [ks, points(name, n)]))


def ks_parts(mir, v):
    return fld(mir, v, "owner"), fld(mir, v, "secret"), fld(mir, v, "public").fs[0]


def is_err(v):
    return isinstance(v, Agg) and v.var == 1


def neutral(p):
    return core.res_eq(p, Res(GROUP, w={}))


def sum_points(vs):
    return folds.psum(vs.n, lambda j: r(vs.at(j)))


def missing(st, ks, n, ids):
    """the path has found an identifier at some position in [0, n) of `ids` that is not among ks"""
    alts = [FALSE]
    for f in st.pc:
        if z3.is_not(f) and f.arg(0).num_args() == 0 and f.arg(0).decl().name() in ext.MEMBER:
            k2, kv = ext.MEMBER[f.arg(0).decl().name()]
            if key(k2) == key(ks):
                for e in ext.inner_ints(kv):
                    if e.num_args() == 1:
                        i = e.arg(0)
                        if key(ids.at(i)) == key(kv):
                            alts.append(z3.And(i >= 0, i < n))
    return z3.Or(alts)


def where(ex, st, ks, kv):
    """the position of kv among ks"""
    return ext.locate(ex, st, ks, kv)[0]


# ---------------------------------------------------------------- additive shares
@contract(FK + "new", props=["C22", "C23"], args={2: by_ref(lambda ex, n: pmap(n))}, use=False)
def ks_new(a):
    m = a[2]
    z = neutral(sum_points(m.fs[1]))
    want = mk(KS, a.mir, owner=a[0], secret=a[1], public=Agg(PKS, [m]))
    return [(z, Rel(None, lambda a, st, v: [("shares that add up to zero are refused", z3.BoolVal(is_err(v)))])), (z3.Not(z), ok(want))]


@contract(FK + "verifying_key_as_point", props=["C22", "C23"], args={0: by_ref(key_share)})
def ks_vkey(a):
    return [(TRUE, pnt(sum_points(ks_parts(a.mir, a[0])[2].fs[1])))]


@contract(FK + "all_parties", props=["C23"], args={0: by_ref(key_share)})
def ks_parties(a):
    return [(TRUE, Agg("set", [ks_parts(a.mir, a[0])[2].fs[0]]))]


def updated(a, st, v, same):
    o, s, m = ks_parts(a.mir, a[0])
    c = a[1]
    co, cs, cm = fld(a.mir, c, "owner"), fld(a.mir, c, "secret_share_change"), fld(a.mir, c, "public_share_changes")
    if is_err(v):
        return [("an update is refused only for another owner or other parties",
                 z3.Or(z3.Not(ext.veq(o, co)), z3.Not(m.fs[0].n == cm.fs[0].n), missing(st, cm.fs[0], m.fs[0].n, m.fs[0])))]
    no, ns, nm = ks_parts(a.mir, v.fs[0])
    gs = eq_goals(a.ex, st, no, o, "owner") + [("updates for another owner are refused", ext.veq(o, co)), ("the numbers of parties agree", m.fs[0].n == cm.fs[0].n)]
    gs += [("secret share", res_goal(r(ns), res_add(r(s), r(cs))))]
    want = Seq(n=m.fs[0].n, f=lambda j: pnt(res_add(r(m.fs[1].at(j)), r(cm.fs[1].at(where(a.ex, core.CUR[0], cm.fs[0], m.fs[0].at(j)))))))
    return gs + eq_goals(a.ex, st, nm.fs[0], m.fs[0], "parties") + eq_goals(a.ex, st, nm.fs[1], want, "public shares")


@contract(FK + "update", props=["C23"], args={0: by_ref(key_share), 1: by_ref(change)}, use=False)
def ks_update(a):
    return [(TRUE, Rel(None, lambda a, st, v: updated(a, st, v, False)))]


def run_fn(ex, path, after=None, **args):
    """outcomes of a function on the given arguments (by name), in the state `after`"""
    bs = {n: (lambda ex, st, t, name, v=v: v(ex, st, t, name) if callable(v) else (ex.ref(st, v) if isinstance(t, tuple) and t[0] == "ref" else v)) for n, v in args.items()}
    st, vals, env = inputs(ex, path, {}, bs)
    if after is not None:
        st.pc += after.pc
        st.foralls += after.foralls
        for c, x in after.mem.items():
            st.mem.setdefault(c, x)
    CUR[0] = st
    ex.active = {path}
    return st, vals, ex.exec_body(st, "fn", path, ex.mir.body("fn", path), env, vals)


def normal(rep, name, outs, what="does not fail"):
    """the outcomes that return; the others are shown to be impossible"""
    res = []
    for k, (s, v) in enumerate(outs):
        if isinstance(v, Panic):
            prove(rep, f"{name}: {what} ({v.why})", s.pc, FALSE)
        else:
            res.append((s, v))
    if not res:
        raise Unsupported("no outcome returns")
    return res


@theorem("KeyShare::update: adds the change to the verifying key", props=["C23"])
def t_update(ex, rep):
    ks = key_share(ex, "share", "parties")
    o = ks_parts(ex.mir, ks)[0]
    ch = change(ex, "change", "parties", o)
    st, vals, outs = run_fn(ex, FK + "update", self=ks, change=ch)
    before = sum_points(ks_parts(ex.mir, ks)[2].fs[1])
    delta = sum_points(fld(ex.mir, ch, "public_share_changes").fs[1])
    n = 0
    for s, v in normal(rep, "update", outs):
        if is_err(v):
            prove(rep, "update: a change for the same parties and owner is accepted", s.pc, FALSE)
            continue
        n += 1
        CUR[0] = s
        _, ns, nm = ks_parts(ex.mir, v.fs[0])
        prove(rep, "update: the sum of the public shares changes by the sum of the changes", s.pc, res_goal(sum_points(nm.fs[1]), res_add(before, delta)))
        prove(rep, "update: the secret share changes by the secret change", s.pc, res_goal(r(ns), res_add(r(ks_parts(ex.mir, ks)[1]), r(fld(ex.mir, ch, "secret_share_change")))))
        j = ks_parts(ex.mir, ks)[0].fs[0].arg(0)
        # a share whose public share belongs to its secret stays one
        X, Y, Z = r(ks_parts(ex.mir, ks)[2].fs[1].at(j)), r(fld(ex.mir, ch, "public_share_changes").fs[1].at(j)), r(nm.fs[1].at(j))
        prove(rep, "update: the owner's public share changes by its public change", s.pc, res_goal(Z, res_add(X, Y)))
    if not n:
        raise Unsupported("no update is accepted")


SK = Agg("ecdsa::SigningKey", [Res(QMOD, e=z3.Int("signing_key"))])


def signing_key(present):
    def b(ex, st, t, name):
        if not present:
            return NONE
        x = fresh_scalar("signing_key")
        fact("signing_key", z3.Int("signing_key") >= 1, z3.Int("signing_key") < Q)
        return some(ex.ref(st, Agg("ecdsa::SigningKey", [x])))
    return b


def consistent_secret(s, total, present):
    """total is the secret that was given, or a random draw"""
    e = as_int(total)
    if present:
        return res_goal(total, Res(QMOD, e=z3.Int("signing_key")))
    return z3.BoolVal(e.num_args() == 0 and str(e.decl().name()).startswith("rnd"))


@theorem("KeyShare::new_centralized: shares of the given key", props=["C23"])
def t_centralized(ex, rep):
    for present in (True, False):
        tag = "given key" if present else "random key"
        ids = id_set("parties", 1)
        st, vals, outs = run_fn(ex, FK + "new_centralized", ids=ids, signing_key=signing_key(present))
        n = ids.fs[0].n
        for s, m in normal(rep, f"new_centralized ({tag})", outs):
            CUR[0] = s
            nm = f"new_centralized ({tag})"
            for l, g in eq_goals(ex, s, m.fs[0], ids.fs[0], "one share for every party"):
                prove(rep, f"{nm}: {l}", s.pc, g)
            total = Res(QMOD, e=folds.sum_(n, lambda j: as_int(r(ks_parts(ex.mir, m.fs[1].at(j))[1]))))
            prove(rep, f"{nm}: the secret shares add up to the secret", s.pc, consistent_secret(s, total, present))
            for j in cut_points(ex, s, m.fs[1], n):
                CUR[0] = j[0]
                o, sec, pub = ks_parts(ex.mir, m.fs[1].at(j[1]))
                pc = j[0].pc
                for l, g in eq_goals(ex, j[0], o, ids.fs[0].at(j[1]), "the owner of a share is the party it is filed under") + eq_goals(ex, j[0], pub.fs[0], ids.fs[0], "public shares of all parties"):
                    prove(rep, f"{nm}: {l}", pc, g)
                for k in cut_points(ex, j[0], pub.fs[1], n, "i!t2"):
                    CUR[0] = k[0]
                    sk = as_int(r(ks_parts(ex.mir, m.fs[1].at(k[1]))[1]))
                    prove(rep, f"{nm}: every public share belongs to the secret share", k[0].pc, res_goal(r(pub.fs[1].at(k[1])), res_pow(gen(), sk)))


def cut_points(ex, s, seq, n, name="i!t"):
    """(state, index) for an arbitrary index, one for every piece the sequence is made of"""
    j = z3.Int(name)
    s1 = s.copy()
    s1.pc += [j >= 0, j < n]
    return [(s2, j) for s2, _ in elem_outs(ex, s1, seq, j) if feasible(s2.pc)]


# ---------------------------------------------------------------- threshold shares
def tk_parts(mir, v):
    return [fld(mir, v, n) for n in ("owner", "threshold", "secret_share", "share_ids", "public_shares")]


def sid_at(m):
    return lambda j: id_of(m.fs[1].at(j))


@contract(TK + "share_id", props=["C22"], args={0: by_ref(threshold_share)})
def tk_share_id(a):
    o, _, _, sids, _ = tk_parts(a.mir, a[0])
    return [(TRUE, ok(sids.fs[1].at(where(a.ex, a.st, sids.fs[0], o))))]


@contract(TK + "threshold", props=["C22"], args={0: by_ref(threshold_share)})
def tk_threshold(a):
    return [(TRUE, tk_parts(a.mir, a[0])[1])]


@contract(TK + "verifying_key_as_point", props=["C22"], args={0: by_ref(threshold_share)}, use=False)
def tk_vkey(a):
    o, t, _, sids, pubs = tk_parts(a.mir, a[0])
    n = sids.fs[0].n
    join = lambda m: ok(pnt(join_value(Seq(n=m, f=sids.fs[1].at), Seq(n=m, f=pubs.fs[1].at))))
    return [(t <= n, join(t)), (t > n, join(n))]


def converted(a, st, v):
    """the additive shares that the threshold shares of `ids` amount to: everything is multiplied by its Lagrange coefficient"""
    ex, mir = a.ex, a.mir
    o, t, sec, sids, pubs = tk_parts(mir, a[0])
    ids = a[1].fs[0]
    n = ids.n
    pos = lambda k: where(ex, core.CUR[0], sids.fs[0], ids.at(k))
    sid = lambda k: id_of(sids.fs[1].at(pos(k)))
    own = sid_at(sids)(where(ex, st, sids.fs[0], o))
    point = lambda j: res_pow(r(pubs.fs[1].at(pos(j))), lagrange(n, sid, sid(j)))
    if is_err(v):
        m = missing(st, sids.fs[0], n, ids)
        if not z3.is_false(z3.simplify(m)):
            return [("refused for an unknown party", m)]
        return [("refused if the shares add up to zero", neutral(folds.psum(n, point)))]
    no, ns, nm = ks_parts(mir, v.fs[0])
    gs = eq_goals(ex, st, no, o, "owner") + [("secret share", res_goal(r(ns), Res(QMOD, e=as_int(r(sec)) * lagrange(n, sid, own))))]
    return gs + eq_goals(ex, st, nm.fs[0], ids, "parties") + eq_goals(ex, st, nm.fs[1], Seq(n=n, f=lambda j: pnt(point(j))), "public shares")


@contract(TK + "to_key_share", props=["C22"], args={0: by_ref(threshold_share), 1: by_ref(lambda ex, n: id_set(n, 1))}, use=False)
def tk_to(a):
    return [(TRUE, Rel(None, lambda a, st, v: converted(a, st, v)))]


@contract(TK + "from_key_share", props=["C22"], args={0: by_ref(key_share)}, use=False)
def tk_from(a):
    o, sec, m = ks_parts(a.mir, a[0])
    n = m.fs[0].n
    sid = lambda k: norm(iv(k) + 1)
    inv = lambda i: folds.inv_q(lagrange(n, sid, sid(i)))
    return [(TRUE, mk(TKS, a.mir, owner=o, threshold=n, secret_share=Agg(SEC, [scal(Res(QMOD, e=as_int(r(sec)) * inv(where(a.ex, a.st, m.fs[0], o))))]),
                      share_ids=Agg("map", [m.fs[0], Seq(n=n, f=lambda j: share_id(Res(QMOD, e=sid(j))))]),
                      public_shares=Agg("map", [m.fs[0], Seq(n=n, f=lambda j: pnt(res_pow(r(m.fs[1].at(j)), inv(j))))])))]


def same_share(ex, rep, name, s, got, want):
    o1, s1, m1 = ks_parts(ex.mir, got)
    o2, s2, m2 = ks_parts(ex.mir, want)
    CUR[0] = s
    for l, g in eq_goals(ex, s, o1, o2, "owner") + [("secret share", res_goal(r(s1), r(s2)))] + eq_goals(ex, s, m1.fs[0], m2.fs[0], "parties") + eq_goals(ex, s, m1.fs[1], m2.fs[1], "public shares"):
        prove(rep, f"{name}: {l}", s.pc, g)


@theorem("from_key_share, then to_key_share: the same key share", props=["C22"])
def t_round(ex, rep):
    ks = key_share(ex, "share")
    parties = ks_parts(ex.mir, ks)[2].fs[0]
    _, _, outs = run_fn(ex, TK + "from_key_share", key_share=ks)
    for s, t in normal(rep, "from_key_share", outs):
        _, _, outs2 = run_fn(ex, TK + "to_key_share", after=s, self=t, ids=Agg("set", [parties]))
        n = 0
        for s2, v in normal(rep, "to_key_share", outs2):
            CUR[0] = s2
            if is_err(v):
                # only what KeyShare::new refuses
                prove(rep, "round trip: refused only for shares that add up to zero", s2.pc, neutral(sum_points(ks_parts(ex.mir, ks)[2].fs[1])))
                continue
            n += 1
            same_share(ex, rep, "round trip", s2, v.fs[0], ks)
        if not n:
            raise Unsupported("no conversion succeeds")


@theorem("ThresholdKeyShare::new_centralized: shares of the given key", props=["C22", "C23"])
def t_tcentralized(ex, rep):
    for present in (True, False):
        nm = "new_centralized " + ("(given key)" if present else "(random key)")
        ids = id_set("parties", 1)
        n = ids.fs[0].n
        t = z3.Int("threshold")
        fact("threshold", t >= 1, t < 2 ** 32)
        st, vals, outs = run_fn(ex, TK + "new_centralized", ids=ids, threshold=t, signing_key=signing_key(present))
        good = 0
        for s, v in normal(rep, nm, outs):
            CUR[0] = s
            if is_err(v):
                prove(rep, f"{nm}: refused only if the threshold is larger than the number of parties", s.pc, t > n)
                continue
            prove(rep, f"{nm}: a threshold larger than the number of parties is refused", s.pc, t <= n)
            good += 1
            m = v.fs[0]
            for l, g in eq_goals(ex, s, m.fs[0], ids.fs[0], "one share for every party"):
                prove(rep, f"{nm}: {l}", s.pc, g)
            for s1, j in cut_points(ex, s, m.fs[1], n):
                CUR[0] = s1
                o, th, sec, sids, pubs = tk_parts(ex.mir, m.fs[1].at(j))
                gs = eq_goals(ex, s1, o, ids.fs[0].at(j), "the owner of a share is the party it is filed under") + [("threshold", th == t)]
                gs += eq_goals(ex, s1, sids.fs[0], ids.fs[0], "share identifiers for all parties") + eq_goals(ex, s1, pubs.fs[0], ids.fs[0], "public shares of all parties")
                for l, g in gs:
                    prove(rep, f"{nm}: {l}", s1.pc, g)
                k = z3.Int("i!t2")
                s2 = s1.copy()
                s2.pc += [k >= 0, k < n]
                CUR[0] = s2
                prove(rep, f"{nm}: party k has the evaluation point k + 1", s2.pc, res_goal(r(sids.fs[1].at(k)), Res(QMOD, e=k + 1)))
                # the secret shares are values of one polynomial with the secret as constant term (checked for the map of all of them)
                sk = r(tk_parts(ex.mir, m.fs[1].at(k))[2])
                prove(rep, f"{nm}: every public share belongs to the secret share", s2.pc, res_goal(r(pubs.fs[1].at(k)), res_pow(gen(), as_int(sk))))
            shares = Agg("map", [Seq(n=n, f=lambda j: share_id(Res(QMOD, e=norm(iv(j) + 1)))), Seq(n=n, f=lambda j: tk_parts(ex.mir, m.fs[1].at(j))[2])])
            for cond in (t <= 1, t > 1):
                s3 = s.copy()
                s3.pc += [cond]
                CUR[0] = s3
                secret = z3.Int("signing_key") if present else drawn_secret(ex, s3, r(shares.fs[1].at(z3.IntVal(0))))
                for l, g in polynomial_shares(ex, s3, shares, Seq(n=n, f=lambda j: share_id(Res(QMOD, e=norm(iv(j) + 1)))), secret, t):
                    prove(rep, f"{nm} [{cond}]: {l}", s3.pc, g)
        if not good:
            raise Unsupported("no shares are made")


def drawn_secret(ex, s, share):
    """the random draw that is the constant term of the polynomial"""
    p = poly(as_int(share))
    c = [m[0][0] for m, k in p.d.items() if len(m) == 1 and k == 1 and m[0][1] == 1 and m[0][0].startswith("rnd") and m[0][0] not in folds.SUMS]
    if len(c) != 1:
        raise Unsupported("no single draw that is the constant term of the polynomial")
    return z3.Int(c[0])


@theorem("Shamir's scheme: the interpolation recovers the value at zero", props=["C21"])
def t_lagrange(ex, rep):
    lemma(rep, "Shares", "shares_combine", "public_shares_combine", "public_polynomial", "polynomial_degree", "polynomial_at_zero")
    lagrange_shape(rep)


@theorem("threshold shares: the additive shares of any `threshold` parties add up to the key", props=["C22"])
def t_any_subset(ex, rep):
    # to_key_share multiplies by these coefficients (its contract), new_centralized shares a polynomial with `threshold` coefficients
    lemma(rep, "Shares", "shares_combine", "public_shares_combine", "polynomial_degree", "polynomial_at_zero")
    lagrange_shape(rep)


def lagrange_shape(rep):
    """the coefficient of the contracts is the one of the lemma: the product over k != i of x_k / (x_k - x_i)"""
    x = scalar_fn("SID<lemma>", True)
    old = CUR[0]
    CUR[0] = State()
    try:
        for i in range(4):
            sid = lambda k: as_int(x(k))
            got = lagrange(z3.IntVal(4), sid, sid(i))
            want = z3.IntVal(1)
            for k in range(4):
                if k != i:
                    want = norm(want * sid(k) * folds.inv_q(norm(sid(k) - sid(i))))
            prove(rep, f"the coefficient of the contracts is that of the lemma (4 parties, number {i})", [], eqpoly_goal(got, want))
    finally:
        CUR[0] = old


def eqpoly_goal(a, b):
    return z3.BoolVal(eqpoly(a, b))


# ---------------------------------------------------------------- auxiliary data
def opaque(tag):
    """a callee of which only its argument matters"""
    return lambda ex, st, c: Agg(tag, [ext.D(ex, st, v) for v in c.vals])


def drawn_value(tag):
    return lambda ex, st, c: Agg(tag, [ext.draw(st, "rnd" + tag, lambda x: [])])


AUX_CALLEES = {"paillier::keys::SecretKeyPaillierWire::<P>::random": drawn_value("sk"), "paillier::keys::SecretKeyPaillierWire::<P>::public_key": opaque("pk"),
               "paillier::ring_pedersen::RPParams::<P>::random": drawn_value("rp"), "paillier::ring_pedersen::RPParams::<P>::to_wire": opaque("wire")}


@theorem("AuxInfo::new_centralized: every party's own key material, the same public data for all", props=["C23"])
def t_aux(ex, rep):
    old = with_opaque(ex, AUX_CALLEES)
    try:
        ids = id_set("parties", 0)
        n = ids.fs[0].n
        _, _, outs = run_fn(ex, F + "AuxInfo::<P, I>::new_centralized", ids=ids)
        nm = "AuxInfo::new_centralized"
        for s, m in normal(rep, nm, outs):
            CUR[0] = s
            for l, g in eq_goals(ex, s, m.fs[0], ids.fs[0], "data for every party"):
                prove(rep, f"{nm}: {l}", s.pc, g)
            j, k = z3.Int("i!own"), z3.Int("i!pub")
            s1 = s.copy()
            s1.pc += [j >= 0, j < n, k >= 0, k < n]
            CUR[0] = s1
            x, y = m.fs[1].at(j), m.fs[1].at(k)
            part = lambda v: (fld(ex.mir, v, "owner"), fld(ex.mir, fld(ex.mir, v, "secret"), "paillier_sk"), fld(ex.mir, v, "public").fs[0])
            (ox, sx, px), (oy, sy, py) = part(x), part(y)
            gs = eq_goals(ex, s1, ox, ids.fs[0].at(j), "the owner is the party the data is filed under") + eq_goals(ex, s1, px.fs[0], ids.fs[0], "public data of all parties")
            pub = px.fs[1].at(k)
            gs += eq_goals(ex, s1, fld(ex.mir, pub, "paillier_pk"), Agg("pk", [sy]), "the public key of a party belongs to its secret key")
            rp = fld(ex.mir, pub, "rp_params")
            gs.append(("ring-Pedersen parameters are drawn for the party", z3.BoolVal(rp.tag == "wire" and rp.fs[0].tag == "rp" and key(k) in key(rp) and key(j) not in key(rp))))
            gs.append(("secret keys are drawn for the party", z3.BoolVal(sx.tag == "sk" and key(j) in key(sx) and key(k) not in key(sx))))
            gs += eq_goals(ex, s1, py.fs[1].at(k), pub, "the same public data for all owners")
            for l, g in gs:
                prove(rep, f"{nm}: {l}", s1.pc, g)
    finally:
        ex.handlers, ex.contracts = old


def with_opaque(ex, hs):
    """callees of which only their argument matters"""
    for p in hs:
        if p not in ex.mir.fns:
            raise Unsupported(f"function not found: {p}")
    old = ex.handlers, ex.contracts
    clones = [p for p in ex.mir.fns if p.endswith("core::clone::Clone>::clone") and any(t in p for t in ("KeyPaillier", "RPParams"))]
    hs = dict(hs, **{p: ext.clone1 for p in clones})
    ex.handlers = dict(ex.handlers, **hs)
    ex.contracts = {p: c for p, c in ex.contracts.items() if p not in hs}
    return old


def aux_info(ex, ids):
    f = lambda t: (lambda j: Agg(t, [z3.Function("aux" + t, IDX, IDX)(norm(iv(j)))]))
    pk, rp = f("pkwire"), f("rpwire")
    vals = Seq(n=ids.n, f=lambda j: mk(F + "PublicAuxInfo", ex.mir, paillier_pk=pk(j), rp_params=rp(j)), key="aux(..)")
    secret = mk(F + "SecretAuxInfo", ex.mir, paillier_sk=Agg("skwire", [z3.Int("aux.sk")]))
    return mk(F + "AuxInfo", ex.mir, owner=ids.at(index("owner(aux)", ids.n)), secret=secret, public=Agg(F + "PublicAuxInfos", [Agg("map", [ids, vals])]))


@theorem("AuxInfo::subset: exactly the requested parties", props=["C23"])
def t_subset(ex, rep):
    ids, want = pids("aux", length("len(aux)", 1)), id_set("parties", 0)
    aux = aux_info(ex, ids)
    old = with_opaque(ex, {})
    try:
        _, _, outs = run_fn(ex, F + "AuxInfo::<P, I>::subset", self=aux, parties=want)
    finally:
        ex.handlers, ex.contracts = old
    n = want.fs[0].n
    owner = fld(ex.mir, aux, "owner")
    lemma(rep, "Shares", "subset_of_count")
    good = 0
    for s, v in normal(rep, "subset", outs):
        CUR[0] = s
        _, has_owner = ext.locate(ex, s, want.fs[0], owner)
        counts = [z3.Int(x) for x in ext.COUNTS if any(x in core.consts_of(f) for f in s.pc)]
        full = z3.And([c == n for c in counts]) if counts else FALSE
        if is_err(v):
            prove(rep, "subset: refused only without the owner or for parties that have no data", s.pc, z3.Or(z3.Not(has_owner), z3.Not(full)) if counts else z3.Not(has_owner))
            continue
        good += 1
        a = v.fs[0]
        prove(rep, "subset: the owner is one of the parties", s.pc, has_owner)
        for l, g in eq_goals(ex, s, fld(ex.mir, a, "owner"), owner, "owner") + eq_goals(ex, s, fld(ex.mir, a, "secret"), fld(ex.mir, aux, "secret"), "secret"):
            prove(rep, f"subset: {l}", s.pc, g)
        m = fld(ex.mir, a, "public").fs[0]
        if m.fs[0].keep is not True:
            raise Unsupported("the result is not a filtered collection")
        # kept are the parties that are requested, and there are as many of them as were requested (so all of them are there)
        prove(rep, "subset: as many parties as requested", s.pc, ext.map_len(ex, s, m.fs[0]) == n)
        j = z3.Int("i!t")
        s1 = s.copy()
        s1.pc += [j >= 0, j < m.fs[0].n]
        for s2, k in elem_outs(ex, s1, m.fs[0], j):
            CUR[0] = s2
            _, c = ext.locate(ex, s2, want.fs[0], ids.at(j))
            if k is ext.SKIP:
                prove(rep, "subset: no requested party is left out", s2.pc, z3.Not(c))
                continue
            prove(rep, "subset: no other party is there", s2.pc, c)
            for l, g in eq_goals(ex, s2, k, ids.at(j), "party") + eq_goals(ex, s2, m.fs[1].at(j), fld(ex.mir, aux, "public").fs[0].fs[1].at(j), "public data"):
                prove(rep, f"subset: {l}", s2.pc, g)
    if not good:
        raise Unsupported("no subset is returned")


@theorem("AuxInfo::into_precomputed: the same material, party by party", props=["C23"])
def t_precomputed(ex, rep):
    old = with_opaque(ex, {"paillier::keys::SecretKeyPaillierWire::<P>::into_precomputed": opaque("sk'"), "paillier::keys::PublicKeyPaillierWire::<P>::into_precomputed": opaque("pk'"),
                           "paillier::ring_pedersen::RPParamsWire::<P>::to_precomputed": opaque("rp'")})
    try:
        ids = pids("aux", length("len(aux)", 1))
        aux = aux_info(ex, ids)
        _, _, outs = run_fn(ex, F + "AuxInfo::<P, I>::into_precomputed", self=aux)
        for s, v in normal(rep, "into_precomputed", outs):
            CUR[0] = s
            m = fld(ex.mir, v, "public_aux")
            gs = eq_goals(ex, s, fld(ex.mir, fld(ex.mir, v, "secret_aux"), "paillier_sk"), Agg("sk'", [Agg("skwire", [z3.Int("aux.sk")])]), "secret key")
            gs += eq_goals(ex, s, m.fs[0], ids, "parties")
            pub = fld(ex.mir, aux, "public").fs[0].fs[1]
            want = Seq(n=ids.n, f=lambda j: mk(F + "PublicAuxInfoPrecomputed", ex.mir, paillier_pk=Agg("pk'", [fld(ex.mir, pub.at(j), "paillier_pk")]), rp_params=Agg("rp'", [fld(ex.mir, pub.at(j), "rp_params")])))
            for l, g in gs + eq_goals(ex, s, m.fs[1], want, "public data"):
                prove(rep, f"into_precomputed: {l}", s.pc, g)
    finally:
        ex.handlers, ex.contracts = old
