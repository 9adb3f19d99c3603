#!/usr/bin/env python3-vt
"""run.py PID [--tier quick|thorough] [--build-only] [--only SUBSTR]: decides one property for /repo's current working tree.

1. the MIR of the crate is dumped from /repo's sources (mirdump) and the replay server is built from the same sources;
2. every contract and theorem labelled with the property, and every contract those rely on, is verified against that MIR;
3. the conformance suite of the property runs the real code (bounded; it also supplies failing inputs);
4. verdict, evidence/<PID>.json and, for a violation, the replay file."""
import argparse, fcntl, glob, hashlib, importlib, json, os, select, shutil, signal, subprocess, sys, threading, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(HERE, "specs"), os.path.join(ROOT, "tool")]
BUILD = os.path.join(ROOT, "build")
NPROC = min(8, os.cpu_count() or 4)
REPO = os.environ.get("VERIF_REPO", "/repo")


# ------------------------------------------------------------------ building
def sh(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError(f"{what} failed:\n{p.stdout[-4000:]}")
    return p.stdout


def tree_hash():
    h = hashlib.sha256()
    fs = sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True)) + [REPO + "/Cargo.toml", REPO + "/Cargo.lock"]
    fs += sorted(glob.glob(ROOT + "/mirdump/src/*.rs")) + sorted(glob.glob(ROOT + "/shim/**/*.*", recursive=True)) + [ROOT + "/tool/gencrate.py"]
    for f in fs:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:24]


def build_mir(rounds=False):
    """MIR of the view of /repo, as JSON (rounds: the view with src/protocols)"""
    import gencrate
    os.makedirs(BUILD, exist_ok=True)
    kind = "rounds" if rounds else "mir"
    out = f"{BUILD}/{kind}-{tree_hash()}.json"
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    env["LD_LIBRARY_PATH"] = sysroot + "/lib"
    env["CARGO_TARGET_DIR"] = BUILD + "/mirdump"
    sh(["cargo", "+nightly", "build", "--offline"], ROOT + "/mirdump", env, "build of mirdump")
    if os.path.exists(out):
        return out
    for old in glob.glob(f"{BUILD}/{kind}-*.json"):
        os.remove(old)
    crate = BUILD + ("/view-rounds" if rounds else "/view")
    gencrate.gen(crate, repo=REPO, rounds=rounds)
    env.update(MIRDUMP_CRATE="synedrion", MIRDUMP_OUT=out + ".tmp", RUSTC_WORKSPACE_WRAPPER=BUILD + "/mirdump/debug/mirdump",
               CARGO_TARGET_DIR=BUILD + "/view-target", CARGO_INCREMENTAL="0",
               RUSTFLAGS="-Zmir-opt-level=0 -Coverflow-checks=yes -Cdebug-assertions=no --cap-lints allow")
    os.utime(crate + "/src/lib.rs")
    sh(["cargo", "+nightly", "check", "--offline", "--features", "dev,k256,bip32"], crate, env, "MIR dump of the crate")
    os.rename(out + ".tmp", out)
    return out


def build_exe():
    import harness
    os.makedirs(BUILD + "/replay", exist_ok=True)
    return harness.build(BUILD + "/replay", repo=REPO)


SESSIONS = {"C29": ["KeyInit", "AuxGen"], "C30": ["InteractiveSigning"], "C31": ["KeyRefresh"], "C32": ["KeyResharing"]}


def build_sessions():
    """the session runner (sessions/), over the view of the crate with src/protocols"""
    import gencrate
    os.makedirs(BUILD, exist_ok=True)
    gencrate.gen(BUILD + "/view-sessions", repo=REPO, rounds=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=BUILD + "/sessions", CARGO_INCREMENTAL="0", RUSTFLAGS="--cap-lints allow")
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    sh(["cargo", "build", "--offline", "--locked"], ROOT + "/sessions", env, "build of the session runner")
    return BUILD + "/sessions/debug/sessions", []


def run_sessions(pid, exe, seed, thorough):
    """bounded: sessions of the real protocols with tampered messages"""
    out = {"cases": 0, "fails": [], "unavailable": [], "kinds": {}, "suites": ["sessions"]}
    runs = [(s, 600 if thorough else 120, SESSIONS[pid]) for s in range(seed, seed + (12 if thorough else 2))]
    if pid == "C32":        # the whole life of a key, with honest parties (what evidence shows is C29-C31)
        runs += [(s, 0, ["KeyInit", "AuxGen", "KeyRefresh", "InteractiveSigning", "KeyResharing"]) for s in range(seed, seed + (400 if thorough else 40))]
    for s, tampers, names in runs:
        args = [exe, str(s), str(tampers)] + names
        try:
            p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600 if thorough else 200)
        except subprocess.TimeoutExpired:
            out["unavailable"].append(f"sessions with seed {s}: too slow")
            continue
        if p.returncode:
            out["unavailable"].append(f"sessions with seed {s}: the runner fails: {p.stderr[-400:]}")
        for l in p.stdout.splitlines():
            d = json.loads(l)
            if "skipped" in d:
                out["unavailable"].append(f"sessions with seed {s}: {d['skipped']}")
                continue
            out["cases"] += d["cases"]
            for k, n in d["rejected"].items():
                k = d["op"] + ", " + k
                out["kinds"][k] = out["kinds"].get(k, 0) + n
            for f in d["fails"]:
                if not tampers and ("convicted" in f["what"] or "evidence" in f["what"] or "malformed" in f["what"]):
                    continue
                if f["got"].startswith("harness:") or f["what"].startswith("harness"):
                    out["unavailable"].append(f"sessions with seed {s}: {f['got'][:300]}")
                elif sum(g["op"] == f["op"] and g["what"] == f["what"] and g["got"] == f["got"] for g in out["fails"]) < 2:
                    out["fails"].append(dict(f, args=args[1:]))
    return out


class Job(threading.Thread):
    def __init__(self, f):
        super().__init__(daemon=True)
        self.f, self.val, self.exc = f, None, None
        self.start()

    def run(self):
        try:
            self.val = self.f()
        except BaseException as e:
            self.exc = e
            self.tb = traceback.format_exc()


# ------------------------------------------------------------------ proofs
ROUNDS = {"C29", "C30", "C31", "C32"}        # properties of src/protocols, over the view of the crate that includes it


def load_specs(rounds=False):
    import spec
    for f in sorted(os.listdir(HERE + "/specs")):
        if f.startswith(("c_", "t_") + (("r_",) if rounds else ())) and f.endswith(".py"):
            importlib.import_module(f[:-3])
    return spec


def prove_task(spec, mir, kind, name, disabled, conn, timeout):
    """runs in a forked child"""
    from lib import Ex, install2
    import core
    ex = Ex(mir)
    install2(ex)
    ex.contracts = {p: c for p, c in spec.CONTRACTS.items() if p not in disabled}
    rep = spec.Report()
    err = None
    q0, t0 = core.STATS.queries, core.STATS.time
    spec.USED_ADTS.clear()
    spec.USED_CONTRACTS.clear()
    try:
        if kind == "contract":
            spec.verify(ex, rep, spec.CONTRACTS[name], timeout)
        else:
            spec.run_theorem(ex, rep, name)
    except Exception as e:          # an input the specification does not foresee: not a verdict
        rep.obs.clear()
        rep.undecided.append((name, "not applicable to this code: " + "".join(traceback.format_exception_only(type(e), e)).strip()[:300]))
        err = traceback.format_exc()
    r = {"kind": kind, "name": name, "obs": rep.obs, "undecided": rep.undecided, "fns": rep.fns, "adts": sorted(spec.USED_ADTS), "deps": sorted(spec.USED_CONTRACTS - {name}),
         "inlined": sorted(ex.inlined), "queries": core.STATS.queries - q0, "solver_s": round(core.STATS.time - t0, 2), "err": err,
         "trusted": sorted(getattr(ex, "used_ext", ()))}
    conn.send_bytes(json.dumps(r).encode())
    conn.close()


class Pool:
    """forked children, one per task; contracts a task relied on are verified too; a task that relied on a contract that
    does not hold is redone without it (the callee's body is used instead)"""
    def __init__(self, spec, mir, limit, timeout, deadline, follow=True):
        self.spec, self.mir, self.limit, self.timeout, self.deadline, self.follow = spec, mir, limit, timeout, deadline, follow
        self.done, self.disabled, self.notes = {}, set(), []

    def run(self, tasks):
        import multiprocessing as mp
        ctx = mp.get_context("fork")
        todo, running, seen = list(tasks), {}, set(tasks)
        while todo or running:
            while todo and len(running) < NPROC:
                t = todo.pop(0)
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=prove_task, args=(self.spec, self.mir, t[0], t[1], set(self.disabled), b, self.timeout))
                p.start()
                b.close()
                running[t] = (p, a, time.time(), set(self.disabled))
            for t, (p, a, t0, dis) in list(running.items()):
                r = None
                if a.poll(0.02):
                    try:
                        r = json.loads(a.recv_bytes())
                    except EOFError:
                        r = {"dead": f"the verifier process ended early"}
                elif time.time() - t0 > self.limit or time.time() > self.deadline:
                    p.kill()
                    r = {"dead": f"time limit of {self.limit} s"}
                if r is None:
                    continue
                p.join()
                a.close()
                del running[t]
                if "dead" in r:
                    r = {"kind": t[0], "name": t[1], "obs": [], "undecided": [(t[1], r["dead"])], "fns": {}, "adts": [], "deps": [], "inlined": [], "queries": 0, "solver_s": 0, "err": None, "trusted": []}
                r["secs"] = round(time.time() - t0, 1)
                self.done[t] = r
                bad = [d for d in r["deps"] if d in self.disabled and d not in dis]
                if bad:
                    todo.append(t)
                    continue
                if self.follow:
                    for d in r["deps"]:
                        k = ("contract", d)
                        if k not in seen and d not in self.disabled:
                            seen.add(k)
                            todo.append(k)
                if t[0] == "contract" and (any(o["status"] != "proved" for o in r["obs"]) or r["undecided"]) and t[1] not in self.disabled:
                    self.disabled.add(t[1])
                    for t2, r2 in list(self.done.items()):
                        if t[1] in r2["deps"] and t2 not in todo:
                            todo.append(t2)
        return self.done


def baseline():
    p = ROOT + "/vc/baseline.json"
    return json.load(open(p)) if os.path.exists(p) else {"fns": {}, "adts": {}}


def interface_changed(spec, mir, base, r):
    """why the interface the specification was written for is no longer there"""
    n = r["name"]
    if r["kind"] == "contract" and n in mir.fns and n in base["fns"] and spec.signature(mir, n) != base["fns"][n]:
        return f"the signature of {n} changed"
    for a in r["adts"]:
        if a in base["adts"] and spec.layout(mir, a) != base["adts"][a]:
            return f"the fields of {a} changed"
    return None


# ------------------------------------------------------------------ known findings
def findings():
    out = []
    p = ROOT + "/known-findings.txt"
    for l in open(p) if os.path.exists(p) else ():
        l = l.strip()
        if l.startswith("finding:"):
            d = json.loads(l[len("finding:"):])
            out.append(d)
    return out


def is_known(pid, kf, f):
    """f: a failing input, or the name of a failed obligation"""
    for k in kf:
        if k["property"] != pid:
            continue
        if isinstance(f, str):
            if f in k.get("obligations", ()):
                return k
        elif k["op"] == f["op"] and f["what"].startswith(k["what"]) and f["got"] == k.get("got", f["got"]):
            return k
    return None


# ------------------------------------------------------------------ suites
def run_suites(pid, exe, seed, thorough, deadline):
    """bounded: real code on concrete inputs"""
    import harness, suites
    for m in ("suites_zk", "suites_ent"):
        importlib.import_module(m)
    out = {"cases": 0, "fails": [], "unavailable": [], "kinds": {}, "suites": []}
    for f in suites.SUITES.get(pid, []):
        srv = harness.Server(exe)
        S = harness.Suite(srv, seed, thorough)
        try:
            f(S)
            out["suites"].append(f.__name__)
        except harness.Unavailable as e:
            out["unavailable"].append(f"{f.__name__}: {e}")
        except harness.Needed as e:
            m = json.dumps(e.r)
            if any(x in m for x in ("missing field", "unknown field", "invalid type", "unknown variant", "invalid length", "expected ")):
                out["unavailable"].append(f"{f.__name__}: {e}"[:400])
            else:
                S.fails.append({"what": "an operation that must succeed fails", "op": e.op, "args": e.kw, "got": e.r, "expected": "a result"})
        except Exception as e:
            out["unavailable"].append(f"{f.__name__}: not applicable to this code: {traceback.format_exception_only(type(e), e)[-1].strip()[:300]}")
            out["tb"] = traceback.format_exc()
        finally:
            srv.close()
        out["cases"] += S.n
        out["fails"] += S.fails
        for k, n in S.kinds.items():
            out["kinds"][k] = out["kinds"].get(k, 0) + n
    return out


# ------------------------------------------------------------------ main
ASSUMED = [
    "contracts of the dependencies (crypto-bigint, crypto-primes, elliptic-curve/k256, subtle, sha3, serde, core/alloc, itertools) are assumed; they are listed in vc/ext.py and vc/lib.py and cross-checked on concrete inputs by the conformance suite only",
    "the MIR of the nightly compiler (overflow checks on, debug assertions off, no optimisation) is taken for the semantics of the sources; the translation of MIR to verification conditions (vc/engine.py) and the normaliser/prover (vc/core.py, z3) are trusted",
    "big integers are mathematical integers with explicit wrap-around at the declared width; `usize`/`u32` arithmetic keeps its overflow checks",
    "parameter sets satisfy the inequalities the code's own self-consistency formula states; the order of the curve group is prime",
    "equalities of group elements are decided in the free abelian group over the bases that occur (all bases treated as units)",
    "hash functions are modelled as uninterpreted functions of the exact byte strings fed to them; XOF output is treated as arbitrary",
]


ROUNDS_ASSUMED = [
    "the interface of `manul` is shim/manul/src/rounds.rs (the crate is not available offline); message parts are modelled as absent or as carrying a value, decoding is a function of the part and the type",
    "echo broadcasts have been checked by the session layer: the echoes that accompany evidence are what the parties sent to this party",
    "bit vectors of the parties have the same length (the code asserts it)",
    "proofs are complete (C17-C20), generated moduli have full size (C11), conversions between wire and precomputed forms are inverse to each other (C05, C11), and a hashed value is determined by what is hashed (C06)",
    "iteration over, and insertion into, maps and sets of parties of any size is modelled; the sums over all parties are related by lemmas/Rounds.lean",
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--write-baseline", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--no-suite", action="store_true")
    ap.add_argument("-v", action="store_true")
    o = ap.parse_args()
    t00 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(BUILD + "/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if o.setup:
        sh(["cargo", "+nightly", "build", "--offline"], ROOT + "/mirdump", dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=BUILD + "/mirdump"), "build of mirdump")
        return 0
    thorough = o.tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    deadline = t00 + (3000 if thorough else 700)
    pid = o.pid
    rounds = pid in ROUNDS
    jm = Job(lambda: build_mir(rounds))
    je = None if o.no_suite else Job(build_sessions if rounds else build_exe)
    spec = load_specs(rounds)
    if o.write_baseline:
        jm.join()
        return write_baseline(spec, jm)
    # -- suites as soon as the server is there
    js = None
    if je:
        def suites_job():
            je.join()
            if je.exc:
                raise je.exc
            return run_sessions(pid, je.val[0], seed, thorough) if rounds else run_suites(pid, je.val[0], seed, thorough, deadline)
        js = Job(suites_job)
    jm.join()
    done, base, mir = {}, baseline(), None
    if jm.exc is None and not o.no_proof:
        from mir import Mir
        mir = Mir(jm.val)
        tasks = [("theorem", n) for n, (ps, _) in spec.THEOREMS.items() if pid in ps]
        tasks += [("contract", p) for p, c in spec.CONTRACTS.items() if pid in c.props]
        if js:
            js.join()          # one z3-free phase at a time: also keeps forks single-threaded
        pool = Pool(spec, mir, 900 if thorough else 240, 30000 if thorough else 12000, deadline)
        done = pool.run(tasks)
    if js:
        js.join()
    if jm.exc is not None and (js is None or js.exc is not None) and not rounds:      # (the official build leaves src/protocols out)
        print("neither the MIR dump nor the replay server can be built from /repo", file=sys.stderr)
        print(str(jm.exc)[-3000:], file=sys.stderr)
        if js:
            print(str(js.exc)[-3000:], file=sys.stderr)
        return 2
    sr = js.val if js and js.exc is None else {"cases": 0, "fails": [], "unavailable": ["replay server: " + str(js.exc)[-600:] if js else "not run"], "kinds": {}, "suites": []}
    if je and je.exc is None and je.val[1]:
        sr["unavailable"] += [f"replay operation {d} does not compile against this tree" for d in je.val[1]]

    # -- verdict
    obs, undec, refuted, unknown, shown = [], [], [], [], []
    kf, known = findings(), {}
    if jm.exc is not None:
        undec.append(("MIR", str(jm.exc)[-600:]))
    for (kind, name), r in done.items():
        mine = kind == "theorem" or pid in spec.CONTRACTS[name].props
        why = interface_changed(spec, mir, base, r)
        if why and any(x["status"] != "proved" for x in r["obs"]):
            undec.append((name, why))
            continue
        undec += r["undecided"]
        for x in r["obs"]:
            if x["status"] == "proved" or mine:
                obs.append(x)
            else:
                undec.append((name, "contract of a callee does not hold; the body was used instead: " + x["name"]))
            if x["status"] == "refuted" and mine:
                k = is_known(pid, kf, name + ": " + x["name"])
                if k:
                    known[json.dumps(k)] = k
                    shown.append(name + ": " + x["name"])
                else:
                    refuted.append((name, x))
            if x["status"] == "unknown" and mine:
                unknown.append((name, x))
    concrete = []
    for f in sr["fails"]:
        k = is_known(pid, kf, f)
        if k:
            known[json.dumps(k)] = k
        else:
            concrete.append(f)
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    viol = 0
    for k in known.values():
        print(f"KNOWN-FINDING: property={pid} {k['text']}")
    line = None
    if concrete or refuted:
        viol = len(concrete) + len(refuted)
        rp = f"{ROOT}/evidence/replay_{pid}.json"
        json.dump({"property": pid, "failing_inputs": concrete[:20], "failed_obligations": [dict(function=n, **x) for n, x in refuted][:40],
                   "how": "failing_inputs: each is one request {op, ...args} for the replay server built from /repo (python3-vt /verif/vc/replay.py FILE runs them again), or one message of a session that /verif/build/sessions/debug/sessions ARGS goes through (seed, number of tampered messages per message, protocols); "
                          "failed_obligations: obligation, goal and the solver's counter-model"}, open(rp, "w"), indent=1)
        line = f"VIOLATION property={pid} replay={rp}" + ("" if concrete else " no-failing-input-found")
    n_ok = sum(x["status"] == "proved" for x in obs)
    proved_fns = sorted(n for (k, n), r in done.items() if r["obs"] and not r["undecided"] and all(x["status"] == "proved" for x in r["obs"]))
    mine_done = {k: r for k, r in done.items() if k[0] == "theorem" or pid in spec.CONTRACTS[k[1]].props}
    level = "proof" if mine_done and not undec and not unknown and not refuted else "other"
    ev = {
        "property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": level,
        "coverage": {
            "obligations": len(obs), "discharged": n_ok,
            "checker_cmd": f"python3-vt /verif/vc/run.py {pid} --tier {o.tier}",
            "trusted_base": ["rustc nightly (MIR)", "vc/engine.py, vc/core.py (VC generation, normal forms)", "z3 " + z3_version(), "assumed contracts of dependencies: vc/ext.py, vc/lib.py"],
            "contracts_of_this_property": sorted(n for k, n in mine_done if k == "contract"),
            "theorems_of_this_property": sorted(n for k, n in mine_done if k == "theorem"),
            "contracts_relied_on": sorted(n for (k, n) in done if (k, n) not in mine_done),
            "fully_discharged": proved_fns,
            "functions_inlined": sorted({i for r in done.values() for i in r["inlined"]}),
            "undecided": [list(u) for u in undec], "unknown": [x["name"] for _, x in unknown],
            "refuted": [x["name"] for _, x in refuted], "refuted_and_listed_as_known_finding": shown,
            "solver_queries": sum(r["queries"] for r in done.values()), "solver_s": round(sum(r["solver_s"] for r in done.values()), 1),
            "back_ends": {"z3": "non-linear/uninterpreted integer goals", "normal form": "polynomial, word and residue identities", "Lean 4 with Mathlib": "lemmas/*.lean: algebra, number theory and encodings for all sizes"},
            "bounded_conformance": {"label": "bounded, not counted as proved", "evaluations": sr["cases"], "by_kind": sr["kinds"], "unavailable": sr["unavailable"]},
            "samples": [x["name"] for x in obs[:5]],
            "explanation": "level is 'proof' when every contract and theorem of the property was discharged in this run; otherwise 'other': the listed undecided parts rest on the bounded conformance suite only",
        },
        "assumptions": ASSUMED + (ROUNDS_ASSUMED if rounds else []), "wall_s": round(time.time() - t00, 1), "violations": viol,
    }
    json.dump(ev, open(f"{ROOT}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid}: {n_ok}/{len(obs)} obligations discharged ({len(done)} functions/theorems), {len(undec)} undecided, {len(unknown)} unknown; conformance {sr['cases']} cases, {len(sr['unavailable'])} unavailable; {ev['wall_s']} s")
    if o.v or viol:
        for n, x in refuted[:20]:
            print("  refuted:", x["name"], x["detail"][:400])
    if o.v:
        for u in undec:
            print("  undecided:", *u)
        for n, x in unknown:
            print("  unknown:", x["name"], x["detail"][:300])
        for u in sr["unavailable"]:
            print("  unavailable:", u)
        if sr.get("tb"):
            print(sr["tb"])
        for k, r in done.items():
            print(f"  {r['secs']:7.1f}s {len(r['obs']):4d} {k[1]}" + ("" if k in mine_done else "   (dep)"))
            if r["err"]:
                print(r["err"])
    if line:
        for f in concrete[:5]:
            print("  failing input:", json.dumps(f)[:600])
        print(line)
        return 1
    return 0


def z3_version():
    import z3
    return z3.get_version_string()


def write_baseline(spec, jm):
    if jm.exc:
        raise jm.exc
    from mir import Mir
    mir = Mir(jm.val)
    b = {"fns": {p: spec.signature(mir, p) for p in sorted(spec.CONTRACTS) if p in mir.fns}, "adts": {a: spec.layout(mir, a) for a in sorted(mir.adts)}}
    mir = Mir(build_mir(True))
    b["adts"] |= {a: spec.layout(mir, a) for a in sorted(mir.adts) if a.startswith("protocols::")}
    json.dump(b, open(ROOT + "/vc/baseline.json", "w"), indent=0, sort_keys=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
