"""Concrete conformance suites: the real code is run (through the replay server, see /verif/harness) on inputs chosen from
the property, and compared with what the property says, computed here with Python integers only."""
import json, os, random, re, select, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, "tool"))


class Unavailable(Exception):
    pass


class BuildFailed(Exception):
    pass


def build(work, repo="/repo", log=None):
    """builds the replay server from the current tree; operations that no longer compile are left out one by one"""
    import gencrate
    crate, target = work + "/crate", work + "/target"
    hdir = work + "/harness"
    shutil.rmtree(hdir, ignore_errors=True)
    shutil.copytree(os.path.join(ROOT, "harness"), hdir)
    gencrate.gen(crate, repo=repo, replay=hdir)
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", RUSTFLAGS="--cap-lints allow", CARGO_INCREMENTAL="0")
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    dropped = []
    for _ in range(25):
        # the optimiser must not drop the overflow checks: dev profile
        p = subprocess.run(["cargo", "build", "--offline", "--features", "dev,k256,bip32", "--message-format=short"], cwd=crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return target + "/debug/verif_main", dropped
        bad = {}
        for f, l in re.findall(r"^\S*src/verif_replay/(\w+\.rs):(\d+):\d+: error", p.stdout, re.M):
            bad.setdefault(f, set()).add(int(l))
        if not bad or re.search(r"^(?!\S*src/verif_replay)\S*src/\S+\.rs:\d+:\d+: error", p.stdout, re.M):
            raise BuildFailed(p.stdout[-4000:])
        for f, ls in bad.items():
            path = f"{hdir}/{f}"
            lines = open(path).read().split("\n")
            for l in sorted(ls):
                n = drop_op(lines, l - 1)
                if n is None:
                    raise BuildFailed(p.stdout[-4000:])
                dropped.append(f"{f[2:-3]}.{n}")
            open(path, "w").write("\n".join(lines))
    raise BuildFailed("replay server: too many operations that do not compile")


def drop_op(lines, i):
    """blanks the match arm `"name" => ...` that contains line i"""
    k = i
    while k >= 0 and not re.match(r'^        "\w+"( \| "\w+")* =>', lines[k]):
        if re.match(r"^(pub )?fn |^macro_rules|^impl|^use |^}", lines[k]) and k != i:
            return None
        k -= 1
    if k < 0:
        return None
    name = re.search(r'"(\w+)"', lines[k]).group(1)
    e = k + 1
    while e < len(lines) and not re.match(r'^        ("\w+"( \| "\w+")*|_|\w+) =>|^    }|^        // ', lines[e]):
        e += 1
    for j in range(k, e):
        lines[j] = ""
    return name


class Server:
    def __init__(self, exe):
        self.exe = exe
        self.p = None
        self.calls = 0

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def call(self, op, timeout=60, **kw):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.calls += 1
        kw["op"] = op
        self.p.stdin.write((json.dumps(kw) + "\n").encode())
        self.p.stdin.flush()
        buf = b""
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while not buf.endswith(b"\n"):
            r, _, _ = select.select([fd], [], [], max(0.0, end - time.time()))
            if not r:
                self.p.kill()
                self.p.wait()
                return {"hang": timeout}
            c = os.read(fd, 1 << 20)
            if not c:
                self.p.wait()
                return {"crash": self.p.returncode}
            buf += c
        r = json.loads(buf)
        for k in ("err", "panic"):
            m = r.get(k)
            if isinstance(m, str) and (m.startswith("harness:") or m.startswith("unknown op")):
                raise Unavailable(f"{op}: {m}")
        return r

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None


PANIC = "<panic>"
REJECT = "<rejected>"


def outcome(r):
    if "ok" in r:
        return r["ok"]
    if "panic" in r:
        return PANIC
    if "err" in r:
        return REJECT
    return "<hang>" if "hang" in r else "<crash>"


class Suite:
    """runs commands and records every disagreement with the expectation"""
    def __init__(self, srv, seed, thorough=False, known=None):
        self.srv, self.rnd, self.thorough = srv, random.Random(seed), thorough
        self.fails, self.n, self.unavailable, self.kinds, self.known_hit = [], 0, set(), {}, {}
        self.known = known or {}
        self.budget = None

    def K(self, quick, thorough=None):
        return (thorough or quick * 8) if self.thorough else quick

    def call(self, op, **kw):
        return self.srv.call(op, **kw)

    def get(self, op, **kw):
        """a value needed to go on; raises Unavailable when the code does not give one"""
        r = self.srv.call(op, **kw)
        if "ok" not in r:
            raise Needed(op, kw, r)
        return r["ok"]

    def check(self, what, ok, op, kw, got, expected):
        self.n += 1
        k = what.split(":")[0]
        self.kinds[k] = self.kinds.get(k, 0) + 1
        if not ok:
            f = {"what": what, "op": op, "args": kw, "got": got, "expected": expected}
            self.fails.append(f)

    def expect(self, what, exp, op, conv=None, **kw):
        """exp: expected value, PANIC, REJECT, a predicate, or a tuple of alternatives"""
        r = self.srv.call(op, **kw)
        got = outcome(r)
        g = got
        if conv and got not in (PANIC, REJECT, "<hang>", "<crash>"):
            g = conv(got)
        if callable(exp):
            ok = bool(exp(g))
            e = getattr(exp, "__doc__", None) or "a value satisfying the property"
        elif isinstance(exp, tuple) and exp and exp[0] == "any":
            ok = g in exp[1:]
            e = list(exp[1:])
        else:
            ok = type(g) is type(exp) and g == exp
            e = exp
        self.check(what, ok, op, kw, show(g), show(e))
        return g


class Needed(Exception):
    def __init__(self, op, kw, r):
        super().__init__(f"{op}: {json.dumps(r)[:300]}")
        self.op, self.kw, self.r = op, kw, r


def show(x):
    if isinstance(x, int) and not isinstance(x, bool) and abs(x) > 2 ** 63:
        return ("-" if x < 0 else "") + hex(abs(x))
    if isinstance(x, (list, tuple)):
        return [show(y) for y in x]
    if isinstance(x, dict):
        return {k: show(v) for k, v in x.items()}
    return x


# ---------------------------------------------------------------- conversions
def hexw(x, bits):
    return format(x % (1 << bits), "x")


def sgn(bits):
    def f(j):
        if j is None:
            return None
        x = int(j["x"], 16)
        return (x - (1 << bits) if x >> (bits - 1) else x, j["b"])
    return f


def uns(j):
    return None if j is None else (int(j["x"], 16), j.get("b"))


def strip0x(h):
    return h[2:] if isinstance(h, str) and h.startswith("0x") else h


def hexint(h):
    return int(strip0x(h), 16) if isinstance(h, str) and h not in (PANIC, REJECT) else h


def bitlen(x):
    return x.bit_length()


def sig(x, b, bits):
    return {"x": hexw(x, bits), "b": b}


def in_range(v, e):
    return -(1 << (e - 1)) + 1 <= v <= (1 << (e - 1))


def edges(rnd, bits, n):
    """unsigned values of a word, edge-heavy"""
    out = [0, 1, 2, 3, (1 << bits) - 1, (1 << bits) - 2, 1 << (bits - 1), (1 << (bits - 1)) - 1, (1 << (bits - 1)) + 1]
    while len(out) < n:
        k = rnd.choice([rnd.randrange(bits + 1), bits, bits // 2])
        v = rnd.getrandbits(k) if k else 0
        if rnd.random() < 0.3:
            v = (1 << k) + rnd.choice([-2, -1, 0, 1, 2])
        out.append(v % (1 << bits))
    return out[:max(n, 9)]


def signed_pairs(rnd, bits, n):
    """(value, bound) with |value| < 2^bound, bound < bits"""
    out = []
    for _ in range(n):
        b = rnd.choice([0, 1, 2, bits - 1, bits - 2, bits // 2, bits // 2 - 1, rnd.randrange(bits), rnd.randrange(bits)])
        m = (1 << b) - 1
        v = rnd.choice([m, -m, 0, 1 if m else 0, -1 if m else 0, m // 2, -(m // 2), rnd.randint(-m, m), rnd.randint(-m, m)])
        out.append((v, b))
    return out
