#!/usr/bin/env python3
"""mkseed.py DEF.json...: makes seeded/<id>/ from a definition {id, property, needs, what_it_breaks, edits: [[file, old, new]...], demo: python text},
after confirming in /repo that the change builds, passes the stable tests, and that the demo tells the two trees apart.
The demonstration runs the real code through a small server (copied beside it); it contains its own expectations."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the code behaves as the property says; anything else: it does not
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf -- "$w"' EXIT
export PYTHONDONTWRITEBYTECODE=1
python3 "$here/demo.py" "$here/lib" "$PWD" "$w"
'''
PRE = '''import sys
lib, repo, work = sys.argv[1:4]
sys.path[:0] = [lib + "/tool", lib + "/vc"]
from harness import *
exe, dropped = build(work, repo=repo)
srv = Server(exe)
def call(op, **kw):
    return outcome(srv.call(op, **kw))
def expect(ok, what):
    if not ok:
        print("property does not hold:", what)
        sys.exit(1)
'''


def run(c, **kw):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(d):
    out = f"{ROOT}/seeded/{d['id']}"
    assert not run(["git", "-C", "/repo", "status", "--porcelain"]).stdout.strip()
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out + "/lib/vc")
    shutil.copytree(ROOT + "/harness", out + "/lib/harness")
    shutil.copytree(ROOT + "/shim", out + "/lib/shim")
    os.makedirs(out + "/lib/tool")
    shutil.copy(ROOT + "/tool/gencrate.py", out + "/lib/tool/")
    for f in ("harness.py", "suites.py", "suites_zk.py", "suites_ent.py"):
        shutil.copy(f"{ROOT}/vc/{f}", out + "/lib/vc/")
    open(out + "/demo.py", "w").write(PRE + d["demo"])
    open(out + "/demo.sh", "w").write(DEMO)
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({k: d[k] for k in ("property", "needs", "what_it_breaks")}, open(out + "/meta.json", "w"), indent=1)
    try:
        r0 = run(["bash", out + "/demo.sh"], cwd="/repo")
        for f, a, b in d["edits"]:
            t = open("/repo/" + f).read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open("/repo/" + f, "w").write(t.replace(a, b))
        diff = run(["git", "-C", "/repo", "diff"]).stdout
        open(out + "/patch.diff", "w").write(diff)
        b = run(["bash", "/opt/vp/build.sh"])
        t = run(["bash", "/opt/vp/test.sh", "/tmp/seed-tests.json"])
        r1 = run(["bash", out + "/demo.sh"], cwd="/repo")
    finally:
        run(["git", "-C", "/repo", "checkout", "--", "."])
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    tests = json.load(open("/tmp/seed-tests.json")) if b.returncode == 0 else {}
    passed = set(tests.get("passed", tests.get("pass", [])))
    ok = r0.returncode == 0 and r1.returncode == 1 and b.returncode == 0 and base <= passed
    print(d["id"], "OK" if ok else "BAD", "build", b.returncode, "tests", base <= passed, "demo", r0.returncode, r1.returncode, r1.stdout.strip()[-200:])
    if not ok:
        print(b.stdout[-1500:] if b.returncode else "", r0.stdout[-1500:], list(tests)[:5], str(tests)[:300])
        shutil.move(out, "/tmp/badseed-" + d["id"]) if not os.path.exists("/tmp/badseed-" + d["id"]) else shutil.rmtree(out)
    return ok


if __name__ == "__main__":
    for f in sys.argv[1:]:
        g = {}
        exec(open(f).read(), g)
        for d in g["SEEDS"]:
            if not os.path.exists(f"{ROOT}/seeded/{d['id']}") or os.environ.get("FORCE"):
                make(d)
