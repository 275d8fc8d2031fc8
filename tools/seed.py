#!/usr/bin/env python3
"""Planted-bug workshop.  tools/seed.py gen|verify|check|all ID...   (definitions: seeddefs.py)

gen     write seeded/ID/ (patch.diff, demo.sh, demo.py + recorder copies, meta.json)
verify  in a scratch copy: patch applies, builds, stable tests pass, demo 0 -> nonzero
check   run the property's quick check on a patched scratch copy (PPK_REPO)
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
BASE = "/tmp/sr"   # pristine compiled copy of /repo

DEMOSH = """#!/bin/bash
# exit 0: behaviour as specified; nonzero: broken.  cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
PPK_REPO="$PWD" exec python3-vt "$here/demo.py"
"""
HEAD = '''"""Demonstration: %s"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
from workloads import *
ctx = Ctx("DEMO", demo=True)
bad = []
def expect(ok, msg):
    print(("ok   " if ok else "FAIL ") + msg)
    if not ok: bad.append(msg)
'''
TAIL = '''
import shutil
shutil.rmtree(ctx.tmp, ignore_errors=True)
sys.stdout.flush()
os._exit(1 if bad or ctx.viol else 0)
'''


def defs():
    import seeddefs
    return seeddefs.SEEDS


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def gen(i):
    d = defs()[i]; out = os.path.join(V, "seeded", i)
    t = "/tmp/gen_" + i
    shutil.rmtree(t, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", t])
    for f, old, new in d["edits"]:
        p = os.path.join(t, f); s = open(p).read()
        nth = None
        if isinstance(old, tuple): old, nth = old
        cnt = s.count(old)
        if nth is None:
            assert cnt == 1, (i, f, cnt, old)
            s = s.replace(old, new)
        else:
            assert cnt > nth, (i, f, cnt)
            pos = -1
            for _ in range(nth + 1): pos = s.index(old, pos + 1)
            s = s[:pos] + new + s[pos + len(old):]
        open(p, "w").write(s)
    diff = subprocess.check_output(["git", "-C", t, "diff"], text=True)
    shutil.rmtree(t)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.sh"), "w").write(DEMOSH); os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.py"), "w").write(HEAD % d["what"].replace('"', "'") + d["demo"] + TAIL)
    os.makedirs(os.path.join(out, "lib")); os.makedirs(os.path.join(out, "harness"))
    for f in ("vlib.py", "states.py", "workloads.py"): shutil.copy(os.path.join(V, "lib", f), os.path.join(out, "lib", f))
    for f in ["hx.cpp"] + d.get("harness", []): shutil.copy(os.path.join(V, "harness", f), os.path.join(out, "harness", f))
    for f in d.get("lib", []): shutil.copy(os.path.join(V, "lib", f), os.path.join(out, "lib", f))
    json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["what"]), open(os.path.join(out, "meta.json"), "w"), indent=1)


def demo(tree, i):
    """run the demo from a moved folder with /repo bound to tree"""
    t = "/tmp/demo_%s" % i
    shutil.rmtree(t, ignore_errors=True); shutil.copytree(os.path.join(V, "seeded", i), t)
    for f in ("patch.diff", "meta.json"): os.remove(os.path.join(t, f))
    r = sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && env -u VERIF_CACHE timeout 300 bash %s/demo.sh'" % (tree, t))
    shutil.rmtree(t, ignore_errors=True)
    return r


def patched(i, build=True):
    t = "/tmp/bug_" + i
    shutil.rmtree(t, ignore_errors=True)
    if build: subprocess.check_call(["cp", "-a", BASE, t])
    else: subprocess.check_call(["git", "clone", "-q", "/repo", t])
    r = sh("git -C %s apply %s" % (t, os.path.join(V, "seeded", i, "patch.diff")))
    assert r.returncode == 0, r.stdout
    return t


def verify(i):
    ok = True
    r = demo(BASE, i)
    if r.returncode != 0: print(i, "DEMO FAILS ON PRISTINE", r.returncode, r.stdout[-1500:]); ok = False
    t = patched(i)
    r = demo(t, i)
    if r.returncode == 0: print(i, "DEMO PASSES WITH PATCH", r.stdout[-1500:]); ok = False
    else: print(i, "demo rc with patch", r.returncode, r.stdout[-300:].strip())
    r = sh("unshare -Urm bash -c 'mount --bind %s /repo && bash /opt/vp/test.sh %s.json'" % (t, t))
    try:
        res = json.load(open(t + ".json")); os.remove(t + ".json")
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [x for x in stable if x not in res["passed"]]
        if miss: print(i, "TESTS FAIL", miss, r.stdout[-800:]); ok = False
    except Exception as e:
        print(i, "NO TEST RESULT", e, r.stdout[-1500:]); ok = False
    shutil.rmtree(t, ignore_errors=True)
    print(i, "VERIFIED" if ok else "NOT OK", flush=True)
    return ok


def check(i, props=None, tier="quick"):
    t = patched(i, build=False)
    for p in props or [defs()[i]["property"]]:
        e = dict(os.environ, PPK_REPO=t, VERIF_EVIDENCE="/tmp/ev_" + i); e.pop("VERIF_CACHE", None); e.setdefault("VERIF_SEED", "1")
        r = subprocess.run(["python3-vt", os.path.join(V, "checks", p + ".py"), tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
        keys = [l.strip() for l in r.stdout.splitlines() if l.startswith("   key=")]
        print(i, p, "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, r.stdout.splitlines()[-1][:160] if r.stdout else "", keys[:2], flush=True)
        if r.returncode not in (0, 1): print(r.stdout[-1500:])
    shutil.rmtree("/tmp/ev_" + i, ignore_errors=True)
    shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    cmd = sys.argv[1]
    ids = [a for a in sys.argv[2:] if not a.startswith("P") or len(a) != 3] or list(defs())
    props = [a for a in sys.argv[2:] if a.startswith("P") and len(a) == 3] or None
    for i in ids:
        if cmd in ("gen", "all"): gen(i)
        if cmd in ("verify", "all"): verify(i)
        if cmd in ("check", "all"): check(i, props)
