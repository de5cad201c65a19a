#!/usr/bin/env python3
"""Planted-bug helper (development only; no check uses it).
  seed.py make SPEC.py...   writes /verif/seeded/<id>/ from a spec and validates it
  seed.py check ID...       runs the property's check against a scratch copy with the patch applied
Work happens in /tmp/seedwork."""
import sys, os, json, subprocess, shutil, runpy, re, time
W = "/tmp/seedwork"; SR = W + "/repo"; VP = W + "/vp"; V = "/verif"
BASE = "8f7090e"
def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
    return p.returncode, p.stdout
def setup():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(SR): sh("cp -a /repo " + SR)
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", cwd=SR)
    if not os.path.exists(VP):
        shutil.copytree("/opt/vp", VP)
        sh("sed -i 's#/repo\\b#%s#g; s#/opt/vp#%s#g' %s/*.sh %s/mpack/*.py %s/results.py" % (SR, VP, VP, VP, VP))
def tests():
    out = W + "/t.json"
    if os.path.exists(out): os.unlink(out)
    rc, log = sh("bash %s/test.sh %s" % (VP, out))
    if not os.path.exists(out): return False, log[-2000:]
    d = json.load(open(out)); base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    miss = base - set(d["passed"])
    return not miss, "missing %d: %s" % (len(miss), sorted(miss)[:6])
def demo(sid):
    d = W + "/demo." + sid
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(V + "/seeded/" + sid, d, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    rc, log = sh("bash %s/demo.sh" % d, cwd=SR, timeout=300); shutil.rmtree(d); return rc, log
def make(spec, full=True):
    s = runpy.run_path(spec); sid = os.path.basename(spec)[:-3]; setup(); d = V + "/seeded/" + sid
    sh("git checkout -q -f .", cwd=SR)
    for f, old, new in s["edits"]:
        p = os.path.join(SR, f); t = open(p).read()
        n = t.count(old)
        if n != 1: print(sid, "EDIT: %d matches in %s for: %s" % (n, f, old[:80])); return False
        open(p, "w").write(t.replace(old, new))
    rc, diff = sh("git diff", cwd=SR); sh("git checkout -q -f .", cwd=SR)
    os.makedirs(d, exist_ok=True); open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.c", "w").write(s["demo"])
    flags = s.get("flags", ""); cc = s.get("cc", "gcc -std=gnu11"); ext = s.get("run", '"$t/demo"')
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds in this demonstration\nd=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\n%s -O1 -g -w -DMPACK_EXTENSIONS=1 %s -Isrc src/mpack/*.c "$d/demo.c" -o "$t/demo" -lm || exit 3\ncd "$t" && timeout 100 %s\n' % (cc, flags, ext))
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    # only original lines may be changed
    for line in diff.splitlines():
        if line.startswith("-") and not line.startswith("---"): pass
    rc, log = sh("git log --format=%%h %s..HEAD -- src" % BASE, cwd="/repo")
    for f in {e[0] for e in s["edits"]}:
        rc, base = sh(["git", "show", "%s:%s" % (BASE, f)], cwd="/repo")
        for line in diff.splitlines():
            if line.startswith("-") and not line.startswith("---") and line[1:].strip() and line[1:] not in base.splitlines() and len({e[0] for e in s["edits"]}) == 1: print(sid, "NOTE line is not original:", line)
    return validate(sid, full)
def apply(sid):
    sh("git checkout -q -f .", cwd=SR); rc, log = sh("git apply %s/seeded/%s/patch.diff" % (V, sid), cwd=SR)
    if rc: print(sid, "APPLY", log)
    return rc == 0
def validate(sid, full=True):
    setup(); sh("git checkout -q -f .", cwd=SR)
    rc, log = demo(sid)
    if rc != 0: print(sid, "DEMO fails on the unchanged tree:", rc, log[-1500:]); return False
    if not apply(sid): return False
    rc, log = demo(sid); ok = True
    if rc == 0 or rc == 3: print(sid, "DEMO does not fail with the patch", rc, log[-600:]); ok = False
    if ok and full:
        t = time.time(); good, why = tests()
        if not good: print(sid, "TESTS fail:", why); ok = False
    sh("git checkout -q -f .", cwd=SR)
    print(sid, "VALID" if ok else "INVALID", flush=True); return ok
def check(sid):
    os.makedirs(W, exist_ok=True); m = json.load(open(V + "/seeded/%s/meta.json" % sid))
    cr = W + "/check." + sid; shutil.rmtree(cr, ignore_errors=True); os.makedirs(cr)
    sh("git -C /repo archive HEAD | tar x -C " + cr); rc, log = sh("git init -q . && git apply %s/seeded/%s/patch.diff" % (V, sid), cwd=cr)
    if rc: print(sid, "APPLY", log); return
    props = sys.argv[3:] if sys.argv[1] == "check1" else [m["property"]]
    for p in props:
        t = time.time(); rc, log = sh(["python3", V + "/run.py", p, "quick"], env=dict(os.environ, VERIF_REPO=cr, VERIF_SEED="1"))
        v = [l for l in log.splitlines() if "VIOLATION" in l]; i = log.find("VIOLATION property")
        print(sid, p, "CAUGHT" if rc == 1 and v else "MISSED rc=%d" % rc, "%.0fs" % (time.time() - t), log[i:i + 400].replace("\n", " ") if i >= 0 else log[-300:], flush=True)
    shutil.rmtree(cr)
if __name__ == "__main__":
    a = sys.argv[1]
    if a == "make":
        for s in sys.argv[2:]: make(s)
    elif a == "quickmake":
        for s in sys.argv[2:]: make(s, False)
    elif a == "validate":
        for s in sys.argv[2:]: validate(s)
    elif a == "check":
        for s in sys.argv[2:]: check(s)
    elif a == "check1": check(sys.argv[2])
