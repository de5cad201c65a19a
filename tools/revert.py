#!/usr/bin/env python3
"""Development only: for each recorded repair, undoes it in a scratch copy and runs the property's check, which must report it.
  revert.py [COMMIT...]"""
import json, os, re, subprocess, sys, shutil, time
W = "/tmp/revertwork"; V = "/verif"
def sh(c, cwd=None, env=None):
    p = subprocess.run(c, shell=isinstance(c, str), cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace"); return p.returncode, p.stdout
os.makedirs(W, exist_ok=True)
for e in json.load(open(V + "/known_findings.json"))["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", e)
    props, commit, what = m.group(1).split(","), m.group(2), m.group(3)
    if len(sys.argv) > 1 and not any(commit.startswith(a) for a in sys.argv[1:]): continue
    cr = W + "/" + commit; shutil.rmtree(cr, ignore_errors=True); os.makedirs(cr)
    sh("git -C /repo archive HEAD | tar x -C " + cr); rc, log = sh("git init -q . && git -C /repo show %s -- src | git apply -R -3 2>&1 || git -C /repo show %s -- src | patch -R -p1 -F3 --no-backup-if-mismatch" % (commit, commit), cwd=cr)
    if rc: print(commit, props, "CANNOT UNDO", log[-300:].replace("\n", " "), flush=True); shutil.rmtree(cr); continue
    for p in props:
        t = time.time(); rc, log = sh(["python3", V + "/run.py", p, "quick"], env=dict(os.environ, VERIF_REPO=cr, VERIF_SEED="1")); i = log.find("VIOLATION property")
        print(commit, p, "CAUGHT" if rc == 1 and i >= 0 else "MISSED rc=%d" % rc, "%.0fs" % (time.time() - t), what[:80], "|", (log[i:i + 250] if i >= 0 else log[-200:]).replace("\n", " "), flush=True)
    shutil.rmtree(cr)
