#!/usr/bin/env python3
"""Runs one check:  run.py <property> quick|thorough     (seed from VERIF_SEED)
   or replays one:  run.py replay <file>
Builds the library from /repo's working tree in several configurations, runs the
property's harness on each, writes evidence/<property>.json."""
import sys, os, json, subprocess, time, glob, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, CONFIGS

# nonnull-attribute and pointer-overflow are off: mpack computes NULL + 0 and passes NULL with a zero length to memcpy() by design
# ("count == 0 || p != NULL"), which C2y makes valid; it is no property of its users.
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

class BuildError(Exception): pass

def sh(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s\n%s" % (what, " ".join(cmd), p.stdout[-4000:]))
    return p.stdout

class Builder:
    def __init__(self, bdir):
        self.b = bdir
        os.makedirs(bdir, exist_ok=True)
        self.pool = ThreadPoolExecutor(8)
        self.futs = {}

    def flags(self, cfg):
        c = CONFIGS[cfg]
        f = ["-" + o for o in c.get("opt", ["O1"])] + ["-g1", "-w"]
        f += self.san(c)
        if c.get("m32"): f += ["-m32"]
        if c.get("fuzz"): f += ["-fsanitize=fuzzer-no-link"]
        return f

    def san(self, c):
        k = c.get("san", True)
        return ["-fsanitize=thread", "-fno-omit-frame-pointer"] if k == "thread" else SAN if k else []

    def defs(self, cfg):
        return ["-include", os.path.join(HERE, "lib/vtcfg.h")] + ["-D" + d for d in CONFIGS[cfg].get("defs", [])] + ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(HERE, "lib")]

    def obj(self, src, cfg, kind):
        """kind: 'lib' (mpack C source), 'cc' (C helper), 'cpp' (config-dependent C++), 'base' (independent C++)"""
        key = (src, self.keyof(cfg, kind), kind)
        if key in self.futs: return self.futs[key]
        out = os.path.join(self.b, "%s.%s.%s.o" % (os.path.basename(src).replace(".", "_"), self.keyof(cfg, kind), kind))
        f = self.flags(cfg)
        c = CONFIGS[cfg]
        if kind == "lib":
            if c.get("libcxx"): cmd = ["clang++", "-std=c++11", "-x", "c++"]
            else: cmd = ["clang", "-std=" + c.get("std", "gnu11")]
            cmd += f + self.defs(cfg) + c.get("libflags", [])
        elif kind == "cc": cmd = ["clang", "-std=gnu11"] + f + self.defs(cfg)
        elif kind == "cpp": cmd = ["clang++", "-std=c++17"] + f + self.defs(cfg)
        else:
            fl = [x for x in f if "fuzzer" not in x]
            cmd = ["clang++", "-std=c++17"] + fl + ["-I" + os.path.join(HERE, "lib")] + (["-DPBT_LIBFUZZER"] if c.get("fuzz") else [])
        cmd += ["-c", src, "-o", out]
        fut = self.pool.submit(lambda: (sh(cmd, "compile " + os.path.basename(src)), out)[1])
        self.futs[key] = fut
        return fut

    def keyof(self, cfg, kind):
        c = CONFIGS[cfg]
        if kind == "base": return "b" + ("32" if c.get("m32") else "64") + {True: "s", False: "n", "thread": "t"}[c.get("san", True)] + "".join(c.get("opt", ["O1"])) + ("f" if c.get("fuzz") else "")
        return cfg

    def harness(self, name, cfg):
        """Starts compilation; returns a function that links and yields the binary path."""
        objs = [self.obj(os.path.join(HERE, "harness", name + ".cpp"), cfg, "cpp")]
        for s in sorted(glob.glob(os.path.join(REPO, "src/mpack/*.c"))): objs.append(self.obj(s, cfg, "lib"))
        objs.append(self.obj(os.path.join(HERE, "lib/drv.cpp"), cfg, "cpp"))
        objs.append(self.obj(os.path.join(HERE, "lib/cgen.c"), cfg, "cc"))
        for s in ("pbt", "model", "vt"): objs.append(self.obj(os.path.join(HERE, "lib", s + ".cpp"), cfg, "base"))
        out = os.path.join(self.b, name + "." + cfg)
        c = CONFIGS[cfg]
        def fin():
            o = [f.result() for f in objs]
            cmd = ["clang++"] + (["-m32"] if c.get("m32") else []) + self.san(c)[:2] + (["-fsanitize=fuzzer"] if c.get("fuzz") else []) + o + ["-o", out] + c.get("ldflags", [])
            sh(cmd, "link " + name)
            return out
        return fin

class ProbeError(Exception): pass

def build_probes(b, setname):
    """Compiles the behaviour probe in every configuration of the set; returns the value of VT_PROBES."""
    sys.path.insert(0, os.path.join(HERE, "probe"))
    from configs import SETS
    srcs = sorted(glob.glob(os.path.join(REPO, "src/mpack/*.c"))); probe = os.path.join(HERE, "probe/probe.c")
    pdir = os.path.join(b.b, "probes." + setname); os.makedirs(pdir, exist_ok=True)
    am = None
    if any(f[0] == "amalg" for f in SETS[setname].values()):
        am = os.path.join(pdir, "amalg"); os.makedirs(am)
        for x in ("src", "tools", "test", "LICENSE", "AUTHORS.md", "README.md", "CHANGELOG.md"):
            y = os.path.join(REPO, x)
            if os.path.isdir(y): shutil.copytree(y, os.path.join(am, x), symlinks=True)
            elif os.path.exists(y): shutil.copy(y, os.path.join(am, x))
        p = subprocess.run(["bash", "tools/amalgamate.sh"], cwd=am, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0: raise ProbeError("tools/amalgamate.sh failed:\n" + p.stdout[-3000:])
        am = os.path.join(am, ".build/amalgamation")
    def one(name, f):
        out = os.path.join(pdir, name)
        if f[0] == "amalg": cmd = f[1:] + ["-w", "-I" + os.path.join(am, "src"), probe, os.path.join(am, "src/mpack/mpack.c"), "-o", out]
        else: cmd = f + ["-w", "-I" + os.path.join(REPO, "src"), probe] + srcs + ["-o", out]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0: raise ProbeError("the library does not build in configuration \"%s\":\n%s\n%s" % (name, " ".join(cmd), p.stdout[-3000:]))
        return name + ":" + out
    futs = [b.pool.submit(one, n, f) for n, f in SETS[setname].items()]
    return lambda: ",".join(f.result() for f in futs)

def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if sys.argv[1:] == ["selfcheck"]: # setup: nothing is kept; make sure the tools are here
        for t in ("clang", "clang++", "gcc"): sh([t, "--version"], t)
        print("ok"); return 0
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[pid]
    t0 = time.time()
    bdir = os.path.join(HERE, "build", "%s.%s.%d" % (pid, tier, os.getpid()))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    workers = int(os.environ.get("VERIF_WORKERS", "8"))
    try:
        return run_check(pid, tier, seed, spec, t0, bdir, rdir, workers)
    except BuildError as e:
        print(str(e)); print("ERROR: build failed"); return 2
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(bdir, ignore_errors=True)

def run_check(pid, tier, seed, spec, t0, bdir, rdir, workers):
    b = Builder(bdir)
    runs = []
    for r in spec["runs"]:
        if tier not in r.get("tiers", ("quick", "thorough")): continue
        if "python" in r:
            runs.append((r, r["python"])); continue
        if "probes" in r: r = dict(r, probefut=build_probes(b, r["probes"]))
        runs.append((r, b.harness(r["harness"], r["config"])))
    bins = []
    for r, f in runs:
        bins.append((r, f if "python" in r else f()))
    tb = time.time() - t0
    ev = dict(evaluations=0, distinct_nontrivial=0, rule=spec["rule"], samples=[], build_s=round(tb, 2), runs=[], labels={})
    viol = []; known = {}; errors = []
    for r, binp in bins:
        cfg = r["config"]
        out = os.path.join(bdir, r["harness"] + "." + cfg + ".json")
        rp = os.path.join(rdir, "%s-%s-%s-seed%d.json" % (pid, r["harness"], cfg, seed))
        if os.path.exists(rp): os.unlink(rp)
        cases = r.get(tier) or r["quick"] * r.get("mult", 25)
        cap = r.get("cap", 60 if tier == "quick" else 500)
        env = dict(os.environ); env["VT_SCRATCH"] = bdir; env["VT_REPO"] = REPO
        if CONFIGS[cfg].get("san") == "thread": env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
        if "probefut" in r:
            try: env["VT_PROBES"] = r["probefut"]()
            except ProbeError as e:
                open(rp, "w").write(json.dumps(dict(property=pid, harness=r["harness"], config=cfg, probes=r["probes"], build_error=str(e)), indent=0) + "\n")
                viol.append((rp, str(e))); continue
        if "fuzz" in r:
            fuzz_run(pid, r, b, binp, bdir, rdir, seed, env, workers, ev, viol, errors)
            continue
        res = None
        for attempt in range(2):
            cmd = [binp, "run", "--seed", str(seed + 1000003 * attempt), "--cases", str(cases), "--workers", str(r.get("workers", workers)), "--time", str(cap), "--out", out, "--replay-out", rp, "--cpu", str(r.get("cpu", 20))]
            if os.path.exists(out): os.unlink(out)
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, cwd=bdir)
            if p.stdout: sys.stdout.write(p.stdout[-6000:])
            if not os.path.exists(out) and "FATAL: ThreadSanitizer: " in p.stdout and CONFIGS[cfg].get("san") == "thread":
                print("NOTE: ThreadSanitizer cannot run here; %s/%s skipped" % (r["harness"], cfg)); break
            if not os.path.exists(out):
                errors.append("%s/%s: harness exit %d" % (r["harness"], cfg, p.returncode)); break
            res = json.load(open(out))
            if not res["unrepro"]: break
        if res is None: continue
        ev["evaluations"] += res["evaluations"]; ev["distinct_nontrivial"] += res["distinct"]
        ev["runs"].append(dict(harness=r["harness"], config=cfg, cases=res["evaluations"], nontrivial=res["nontrivial"], distinct=res["distinct"], enumerated=res["exhaustive"], time_capped=res["time_capped"], wall_s=round(res["wall"], 2)))
        for k, v in res["labels"].items(): ev["labels"][k] = ev["labels"].get(k, 0) + v
        for s in res["samples"][: 3 if len(ev["samples"]) < 6 else 1]: ev["samples"].append(dict(harness=r["harness"], config=cfg, case=s["case"], text=s["text"]))
        for k, v in res["known"].items(): known[k] = known.get(k, 0) + v
        if res["unrepro"]: errors.append("%s/%s: a failure did not reproduce: %s" % (r["harness"], cfg, res.get("unreproduced")))
        if res["violation"]:
            viol.append((rp, res.get("message", "")))
            try:
                d = json.load(open(rp)); d["property"] = pid; d["config"] = cfg; d["harness"] = r["harness"]
                if "probes" in r: d["probes"] = r["probes"]
                ch = d.pop("choices", None)
                if ch is not None: d["choices"] = ch
                json.dump(d, open(rp, "w"), indent=0)
                txt = open(rp).read()
                if ch is not None: # keep the one-line form the harness reads
                    d.pop("choices"); txt = json.dumps(d, indent=0)[:-2] + ',\n"choices": [' + ",".join(map(str, ch)) + "]\n}\n"; open(rp, "w").write(txt)
                elif "history" in d:
                    h = d.pop("history"); open(rp, "w").write(json.dumps(d, indent=0)[:-2] + ',\n"history": [%s]\n}\n' % ", ".join(map(str, h)))
            except Exception as e: print("note:", e)
            if not os.environ.get("VERIF_ALL"): break
    kf = {}
    kp = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kp):
        for k in json.load(open(kp)).get("known", []): kf[k["id"]] = k
    for k in known:
        if k in kf and kf[k]["property"] == pid: print("KNOWN-FINDING: property=%s %s" % (pid, kf[k]["what_fails"]))
        else: viol.append(("-", "unlisted known finding %s" % k))
    evf = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=ev, assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(evf, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for e in errors: print("ERROR:", e)
    if viol:
        for rp, m in viol:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  " + m.replace("\n", " ")[:600])
        return 1
    if errors: return 2
    print("OK property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d wall=%.1fs" % (pid, tier, seed, ev["evaluations"], ev["distinct_nontrivial"], time.time() - t0))
    return 0

def fuzz_run(pid, r, b, binp, bdir, rdir, seed, env, workers, ev, viol, errors):
    """Coverage-guided search (libFuzzer) over the choice bytes of the same harness; a crash is confirmed with the plain build."""
    import re
    plain = CONFIGS[r["config"]]["of"]; fd = os.path.join(bdir, "fuzz.%s.%s" % (r["harness"], r["config"])); os.makedirs(os.path.join(fd, "corpus")); t0 = time.time()
    cmd = [binp, "corpus", "-max_total_time=%d" % r["fuzz"], "-seed=%d" % seed, "-max_len=%d" % r.get("max_len", 3000), "-jobs=%d" % workers, "-workers=%d" % workers, "-timeout=25", "-rss_limit_mb=3000", "-print_final_stats=1", "-use_value_profile=1"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, cwd=fd)
    logs = "".join(open(f, errors="replace").read() for f in glob.glob(os.path.join(fd, "fuzz-*.log")))
    st = re.findall(r"PBT runs=(\d+) nontrivial=(\d+) distinct=(\d+)", logs); n = sum(int(x[0]) for x in st); corpus = len(os.listdir(os.path.join(fd, "corpus")))
    if not n and not glob.glob(os.path.join(fd, "crash-*")): errors.append("%s/%s: the fuzzer did not run: %s" % (r["harness"], r["config"], (p.stdout + logs)[-600:])); return
    ev["evaluations"] += n; ev["distinct_nontrivial"] += max([int(x[2]) for x in st] or [0])
    ev["runs"].append(dict(harness=r["harness"], config=r["config"], engine="libFuzzer", cases=n, nontrivial=sum(int(x[1]) for x in st), distinct=max([int(x[2]) for x in st] or [0]), corpus=corpus, wall_s=round(time.time() - t0, 2)))
    print("%s/%s: libFuzzer %d runs, corpus %d" % (r["harness"], r["config"], n, corpus))
    check = b.harness(r["harness"], plain)() if glob.glob(os.path.join(fd, "crash-*")) else None
    for a in sorted(glob.glob(os.path.join(fd, "crash-*"))):
        good = [subprocess.run([check, "bytes", a], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=bdir).returncode for _ in range(3)]
        if not all(good): errors.append("%s/%s: a crash did not reproduce in the plain build" % (r["harness"], plain)); continue
        small = os.path.join(fd, "small"); subprocess.run([binp, "-minimize_crash=1", "-max_total_time=30", "-exact_artifact_path=" + small, a], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=fd)
        if not os.path.exists(small) or subprocess.run([check, "bytes", small], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=bdir).returncode == 0: small = a
        q = subprocess.run([check, "bytes", small], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, cwd=bdir)
        m = re.search(r"FAIL: (.*)|(SUMMARY: .*)|(.*runtime error: .*)", q.stdout); rp = os.path.join(rdir, "%s-%s-%s-seed%d.json" % (pid, r["harness"], r["config"], seed))
        json.dump(dict(property=pid, harness=r["harness"], config=plain, bytes=open(small, "rb").read().hex(), message=m.group(0) if m else "", log=q.stdout[-20000:]), open(rp, "w"), indent=0)
        viol.append((rp, m.group(0) if m else "crash")); return

def replay(path):
    d = json.load(open(path))
    bdir = os.path.join(HERE, "build", "replay.%d" % os.getpid())
    try:
        b = Builder(bdir)
        binp = b.harness(d["harness"], d["config"])()
        extra = {}
        if "probes" in d:
            try: extra["VT_PROBES"] = build_probes(b, d["probes"])()
            except ProbeError as e: print(e); print("VIOLATION property=%s replay=%s" % (d.get("property"), path)); return 1
        env = dict(os.environ); env["VT_SCRATCH"] = bdir; env["VT_REPO"] = REPO; env.update(extra)
        cmd = [binp, "replay", os.path.abspath(path)]
        if "bytes" in d: raw = os.path.join(bdir, "input"); open(raw, "wb").write(bytes.fromhex(d["bytes"])); cmd = [binp, "bytes", raw]
        p = subprocess.run(cmd, env=env, cwd=bdir)
        print("replay exit", p.returncode)
        if p.returncode != 0:
            print("VIOLATION property=%s replay=%s" % (d.get("property"), path)); return 1
        return 0
    except BuildError as e:
        print(e); return 2
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

if __name__ == "__main__": sys.exit(main())
