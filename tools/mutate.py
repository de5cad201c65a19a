#!/usr/bin/env python3
"""Mutation testing of the checks (development only; no check uses it).
  [MUT_KIND=trunc] mutate.py N SEED JOBS [file-substring]   tries N random one-token mutants of src/mpack; survivors go to /tmp/mutw/survivors.txt
Each mutant is compared by optimised assembly per configuration (equivalent ones are dropped), then the harnesses run at
a fraction of their quick size, the most relevant first, until one reports a violation."""
import sys, os, re, random, subprocess, shutil, glob, json, time
from concurrent.futures import ThreadPoolExecutor, as_completed
V = "/verif"; W = "/tmp/mutw"; sys.path.insert(0, V)
import run as R
from checks import CHECKS, CONFIGS
DIV = int(os.environ.get("MUT_DIV", "10"))
ORDER = {
 "common.c": "c21 c20 c24 c25 c10 c22 c11", "common.h": "bigw bigr c01 c03 c21 c22 c04", "writer.c": "bigw bigb c01 c07 c08 c09 c11 c24 c10 c12 c28 c30 c32 c02", "writer.h": "bigw c01 c24 c07 c02 c10",
 "reader.c": "bigr c05 c03 c23 c14 c12 c28 c25 c10 c24 c11 c02 c30 c32", "reader.h": "bigr c05 c03 c23 c24 c12 c10", "expect.c": "bigr c13 c14 c15 c22 c20 c02 c24", "expect.h": "bigr c13 c15 c14 c22 c02",
 "node.c": "bign c04 c06 c19 c16 c17 c18 c22 c25 c28 c11 c10 c31 c30 c32 c02 c12", "node.h": "bign c04 c16 c17 c18 c19 c06 c10 c31", "platform.c": "c01 c03 c20", "platform.h": "c01 c03 c04 c13"}
ALLH = ["c%02d" % i for i in range(1, 33) if i != 26]
RUNS = {}
for pid, c in CHECKS.items():
    for r in c["runs"]:
        if "harness" in r and "fuzz" not in r and "probes" not in r: RUNS.setdefault(r["harness"], []).append((r["config"], r["quick"]))
def key(f):
    b = os.path.basename(f).replace("mpack-", ""); return b
def mutants(f):
    src = open(f).read(); out = []
    blank = re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', lambda m: re.sub(r"[^\n]", " ", m.group()), src, flags=re.S)
    lines = blank.split("\n"); off = 0; cond = False
    for n, l in enumerate(lines):
        def add(a, b, new): out.append((f, n + 1, off + a, off + b, new))
        st = l.strip(); pre = st.startswith("#")
        if not pre and not re.match(r"case .*: case ", st) and st and "mpack_assert" not in st and "mpack_log" not in st and "MPACK_STATIC_ASSERT" not in st:
            for m in re.finditer(r"(?<![<>=!+\-*/&|^-])(<=|>=|==|!=|<|>)(?![<>=])", l):
                t = m.group()
                if t in "<>" and (l[m.end():m.end()+1] != " "): continue
                for new in {"<": ["<=", ">="], ">": [">=", "<="], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="]}[t]: add(m.start(), m.end(), new)
            for m in re.finditer(r"&&|\|\|", l): add(m.start(), m.end(), {"&&": "||", "||": "&&"}[m.group()])
            for m in re.finditer(r" ([+-]) ", l): add(m.start(1), m.end(1), {"+": "-", "-": "+"}[m.group(1)])
            for m in re.finditer(r"(?<=\s)([+\-|&]=)(?= )", l): add(m.start(), m.end(), "=")
            for m in re.finditer(r" - 1\b| \+ 1\b", l): add(m.start(), m.end(), "")
            for m in re.finditer(r"\b(0x[0-9a-fA-F]+|\d+)[uUlL]*\b", l):
                t = m.group(1)
                if re.search(r"[\w.]$", l[:m.start()]): continue
                v = int(t, 0) if not (len(t) > 1 and t[0] == "0" and t[1] != "x") else None
                if v is None: continue
                for d in (1, -1):
                    if v + d >= 0: add(m.start(1), m.end(1), hex(v + d) if t.startswith("0x") else str(v + d))
            for m in re.finditer(r"\bif \(", l): add(m.end(), m.end(), "!")if False else None
            for m in re.finditer(r"\bif \((.*)\)( \{)?$", l): add(m.start(1), m.end(1), "!(" + src[off + m.start(1):off + m.end(1)] + ")"); add(m.start(1), m.end(1), "0 && (" + src[off + m.start(1):off + m.end(1)] + ")")
            for m in re.finditer(r"\b(true|false)\b", l): add(m.start(), m.end(), {"true": "false", "false": "true"}[m.group()])
            for m in re.finditer(r"\(u?int(32|64)_t\)|\(size_t\)", l): add(m.start(), m.end(), "(uint16_t)" if "32" in m.group() or "size" in m.group() else "(uint32_t)")
            for m in re.finditer(r"\bmpack_error_(io|invalid|unsupported|type|too_big|memory|bug|data)\b", l): add(m.start(), m.end(), {"type": "mpack_error_data"}.get(m.group(1), "mpack_error_type"))
            if re.match(r"\s*([\w>.\-\[\]\*\(\) ]+ [+\-]?= .*|[a-z_][\w]*\(.*\)|(\+\+|--)?[\w>.\-]+(\+\+|--)?);\s*$", l) and not re.match(r"\s*(return|goto|break|continue|typedef|extern|MPACK_UNUSED|const|static|[a-z_0-9]+_t\*? [\w*]+ =|char|int|bool|float|double|unsigned|size_t|case|default)\b", l) and "(void)" not in l:
                m = re.match(r"(\s*)(.*);\s*$", l); add(m.start(2), m.end(2), "(void)0")
            if st == "break;": pass
            m = re.match(r"\s*return;\s*$", l)
            if m: i = l.index("return;"); add(i, i + 7, "(void)0;")
        off += len(l) + 1
    return src, out
def truncations(f): # sizes and counts lose their upper bits on entry to a function
    src = open(f).read(); out = []
    for m in re.finditer(r"(?m)^(?:[A-Za-z_][\w\* ]*?)\b(\w+)\(([^;{}()]*)\) \{$", src):
        line = src.count("\n", 0, m.end()) + 1
        for prm in m.group(2).split(","):
            q = re.match(r"\s*(size_t|uint32_t) (\w+)\s*$", prm)
            if not q: continue
            for mask in ["0xffffff", "0xffffffff" if q.group(1) == "size_t" else "0x7fffffff"]:
                out.append((f, line, m.end(), m.end(), " %s = (%s)(%s & %su);" % (q.group(2), q.group(1), q.group(2), mask)))
    return src, out
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
SRCS = sorted(glob.glob("/repo/src/mpack/*.c"))
CFGS = ["dbg", "rel", "size", "noext", "nodbl", "nofloat", "tiny", "m32", "track"]
def b_flags(b, cfg): return [x if x != "-g1" else "-g0" for x in b.flags(cfg)]
def defs(cfg, inc): return ["-include", V + "/lib/vtcfg.h"] + ["-D" + d for d in CONFIGS[cfg].get("defs", [])] + ["-I" + inc, "-I" + V + "/lib"]
def asm(src, cfg, inc):
    p = sh(["clang", "-std=gnu11", "-O1", "-g0", "-w", "-S", "-o", "-", "-fno-ident", "-fmacro-prefix-map=%s=/S" % inc] + (["-m32"] if CONFIGS[cfg].get("m32") else []) + defs(cfg, inc) + [src])
    return None if p.returncode else re.sub(r"(?m)^\s*\.file.*$", "", p.stdout)
ASM = {}
class B(R.Builder):
    def __init__(self, bdir, inc, cache=None, changed=None):
        super().__init__(bdir); self.pool = ThreadPoolExecutor(1); self.inc = inc; self.cache = cache; self.changed = changed
    def flags(self, cfg): return [x if x != "-g1" else "-g0" for x in super().flags(cfg)]
    def defs(self, cfg): return defs(cfg, self.inc)
    def obj(self, src, cfg, kind):
        if self.cache is not None:
            hdr = self.changed.endswith(".h")
            base = src.replace(self.inc, "/repo/src") if False else src
            if kind == "base" or (not hdr and os.path.basename(src) != self.changed): return self.cache.obj(src, cfg, kind)
            if kind == "lib": src = os.path.join(self.inc, "mpack", os.path.basename(src))
        return super().obj(src, cfg, kind)
BASE = None
def trial(m, idx):
    f, line, a, b, new = m; src = open(f).read(); mut = src[:a] + new + src[b:]; d = "%s/m%d" % (W, idx)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/src"); shutil.copytree("/repo/src/mpack", d + "/src/mpack"); open(d + "/src/mpack/" + os.path.basename(f), "w").write(mut)
    try:
        diff = []
        for c in CFGS:
            changed = False
            for s in (SRCS if f.endswith(".h") else [f]):
                x = asm(d + "/src/mpack/" + os.path.basename(s), c, d + "/src")
                if x is None: return "nobuild", ""
                if x != ASM[(s, c)]: changed = True; break
            if changed: diff.append(c)
        if f.endswith(".h") and not diff: diff = ["dbg", "rel"] # inline functions that only callers use
        if not diff: return "equivalent", ""
        bb = B(d + "/b", d + "/src", BASE, os.path.basename(f)); order = ORDER.get(key(f), "").split(); prim = len(order); order += [h for h in ALLH if h not in order]
        if os.environ.get("MUT_KIND") == "trunc": order = order[:prim] # survivors are looked at by hand
        for h in order:
            for cfg, q in RUNS.get(h, []):
                if h.startswith("big") and (os.environ.get("MUT_KIND") != "trunc" or cfg not in ("rel", "size")): continue
                if cfg not in diff and not (cfg in ("par", "pardbg", "dbgbig", "dbgnoext", "dbgnoflt", "work", "workdbg", "worksize", "noreall") and diff): continue
                if cfg in ("par", "pardbg", "dbgnoext", "dbgnoflt", "noreall", "worksize", "dbgbig"): continue
                if cfg in ("size", "noext", "m32", "tiny") and "dbg" in diff and "rel" in diff: continue # two configurations are enough for a first try
                try: binp = bb.harness(h, cfg)()
                except R.BuildError as e: return "nobuild", str(e)[-300:]
                env = dict(os.environ, VT_SCRATCH=d, VT_REPO="/repo")
                out = "%s/%s.json" % (d, h)
                if os.path.exists(out): os.unlink(out)
                p = sh([binp, "run", "--seed", "1", "--cases", str(max(q // (DIV if h in order[:prim] else 3 * DIV), 2000 if h.startswith("big") else 300)), "--workers", "3" if h.startswith("big") else "1", "--time", "90" if h.startswith("big") else "25" if h in order[:prim] else "8", "--shrink", "0", "--out", out, "--replay-out", d + "/r.json", "--cpu", "20"], env=env, cwd=d)
                os.unlink(binp)
                if not os.path.exists(out): return "killed", h + "/" + cfg + " (no result)"
                j = json.load(open(out))
                if j["violation"] or j["unrepro"]: return "killed", h + "/" + cfg
        return "SURVIVED", ",".join(diff)
    finally: shutil.rmtree(d, ignore_errors=True)
def show(m):
    f, line, a, b, new = m; s = open(f).read(); ls = s.rfind("\n", 0, a) + 1; le = s.find("\n", b)
    return "%s:%d  %s  ==>  %s" % (os.path.basename(f), line, s[ls:le].strip(), (s[ls:a] + "«" + new + "»" + s[b:le]).strip())
def main():
    global BASE
    n, seed, jobs = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]); sub = sys.argv[4] if len(sys.argv) > 4 else ""
    os.makedirs(W, exist_ok=True)
    fs = [f for f in sorted(glob.glob("/repo/src/mpack/*.[ch]")) if sub in f and os.path.basename(f) != "mpack.h"]
    ms = []
    for f in fs:
        if f.endswith("platform.h"): continue
        ms += (truncations if os.environ.get("MUT_KIND") == "trunc" else mutants)(f)[1]
    done = set(open(W + "/done.txt").read().split("\n")) if os.path.exists(W + "/done.txt") else set()
    random.Random(seed).shuffle(ms); ms = [m for m in ms if show(m) not in done][:n]; print(len(ms), "mutants", flush=True)
    BASE = B(W + "/base", "/repo/src"); BASE.pool = ThreadPoolExecutor(jobs)
    with ThreadPoolExecutor(jobs) as ex:
        for (s, c), x in zip([(s, c) for s in SRCS for c in CFGS], ex.map(lambda t: asm(t[0], t[1], "/repo/src"), [(s, c) for s in SRCS for c in CFGS])): ASM[(s, c)] = x
        cnt = {}; t0 = time.time()
        fut = {ex.submit(trial, m, i): m for i, m in enumerate(ms)}
        for k in as_completed(fut):
            m = fut[k]
            try: r, info = k.result()
            except Exception as e: r, info = "error", repr(e)[:300]
            cnt[r] = cnt.get(r, 0) + 1; open(W + "/done.txt", "a").write(show(m) + "\n"); open(W + "/log.txt", "a").write("%s %s | %s\n" % (r, info, show(m)))
            if r in ("SURVIVED", "error"): open(W + "/survivors.txt", "a").write("%s | %s\n" % (info, show(m)))
            if sum(cnt.values()) % 10 == 0: print(int(time.time() - t0), cnt, flush=True)
    print(cnt)
main()
