#include "pbt.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>

namespace pbt {

static const size_t REC_CAP = 1 << 18;
static const size_t MSG_CAP = 8192;
static const size_t NLABEL = 256;
static const size_t DIST = 1 << 21;

struct WorkerShm {
    uint64_t cur;            // current case index
    uint64_t nrec;
    uint64_t evals, nontriv, distinct;
    uint64_t first_nt[4];    // first nontrivial indices
    uint64_t nfirst;
    int done, failed;
    char msg[MSG_CAP];
    uint64_t rec[REC_CAP];
};
struct LabelShm { uint64_t key; char name[56]; uint64_t count; };
struct Global {
    LabelShm labels[NLABEL];
    LabelShm known[16];
    uint64_t dist[DIST];
};
static Global* G;
static WorkerShm* W;         // this process's slot

bool verbose;
static bool replaying;
static const uint64_t* rp; static size_t rpn, rpos;
static uint64_t rs;
static uint64_t cur_index;
static bool cur_nt; static uint64_t cur_hash;
static std::string notes;
static uint64_t exh_total;
static const uint8_t* fz; static size_t fzn, fzpos; static bool fuzzing;

static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t mulhi(uint64_t a, uint64_t b) {
    uint64_t al = (uint32_t)a, ah = a >> 32, bl = (uint32_t)b, bh = b >> 32;
    uint64_t m = ah * bl + ((al * bl) >> 32), k = al * bh + (uint32_t)m;
    return ah * bh + (m >> 32) + (k >> 32);
}
static void record(uint64_t v) { if (W && W->nrec < REC_CAP) W->rec[W->nrec++] = v; }

thread_local DrawScript* draw_script;
uint64_t draw(uint64_t n) {
    uint64_t v;
    if (n == 1) return 0;
    if (draw_script) {
        DrawScript* s = draw_script; uint64_t x = s->n ? s->d[s->pos % s->n] : 0; size_t round = s->n ? s->pos / s->n : s->pos; s->pos++;
        if (round) { x += round * 0x9e3779b97f4a7c15ull; x = splitmix(x); }
        return n ? x % n : x;
    }
    if (replaying) {
        v = rpos < rpn ? rp[rpos] : 0;
        rpos++;
        if (n) v %= n;
    } else if (fuzzing) {
        int w = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= 0x100000000ull ? 4 : 8;
        v = 0;
        for (int i = 0; i < w; i++) v = v << 8 | (fzpos < fzn ? fz[fzpos++] : 0);
        if (n) v %= n;
    } else {
        v = splitmix(rs);
        if (n) v = mulhi(v, n);
    }
    record(v);
    return v;
}
uint64_t case_index() { return cur_index; }
bool exhausted() { return replaying ? rpos >= rpn : fuzzing ? fzpos >= fzn : false; }

int64_t enumerated() {
    uint64_t v;
    if (replaying) { v = rpos < rpn ? rp[rpos] : 0; rpos++; if (v > exh_total) v = 0; }
    else if (fuzzing) v = 0;
    else v = cur_index < exh_total ? cur_index + 1 : 0;
    record(v);
    return (int64_t)v - 1;
}

[[noreturn]] void fail(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    static char buf[MSG_CAP];
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (W) { strncpy(W->msg, buf, MSG_CAP - 1); W->failed = 1; }
    if (fuzzing) { fprintf(stderr, "FAIL: %s\n", buf); abort(); }
    if (verbose) { fprintf(stderr, "FAIL: %s\n", buf); fputs(notes.c_str(), stdout); fflush(stdout); }
    _exit(77);
}
void note(const char* fmt, ...) {
    if (!verbose || draw_script) return;
    va_list ap; va_start(ap, fmt);
    char buf[4096];
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (notes.size() < 200000) { notes += buf; notes += '\n'; }
}
static void bump(LabelShm* t, size_t cap, const char* l) {
    uint64_t k = hash_bytes(l, strlen(l)) | 1;
    for (size_t i = 0; i < cap; i++) {
        LabelShm* e = &t[(k + i) % cap];
        uint64_t z = 0;
        if (e->key == k) { __sync_add_and_fetch(&e->count, 1); return; }
        if (e->key == 0) {
            if (__sync_bool_compare_and_swap(&e->key, z, k)) {
                strncpy(e->name, l, sizeof e->name - 1);
                __sync_add_and_fetch(&e->count, 1); return;
            }
            if (e->key == k) { __sync_add_and_fetch(&e->count, 1); return; }
        }
    }
}
void label(const char* l) { if (draw_script) return; if (G && !replaying) bump(G->labels, NLABEL, l); }
void known_finding(const char* id) { if (draw_script) return; if (G) bump(G->known, 16, id); if (verbose) note("KNOWN-FINDING %s", id); }
void nontrivial(uint64_t h) { if (draw_script) return; cur_nt = true; cur_hash = hash_mix(cur_hash, h); }
std::string hex(const void* p, size_t n, size_t max) {
    std::string r; char b[4];
    for (size_t i = 0; i < n && i < max; i++) { snprintf(b, sizeof b, "%02x", ((const unsigned char*)p)[i]); r += b; }
    if (n > max) { r += "...("; r += std::to_string(n); r += ")"; }
    return r;
}

static void on_prof(int) {
    static const char m[] = "case exceeded its CPU limit (hang)";
    if (W) { memcpy(W->msg, m, sizeof m); W->failed = 1; }
    _exit(78);
}
static int cpu_limit = 20;
static void arm() { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = cpu_limit; setitimer(ITIMER_PROF, &t, NULL); }

static uint64_t seed0;
static void run_one(uint64_t idx) {
    cur_index = idx; cur_nt = false; cur_hash = 0; notes.clear();
    uint64_t s = seed0 * 0x9e3779b97f4a7c15ull; splitmix(s); s ^= idx * 0xd1342543de82ef95ull; splitmix(s); rs = s;
    if (W) { W->nrec = 0; W->cur = idx; }
    arm();
    if (pbt_case_begin) pbt_case_begin();
    property_case();
    if (pbt_case_end) pbt_case_end();
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// run a replay of choices in a forked child. Returns exit status (0 ok).
struct Out { int status; std::string msg, text, err; };
static Out child(const std::vector<uint64_t>& ch, bool verb, uint64_t gen_index, bool use_gen, WorkerShm* slot) {
    Out o;
    slot->failed = 0; slot->msg[0] = 0; slot->nrec = 0;
    FILE* fo = verb ? tmpfile() : NULL; FILE* fe = tmpfile();
    fflush(NULL);
    pid_t p = fork();
    if (p == 0) {
        W = slot; verbose = verb;
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        if (fo) dup2(fileno(fo), 1); else { int d = open("/dev/null", O_WRONLY); dup2(d, 1); }
        if (fe) dup2(fileno(fe), 2);
        signal(SIGPROF, on_prof);
        if (use_gen) { replaying = false; run_one(gen_index); }
        else { replaying = true; rp = ch.data(); rpn = ch.size(); rpos = 0; run_one(0); }
        if (verb) { fputs(notes.c_str(), stdout); fflush(stdout); }
        _exit(cur_nt ? 0 : 0);
    }
    int st; waitpid(p, &st, 0);
    o.status = st;
    o.msg = slot->msg;
    auto slurp = [](FILE* f) { std::string r; if (!f) return r; rewind(f); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) if (r.size() < 400000) r.append(b, n); fclose(f); return r; };
    o.text = slurp(fo); o.err = slurp(fe);
    return o;
}
static bool bad(int st) { return !(WIFEXITED(st) && WEXITSTATUS(st) == 0); }

static std::vector<uint64_t> shrink(std::vector<uint64_t> c, WorkerShm* slot, double deadline, size_t& tries) {
    auto fails = [&](const std::vector<uint64_t>& x) {
        tries++;
        Out o = child(x, false, 0, false, slot);
        return bad(o.status);
    };
    auto used = [&](std::vector<uint64_t>& x) { // trim to actually used choices
        if (slot->nrec < x.size()) x.resize(slot->nrec);
    };
    if (!fails(c)) return c;
    used(c);
    bool progress = true;
    while (progress && now() < deadline && tries < 4000) {
        progress = false;
        for (size_t len = c.size() / 2; len >= 1 && now() < deadline; len = len / 2) {
            for (size_t i = 0; i + len <= c.size() && now() < deadline;) {
                std::vector<uint64_t> x(c); x.erase(x.begin() + i, x.begin() + i + len);
                if (fails(x)) { used(x); c = x; progress = true; }
                else {
                    // zero the chunk instead
                    bool any = false; for (size_t j = i; j < i + len; j++) any |= c[j] != 0;
                    if (any) {
                        x = c; for (size_t j = i; j < i + len; j++) x[j] = 0;
                        if (fails(x)) { used(x); c = x; progress = true; }
                    }
                    i += len;
                }
            }
        }
        for (size_t i = 0; i < c.size() && now() < deadline; i++) {
            if (c[i] == 0) continue;
            uint64_t lo = 0, hi = c[i]; // hi fails
            { std::vector<uint64_t> x(c); x[i] = 0; if (fails(x)) { used(x); c = x; progress = true; continue; } }
            while (hi - lo > 1 && now() < deadline) {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> x(c); x[i] = mid;
                if (fails(x)) { used(x); c = x; hi = mid; progress = true; if (i >= c.size()) break; } else lo = mid;
            }
        }
    }
    return c;
}

static std::string jesc(const std::string& s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch == '\n') r += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += ch;
    }
    return r + "\"";
}
static std::string cut(const std::string& s, size_t n) { return s.size() <= n ? s : s.substr(0, n) + " ...[cut]"; }

static int main_run(int argc, char** argv) {
    uint64_t seed = 1, cases = 10000; int workers = 8; double tlimit = 60, shr = 20;
    const char *out = NULL, *rpath = NULL;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string a = argv[i]; const char* v = argv[i + 1];
        if (a == "--seed") seed = strtoull(v, 0, 0);
        else if (a == "--cases") cases = strtoull(v, 0, 0);
        else if (a == "--workers") workers = atoi(v);
        else if (a == "--time") tlimit = atof(v);
        else if (a == "--shrink") shr = atof(v);
        else if (a == "--out") out = v;
        else if (a == "--replay-out") rpath = v;
        else if (a == "--cpu") cpu_limit = atoi(v);
    }
    seed0 = seed;
    exh_total = pbt_exhaustive_total ? pbt_exhaustive_total() : 0;
    if (cases < exh_total) cases = exh_total;
    size_t slots = workers + 1;
    G = (Global*)mmap(NULL, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    WorkerShm* ws = (WorkerShm*)mmap(NULL, sizeof(WorkerShm) * slots, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (G == MAP_FAILED || ws == MAP_FAILED) { perror("mmap"); return 2; }
    double t0 = now();
    uint64_t evals = 0, nontriv = 0, distinct = 0; bool capped = false;
    std::vector<uint64_t> firsts;
    std::vector<pid_t> pid(workers);
    std::string errbase = std::string(out ? out : "/tmp/pbt") + ".err";
    for (int w = 0; w < workers; w++) {
        fflush(NULL);
        pid[w] = fork();
        if (pid[w] == 0) {
            W = &ws[w];
            struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
            int d = open((errbase + std::to_string(w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            if (d >= 0) dup2(d, 2);
            d = open("/dev/null", O_WRONLY); dup2(d, 1);
            signal(SIGPROF, on_prof);
            for (uint64_t i = w; i < cases; i += workers) {
                if (now() - t0 > tlimit) { W->done = 2; _exit(0); }
                run_one(i);
                W->evals++;
                if (cur_nt) {
                    W->nontriv++;
                    if (i >= exh_total ? W->nfirst < 4 : W->nfirst < 1 && i == (uint64_t)w && w == 0) W->first_nt[W->nfirst++] = i;
                    uint64_t h = cur_hash * 0x9e3779b97f4a7c15ull | 1;
                    for (int k = 0; k < 8; k++) {
                        uint64_t* e = &G->dist[((h >> 20) + k) % DIST]; uint64_t z = 0;
                        if (*e == h) break;
                        if (*e == 0) {
                            if (__sync_bool_compare_and_swap(e, z, h)) { W->distinct++; break; }
                            if (*e == h) break;
                        }
                    }
                }
            }
            W->done = 1;
            _exit(0);
        }
        if (pid[w] < 0) { perror("fork"); return 2; }
    }
    int failw = -1; int left = workers;
    int failstatus = 0;
    while (left) {
        int st; pid_t p = wait(&st);
        if (p < 0) break;
        for (int w = 0; w < workers; w++) if (pid[w] == p) {
            left--; pid[w] = 0;
            if (ws[w].done == 2) capped = true;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) || !ws[w].done) {
                bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
                if (failw < 0 && !killed) { failw = w; failstatus = st; for (int k = 0; k < workers; k++) if (pid[k] > 0) kill(pid[k], SIGKILL); }
                else if (killed && failw < 0) { fprintf(stderr, "worker killed (out of memory?)\n"); }
            }
        }
    }
    for (int w = 0; w < workers; w++) {
        evals += ws[w].evals; nontriv += ws[w].nontriv; distinct += ws[w].distinct;
        for (uint64_t k = 0; k < ws[w].nfirst; k++) firsts.push_back(ws[w].first_nt[k]);
    }
    double t1 = now();
    int rc = 0;
    std::string js = "{";
    bool violation = false, unrepro = false;
    if (failw >= 0) {
        WorkerShm* f = &ws[failw]; WorkerShm* slot = &ws[workers];
        std::vector<uint64_t> c(f->rec, f->rec + f->nrec);
        std::string msg0 = f->msg; uint64_t idx = f->cur;
        fprintf(stderr, "%s: case %llu failed: %s (status 0x%x)\n", harness_name, (unsigned long long)idx, msg0.c_str(), failstatus);
        int rep = 0;
        for (int k = 0; k < 3; k++) if (bad(child(c, false, 0, false, slot).status)) rep++;
        size_t tries = 0;
        if (rep) {
            violation = true;
            if (rep == 3) c = shrink(c, slot, now() + shr, tries);
            Out o = child(c, true, 0, false, slot);
            std::string why = o.msg.empty() ? msg0 : o.msg;
            for (const char* key : {"runtime error: ", "SUMMARY: "}) { // what a sanitizer said
                size_t at = o.err.find(key); if (!why.empty() || at == std::string::npos) continue;
                why = o.err.substr(at, o.err.find('\n', at) - at);
            }
            if (rpath) {
                FILE* r = fopen(rpath, "w");
                if (r) {
                    fprintf(r, "{\n\"harness\": %s,\n\"seed\": %llu,\n\"case\": %llu,\n\"reproduced\": \"%d/3\",\n\"shrink_runs\": %zu,\n\"message\": %s,\n\"log\": %s,\n\"stderr\": %s,\n\"choices\": [",
                        jesc(harness_name).c_str(), (unsigned long long)seed, (unsigned long long)idx, rep, tries, jesc(why).c_str(), jesc(cut(o.text, 20000)).c_str(), jesc(cut(o.err, 12000)).c_str());
                    for (size_t i = 0; i < c.size(); i++) fprintf(r, "%s%llu", i ? "," : "", (unsigned long long)c[i]);
                    fprintf(r, "]\n}\n");
                    fclose(r);
                }
            }
            fprintf(stderr, "%s: shrunk to %zu choices in %zu runs: %s\n%s\n", harness_name, c.size(), tries, why.c_str(), cut(o.err, 3000).c_str());
            js += "\"message\":" + jesc(why) + ",";
            rc = 1;
        } else {
            // Not reproducible on its own: re-execute the failing worker's own
            // case history (state carried between cases), shortest suffix first.
            auto history = [&](uint64_t start) {
                fflush(NULL);
                slot->failed = 0; slot->msg[0] = 0;
                pid_t p = fork();
                if (p == 0) {
                    W = slot; struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
                    int d = open("/dev/null", O_WRONLY); dup2(d, 1); dup2(d, 2);
                    signal(SIGPROF, on_prof);
                    for (uint64_t i = start; i <= idx; i += workers) run_one(i);
                    _exit(0);
                }
                int st; waitpid(p, &st, 0); return bad(st);
            };
            double dl = now() + 60;
            for (uint64_t span = 1; now() < dl; span *= 4) {
                uint64_t base = idx % workers, maxspan = (idx - base) / workers;
                uint64_t sp = span < maxspan ? span : maxspan;
                uint64_t start = idx - sp * workers;
                int r = 0; for (int k = 0; k < 3; k++) r += history(start);
                if (r == 3) {
                    violation = true; rc = 1;
                    if (rpath) { FILE* r2 = fopen(rpath, "w"); if (r2) {
                        fprintf(r2, "{\n\"harness\": %s,\n\"seed\": %llu,\n\"message\": %s,\n\"history\": [%llu, %d, %llu]\n}\n", jesc(harness_name).c_str(), (unsigned long long)seed,
                            jesc(std::string(slot->msg[0] ? slot->msg : msg0)).c_str(), (unsigned long long)start, workers, (unsigned long long)idx); fclose(r2); } }
                    js += "\"message\":" + jesc(msg0) + ",";
                    break;
                }
                if (sp == maxspan) break;
            }
            if (!violation) {
                unrepro = true;
                js += "\"unreproduced\":" + jesc(msg0) + ",";
                fprintf(stderr, "%s: failure did not reproduce; not reported as a violation\n", harness_name);
                rc = 3;
            }
        }
    }
    // samples
    js += "\"samples\":[";
    std::sort(firsts.begin(), firsts.end());
    int ns = 0;
    if (!violation)
        for (size_t k = 0; k < firsts.size() && ns < 3; k += (firsts.size() / 3) + 1) {
            Out o = child({}, true, firsts[k], true, &ws[workers]);
            if (bad(o.status)) continue;
            js += std::string(ns ? "," : "") + "{\"case\":" + std::to_string(firsts[k]) + ",\"text\":" + jesc(cut(o.text, 1500)) + "}";
            ns++;
        }
    js += "],\"labels\":{";
    bool first = true;
    for (size_t i = 0; i < NLABEL; i++) if (G->labels[i].key) { js += std::string(first ? "" : ",") + jesc(G->labels[i].name) + ":" + std::to_string(G->labels[i].count); first = false; }
    js += "},\"known\":{";
    first = true;
    for (size_t i = 0; i < 16; i++) if (G->known[i].key) { js += std::string(first ? "" : ",") + jesc(G->known[i].name) + ":" + std::to_string(G->known[i].count); first = false; }
    js += "},\"evaluations\":" + std::to_string(evals) + ",\"nontrivial\":" + std::to_string(nontriv) + ",\"distinct\":" + std::to_string(distinct) +
        ",\"exhaustive\":" + std::to_string(exh_total) + ",\"time_capped\":" + (capped ? "true" : "false") + ",\"violation\":" + (violation ? "true" : "false") +
        ",\"unrepro\":" + (unrepro ? "true" : "false") + ",\"wall\":" + std::to_string(t1 - t0) + "}";
    if (out) { FILE* f = fopen(out, "w"); if (f) { fputs(js.c_str(), f); fclose(f); } } else puts(js.c_str());
    for (int w = 0; w < workers; w++) unlink((errbase + std::to_string(w)).c_str());
    return rc;
}
static int main_replay(int argc, char** argv) {
    (void)argc;
    // reads choice list: any file containing "choices": [ ... ]
    FILE* f = fopen(argv[2], "r"); if (!f) { perror("open"); return 2; }
    std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f);
    size_t hp = s.rfind("\"history\": [");
    if (hp != std::string::npos) {
        unsigned long long a = 0, st = 1, e = 0, sd = 1; sscanf(s.c_str() + hp, "\"history\": [%llu, %llu, %llu", &a, &st, &e);
        size_t sp = s.find("\"seed\": "); if (sp != std::string::npos) sscanf(s.c_str() + sp, "\"seed\": %llu", &sd);
        seed0 = sd; exh_total = pbt_exhaustive_total ? pbt_exhaustive_total() : 0; verbose = true; signal(SIGPROF, on_prof);
        for (uint64_t i = a; i <= e; i += st) run_one(i);
        puts("PASS"); return 0;
    }
    size_t p = s.rfind("\"choices\": ["); if (p == std::string::npos) return 2;
    const char* q = s.c_str() + p + 12; std::vector<uint64_t> c;
    while (*q && *q != ']') { char* e; uint64_t v = strtoull(q, &e, 10); if (e == q) { q++; continue; } c.push_back(v); q = e; }
    exh_total = pbt_exhaustive_total ? pbt_exhaustive_total() : 0;
    verbose = true; replaying = true; rp = c.data(); rpn = c.size(); rpos = 0;
    signal(SIGPROF, on_prof);
    W = NULL;
    run_one(0);
    fputs(notes.c_str(), stdout);
    puts("PASS");
    return 0;
}
static int main_case(int argc, char** argv) { // show one generated case: case SEED INDEX
    seed0 = argc > 2 ? strtoull(argv[2], 0, 0) : 1;
    exh_total = pbt_exhaustive_total ? pbt_exhaustive_total() : 0;
    verbose = true; signal(SIGPROF, on_prof);
    run_one(argc > 3 ? strtoull(argv[3], 0, 0) : 0);
    fputs(notes.c_str(), stdout);
    printf("PASS nontrivial=%d\n", cur_nt);
    return 0;
}
int run_bytes(const uint8_t* d, size_t n) {
    fuzzing = true; fz = d; fzn = n; fzpos = 0; cur_nt = false; cur_hash = 0; notes.clear(); W = NULL;
    if (pbt_case_begin) pbt_case_begin();
    property_case();
    if (pbt_case_end) pbt_case_end();
    return 0;
}
} // namespace pbt

extern "C" const char* __asan_default_options() {
    return "exitcode=66:abort_on_error=0:allocator_may_return_null=1:detect_leaks=0:detect_stack_use_after_return=0:handle_abort=0:max_allocation_size_mb=2048:quarantine_size_mb=16:malloc_context_size=4";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=67"; }

#ifdef PBT_LIBFUZZER
static uint64_t fz_runs, fz_nontrivial; static std::set<uint64_t> fz_distinct;
static void fz_report() { fprintf(stderr, "PBT runs=%llu nontrivial=%llu distinct=%llu\n", (unsigned long long)fz_runs, (unsigned long long)fz_nontrivial, (unsigned long long)fz_distinct.size()); }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
    static bool once; if (!once) { once = true; atexit(fz_report); }
    int r = pbt::run_bytes(d, n); fz_runs++;
    if (pbt::cur_nt) { fz_nontrivial++; if (fz_distinct.size() < 3000000) fz_distinct.insert(pbt::cur_hash); }
    return r;
}
#else
int main(int argc, char** argv) {
    if (argc > 2 && !strcmp(argv[1], "replay")) return pbt::main_replay(argc, argv);
    if (argc > 1 && !strcmp(argv[1], "case")) return pbt::main_case(argc, argv);
    if (argc > 1 && !strcmp(argv[1], "run")) return pbt::main_run(argc, argv);
    if (argc > 2 && !strcmp(argv[1], "bytes")) {
        FILE* f = fopen(argv[2], "rb"); if (!f) return 2;
        std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f);
        pbt::verbose = true;
        int r = pbt::run_bytes((const uint8_t*)s.data(), s.size()); puts("PASS"); return r;
    }
    fprintf(stderr, "usage: %s run|replay FILE|case SEED INDEX|bytes FILE\n", argv[0]);
    return 2;
}
#endif
