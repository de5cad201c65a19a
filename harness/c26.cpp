// C26: the same job run by builds of the library in many configurations gives
// the same transcript in every one that has the features the job needs. The
// jobs are write programs, reads, typed reads, tree parses with accessor
// series, tag comparisons and prints. (C27 uses the same harness with builds
// under MemorySanitizer.)
#include "drv.h"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;
const char* pbt::harness_name = "c26";
enum { CAP_W = 1, CAP_R = 2, CAP_E = 4, CAP_N = 8, CAP_EXT = 16, CAP_COMPAT = 32, CAP_BUILDER = 64, CAP_FLOAT = 128, CAP_DOUBLE = 256, CAP_MALLOC = 512, CAP_PRINT = 1024, CAP_STDIO = 2048, CAP_64 = 4096, CAP_STRINGS = 8192 };
struct Probe { std::string name, path; pid_t pid = -1; int in = -1, out = -1; uint32_t caps = 0; };
static std::vector<Probe> probes; static pid_t owner;
static void full_write(int fd, const void* p, size_t n, bool& ok) { const char* c = (const char*)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) { ok = false; return; } c += k; n -= (size_t)k; } }
static int full_read(int fd, void* p, size_t n) { // 1 ok, 0 ended, -1 timed out
    char* c = (char*)p; while (n) { struct pollfd f = {fd, POLLIN, 0}; int r = poll(&f, 1, 30000); if (r == 0) return -1; ssize_t k = read(fd, c, n); if (k <= 0) return 0; c += k; n -= (size_t)k; } return 1;
}
static void spawn(Probe& p) {
    int a[2], b[2]; if (pipe(a) || pipe(b)) { perror("pipe"); _exit(3); }
    fcntl(a[1], F_SETFD, FD_CLOEXEC); fcntl(b[0], F_SETFD, FD_CLOEXEC);
    p.pid = vfork();
    if (p.pid == 0) { dup2(a[0], 0); dup2(b[1], 1); prctl(PR_SET_PDEATHSIG, SIGKILL); execl(p.path.c_str(), p.path.c_str(), (char*)0); _exit(127); }
    close(a[0]); close(b[1]); p.in = a[1]; p.out = b[0];
    if (full_read(p.out, &p.caps, 4) != 1) { fprintf(stderr, "probe %s does not start\n", p.name.c_str()); fail("probe %s does not start", p.name.c_str()); }
}
static void start() {
    if (owner == getpid()) return;
    for (auto& p : probes) { close(p.in); close(p.out); } // a forked copy of another worker's
    probes.clear(); owner = getpid(); signal(SIGPIPE, SIG_IGN);
    const char* e = getenv("VT_PROBES"); if (!e) { fprintf(stderr, "VT_PROBES not set\n"); _exit(3); }
    std::string s = e; size_t i = 0;
    while (i < s.size()) { size_t j = s.find(',', i); if (j == std::string::npos) j = s.size(); std::string x = s.substr(i, j - i); size_t c = x.find(':'); Probe p; p.name = x.substr(0, c); p.path = x.substr(c + 1); probes.push_back(p); i = j + 1; }
    for (auto& p : probes) spawn(p);
}
static const char* const KIND[] = {"?", "write", "read", "expect", "node", "tags", "print", "strings"};
static size_t compared;
static void run_job(const Bytes& job, uint32_t need) {
    start(); uint32_t n = (uint32_t)job.size(); Bytes msg((const char*)&n, 4); msg += job;
    std::vector<Probe*> use; for (auto& p : probes) if ((p.caps & need) == need) use.push_back(&p);
    note("%s job, %zu builds: %s", KIND[(uint8_t)job[0] & 7], use.size(), hex(job.data(), job.size(), 300).c_str());
    bool ok = true; for (auto p : use) { full_write(p->in, msg.data(), msg.size(), ok); }
    Bytes ref; Probe* rp = nullptr; std::string why;
    for (auto p : use) {
        uint32_t k; Bytes o; int r = full_read(p->out, &k, 4); if (r == 1) { o.resize(k); if (k) r = full_read(p->out, &o[0], k); }
        if (r != 1) { int st = 0; if (r == 0) waitpid(p->pid, &st, 0); fail("build \"%s\" %s in a %s job: %s", p->name.c_str(), r < 0 ? "hangs" : WIFSIGNALED(st) ? (WTERMSIG(st) == SIGPROF ? "hangs" : "crashes") : "stops", KIND[(uint8_t)job[0] & 7], hex(job.data(), job.size(), 400).c_str()); }
        if (!rp) { rp = p; ref = o; continue; }
        compared++;
        if (o != ref && why.empty()) { size_t d = 0; while (d < o.size() && d < ref.size() && o[d] == ref[d]) d++; size_t from = d > 12 ? d - 12 : 0;
            why = "builds \"" + rp->name + "\" and \"" + p->name + "\" differ in a " + KIND[(uint8_t)job[0] & 7] + " job at transcript byte " + std::to_string(d) + ": " + hex(ref.data() + from, ref.size() - from, 60) + " / " + hex(o.data() + std::min(from, o.size()), o.size() - std::min(from, o.size()), 60) + "; job " + hex(job.data(), job.size(), 400); }
    }
    if (!why.empty()) fail("%s", why.c_str());
}
static void p8(Bytes& b, unsigned v) { b += (char)v; }
static void p32(Bytes& b, uint64_t v) { for (int i = 0; i < 4; i++) b += (char)(v >> (8 * i)); }
static void p64(Bytes& b, uint64_t v) { for (int i = 0; i < 8; i++) b += (char)(v >> (8 * i)); }
static void pbytes(Bytes& b, const Bytes& s) { p32(b, s.size()); b += s; }
static bool has_ext(const Bytes& d) { for (unsigned char c : d) if ((c >= 0xc7 && c <= 0xc9) || (c >= 0xd4 && c <= 0xd8)) return true; return false; }
static bool snan32(uint32_t v) { return (v & 0x7f800000u) == 0x7f800000u && (v & 0x7fffffu) && !(v & 0x400000u); }
static bool snan64(uint64_t v) { return (v & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (v & 0xfffffffffffffull) && !(v & 0x8000000000000ull); }
static bool has_snan(const Bytes& d) { // anywhere it could be read; i387 registers change such values
    for (size_t i = 0; i < d.size(); i++) { uint64_t v = 0; size_t n = (uint8_t)d[i] == 0xca ? 4 : (uint8_t)d[i] == 0xcb ? 8 : 0; if (!n || i + n >= d.size()) continue; for (size_t k = 1; k <= n; k++) v = v << 8 | (uint8_t)d[i + k]; if (n == 4 ? snan32((uint32_t)v) : snan64(v)) return true; } return false;
}
// a 32-bit build cannot represent such a number of nodes and may say too_big where a 64-bit one finds the message truncated
static bool huge_count(const Bytes& d) { for (size_t i = 0; i + 1 < d.size(); i++) { uint8_t t = (uint8_t)d[i], n = (uint8_t)d[i + 1]; if (((t == 0xdd || t == 0xdf) && n >= 0x04) || ((t == 0xc6 || t == 0xc9 || t == 0xdb) && n >= 0xf0)) return true; } return false; }
static uint32_t data_needs(const Bytes& d) { return (has_ext(d) ? CAP_EXT : 0) | (has_snan(d) ? CAP_64 : 0); }
static bool malformed(const Bytes& d) { return ref_tok((const uint8_t*)d.data(), d.size()).st != T_OK; }
// ---- write programs
struct W { Bytes b; uint32_t need = CAP_W; bool v4 = false, builders = false; int open_builders = 0; bool fixed = false; };
static void w_val(W& w, const Value& v) {
    auto op = [&](unsigned o) { p8(w.b, o); };
    switch (v.k) {
    case NIL: if (chance(1, 4)) { op(chance(1, 2) ? 20 : 22); pbytes(w.b, ""); } else op(1); break;
    case BOOL: if (coin()) op(v.u ? 2 : 3); else { op(4); p8(w.b, (unsigned)v.u); } break;
    case UINT: case INT: { // any function whose type holds the value
        bool neg = v.k == INT && (int64_t)v.u < 0; std::vector<unsigned> c; uint64_t u = v.u; int64_t s = (int64_t)v.u;
        if (!neg) { c.push_back(8); c.push_back(13); if (u <= 255) c.push_back(5); if (u <= 65535) c.push_back(6); if (u <= 0xffffffffu) c.push_back(7); if (u <= 0x7fffffffffffffffull) { c.push_back(12); c.push_back(14); } if (u <= 127) c.push_back(9); if (u <= 32767) c.push_back(10); if (u <= 0x7fffffff) c.push_back(11); }
        else { c.push_back(12); c.push_back(14); if (s >= -128) c.push_back(9); if (s >= -32768) c.push_back(10); if (s >= -(int64_t)0x80000000ll) c.push_back(11); }
        if (chance(1, 6)) { op(42); p8(w.b, neg ? 2 : 3); p64(w.b, u); break; }
        op(pick(c)); p64(w.b, u); break; }
    case FLT: if (snan32((uint32_t)v.u)) w.need |= CAP_64; if (chance(1, 4)) { op(42); p8(w.b, 4); } else op(15); p64(w.b, v.u); break;
    case DBL: if (snan64(v.u)) w.need |= CAP_64; if (chance(1, 4)) { op(42); p8(w.b, 5); } else op(16); p64(w.b, v.u); break;
    case STR: { unsigned k = (unsigned)draw(6); bool nul = v.s.find('\0') != Bytes::npos; if (k == 3) { op(36); p8(w.b, 0); p32(w.b, draw(20)); pbytes(w.b, v.s); break; } if (nul && (k == 1 || k == 2 || k == 5)) k = 0;
        static const unsigned ops[] = {17, 19, 21, 17, 18, 22}; if (k == 5 && v.s.empty()) k = 0; op(ops[k]); pbytes(w.b, v.s); break; }
    case BIN: if (coin()) { op(37); p8(w.b, 0); p32(w.b, draw(20)); pbytes(w.b, v.s); } else { op(23); pbytes(w.b, v.s); } break;
    case EXT: w.need |= CAP_EXT; if (coin()) { op(38); p8(w.b, (uint8_t)v.et); p32(w.b, draw(20)); pbytes(w.b, v.s); } else { op(24); p8(w.b, (uint8_t)v.et); pbytes(w.b, v.s); } break;
    case ARR: case MAP: {
        bool m = v.k == MAP; unsigned build = w.builders && coin();
        if (build) { w.need |= CAP_BUILDER | CAP_MALLOC; w.open_builders++; op(m ? 32 : 31); }
        else if (chance(1, 6)) { op(42); p8(w.b, m ? 9 : 8); p64(w.b, v.count()); } else { op(m ? 28 : 27); p32(w.b, v.count()); }
        for (auto& c : v.c) { if (w.fixed && !w.open_builders && chance(1, 8)) op(41); w_val(w, c); }
        op(build ? (m ? 34 : 33) : (m ? 30 : 29)); if (build) w.open_builders--; break; }
    }
}
static void write_case() {
    W w; unsigned kind = (unsigned)draw(3); GenOpt o; o.big = chance(1, 12); w.v4 = chance(1, 6); o.ext = !w.v4 && coin(); w.builders = coin(); w.fixed = kind == 0;
    int msgs = 1 + (int)draw(3); Bytes total; Bytes head; std::vector<Value> vs;
    for (int i = 0; i < msgs; i++) vs.push_back(chance(1, 5) ? boundary_value(draw(boundary_total())) : gen_value(o));
    bool lng = chance(1, 120); if (lng) { Bytes t((size_t)(65500 + draw(6000)), 'a'); for (size_t i = 0; i < t.size(); i += 97) t[i] = (char)('b' + i % 23); vs.assign(1, mk_data(STR, t)); label("string over 64 K"); }
    for (auto& v : vs) { std::vector<Value*> st{&v}; while (!st.empty()) { Value* x = st.back(); st.pop_back(); x->form = 0; if (x->k == EXT && !o.ext) *x = mk(NIL); for (auto& c : x->c) st.push_back(&c); } }
    for (auto& v : vs) { if (chance(1, 10) && !w.v4) { Bytes e = enc(v); p8(w.b, 35); pbytes(w.b, e); total += e; continue; } w_val(w, v); total += enc(v); if (kind == 1 && coin()) p8(w.b, 39); if (chance(1, 10) && o.ext) { p8(w.b, 25); w.need |= CAP_EXT; p64(w.b, (uint64_t)gen_i64()); p32(w.b, draw(1000000000)); } if (chance(1, 12) && o.ext) { p8(w.b, 26); w.need |= CAP_EXT; p64(w.b, (uint64_t)gen_i64()); p8(w.b, (unsigned)draw(2)); } if (w.fixed && coin()) p8(w.b, 43); }
    if (w.v4) { w.b.insert(0, Bytes("\x28\x01", 2)); w.need |= CAP_COMPAT; }
    if (total.size() > (lng ? 200000 : 60000)) return;
    p8(head, 1); p8(head, kind); size_t size = kind == 0 ? (chance(1, 3) ? (size_t)draw(total.size() + 12) : total.size() + 64 + (size_t)draw(40)) : 32 + (size_t)draw(coin() ? 10 : 300); p32(head, size);
    if (kind == 2) w.need |= CAP_MALLOC;
    p8(w.b, 0); label("write"); nontrivial(hash_bytes(w.b.data(), w.b.size(), size)); run_job(head + w.b, w.need);
}
static Bytes element() { GenOpt o; o.overlong = true; o.ext = coin(); o.max_depth = 2; o.max_len = 60; return enc(gen_value(o)); }
static Bytes input() {
    Bytes d;
    switch (draw(5)) { case 0: d = gen_wire(300, coin()); break; case 1: d = element() + element(); break; case 2: { d = element(); if (!d.empty()) d.resize((size_t)draw(d.size() + 1)); break; } case 3: { GenOpt o; o.overlong = true; o.ext = coin(); d = enc(gen_value(o)); break; } default: d = element(); if (!d.empty()) d[(size_t)draw(d.size())] = (char)draw(256); break; }
    if (d.size() > 20000) d.resize(20000); return d;
}
static void read_case() {
    Bytes d = input(), j; for (int i = (int)draw(3); i > 0; i--) d += element(); unsigned mode = (unsigned)draw(8); p8(j, 2); p8(j, mode); p32(j, coin() ? draw(4) : draw(200)); p32(j, MPACK_READER_MINIMUM_BUFFER_SIZE + draw(coin() ? 10 : 200)); p64(j, draw(0)); pbytes(j, d);
    uint32_t need = CAP_R | data_needs(d); label("read"); nontrivial(hash_bytes(j.data(), j.size()));
    run_job(j, need);
}
static void expect_case() {
    Bytes d = chance(1, 3) ? input() : element(), j; unsigned set = (unsigned)draw(5), mode = (unsigned)draw(8) | (has_ext(d) || coin() ? 8u : 0u); if (set == 2 && coin()) { GenOpt o; o.overlong = true; do { Value v = gen_scalar(o); d = enc(v); } while (0); }
    if (malformed(d)) mode |= 16; p8(j, 3); p8(j, set); p8(j, mode); p32(j, coin() ? draw(4) : draw(200)); p32(j, MPACK_READER_MINIMUM_BUFFER_SIZE + draw(coin() ? 10 : 200)); p64(j, chance(1, 2) ? (uint64_t)draw(300) : (uint64_t)gen_i64()); pbytes(j, d);
    uint32_t need = CAP_E | data_needs(d) | (set == 1 ? CAP_FLOAT : set == 2 ? CAP_FLOAT | CAP_DOUBLE : set == 3 ? CAP_EXT : set == 4 ? CAP_MALLOC : 0); if (mode & 8 && set == 4) need |= CAP_EXT;
    label("expect"); nontrivial(hash_bytes(j.data(), j.size())); run_job(j, need);
}
static void node_case() {
    Bytes d = chance(1, 3) ? input() : enc([] { GenOpt o; o.overlong = true; o.ext = coin(); o.text_keys = coin(); return gen_value(o); }()), j; unsigned set = (unsigned)draw(5), kind = (unsigned)draw(3); if (d.size() > 4000) d.resize(4000); if (coin()) d += input().substr(0, 100);
    p8(j, 4); p8(j, set); p8(j, kind); p32(j, coin() ? draw(4) : draw(300)); bool lim = chance(1, 5); p32(j, lim ? 1 + draw(d.size() + 4) : 1 << 20); p32(j, lim ? 1 + draw(40) : 4096);
    p64(j, coin() ? draw(6) : (uint64_t)gen_i64()); p8(j, (unsigned)draw(4)); for (int i = (int)((uint8_t)j.back() & 3); i > 0; i--) p8(j, (unsigned)draw(6));
    Bytes key; Parse pr = ref_scan((const uint8_t*)d.data(), d.size()); if (pr.st == T_OK && coin()) { size_t pos = 0; Value v = ref_decode((const uint8_t*)d.data(), d.size(), pos); if (v.k == MAP && !v.c.empty()) { Value& k = v.c[2 * draw(v.count())]; if (k.k == STR) key = k.s; } } else key = pick({"", "a", "key", "abc"}); pbytes(j, key); pbytes(j, d);
    uint32_t need = CAP_N | data_needs(d) | (huge_count(d) ? CAP_64 : 0) | (set == 1 ? CAP_FLOAT : set == 2 ? CAP_FLOAT | CAP_DOUBLE : set == 3 ? CAP_EXT : set == 4 ? CAP_MALLOC : 0); if (kind != 1 || pr.maxdepth > 25 || d.size() > 4000) need |= CAP_MALLOC;
    if (pr.st != T_OK && kind == 1) need |= CAP_MALLOC;
    label("node"); nontrivial(hash_bytes(j.data(), j.size())); run_job(j, need);
}
static void tags_case() {
    Bytes j; p8(j, 5); int n = 2 + (int)draw(6); p8(j, (unsigned)n); uint32_t need = 0; uint64_t base = coin() ? gen_u64() : draw(200);
    for (int i = 0; i < n; i++) { unsigned k = (unsigned)draw(11); uint64_t v = chance(1, 3) ? gen_u64() : base + draw(2); if (k == 10) need |= CAP_EXT; if (k == 4 && coin()) v = gen_f32(); if (k == 5 && coin()) v = gen_f64(); if ((k == 4 && snan32((uint32_t)v)) || (k == 5 && snan64(v))) need |= CAP_64; if (k >= 6) v = k == 10 ? v & 0xffffffffffull : v & 0xffffffffu; p8(j, k); p64(j, v); }
    label("tags"); nontrivial(hash_bytes(j.data(), j.size())); run_job(j, need);
}
static void print_case() {
    Bytes d = input(), j; if (ref_scan((const uint8_t*)d.data(), d.size()).maxdepth > 100) return; p8(j, 6); p32(j, coin() ? 20000 : draw(300)); pbytes(j, d);
    label("print"); nontrivial(hash_bytes(j.data(), j.size())); run_job(j, CAP_PRINT | CAP_R | CAP_EXT | CAP_FLOAT | CAP_DOUBLE | (has_snan(d) ? CAP_64 : 0));
}
uint64_t pbt_exhaustive_total() { return 1 + 256; }
void pbt::property_case() {
    int64_t ex = enumerated();
    if (ex == 0) { Bytes j; p8(j, 7); run_job(j, CAP_STRINGS); label("strings"); nontrivial(1); return; }
    if (ex > 0) { // every first byte followed by zeros, by ones and by text, through everything
        for (int f = 0; f < 3; f++) {
            Bytes d(1, (char)(ex - 1)); d += f == 0 ? Bytes(40, '\0') : f == 1 ? Bytes(3, '\0') + Bytes(1, '\x02') + Bytes(40, '\x01') : Bytes("abc\x02kkeyx", 9) + Bytes(40, 'x'); uint32_t need = data_needs(d); Bytes j;
            for (int set = 0; set < 5; set++) { j.clear(); p8(j, 3); p8(j, (unsigned)set); p8(j, 8u | (malformed(d) ? 16u : 0)); p32(j, 3); p32(j, 64); p64(j, 1); pbytes(j, d); run_job(j, CAP_E | need | (set == 1 ? CAP_FLOAT : set == 2 ? CAP_FLOAT | CAP_DOUBLE : set == 3 ? CAP_EXT : set == 4 ? CAP_MALLOC | CAP_EXT : 0)); }
            j.clear(); p8(j, 2); p8(j, (unsigned)f); p32(j, 2); p32(j, 40); p64(j, (uint64_t)ex); pbytes(j, d); run_job(j, CAP_R | need);
            for (int set = 0; set < 5; set++) { j.clear(); p8(j, 4); p8(j, (unsigned)set); p8(j, 0); p32(j, 3); p32(j, 1 << 20); p32(j, 4096); p64(j, 1); p8(j, 0); pbytes(j, "abc"); pbytes(j, d); run_job(j, CAP_N | CAP_MALLOC | need | (huge_count(d) ? CAP_64 : 0) | (set == 1 ? CAP_FLOAT : set == 2 ? CAP_FLOAT | CAP_DOUBLE : set == 3 ? CAP_EXT : 0)); }
        }
        label("first-byte"); nontrivial((uint64_t)ex); return;
    }
    switch (draw(10)) { case 0: case 1: case 2: write_case(); break; case 3: case 4: read_case(); break; case 5: case 6: expect_case(); break; case 7: case 8: node_case(); break; default: if (coin()) tags_case(); else print_case(); }
}
