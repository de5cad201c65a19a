// C25: debug printing against an independent printer.
#include "treecmp.h"
#include "files.h"
#include "nodectx.h"
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
using namespace pbt;
const char* pbt::harness_name = "c25";
static void indent(Bytes& o, size_t d) { o.append(4 * d, ' '); }
static void hexes(Bytes& o, const uint8_t* p, size_t n) { static const char h[] = "0123456789abcdef"; for (size_t i = 0; i < n && i < MPACK_PRINT_BYTE_COUNT; i++) { o += h[p[i] >> 4]; o += h[p[i] & 15]; } }
static Bytes fmt(const char* f, ...) { char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static void scalar(Bytes& o, const Tok& t, const uint8_t* data) {
    switch (t.k) {
    case NIL: o += "null"; break; case BOOL: o += t.u ? "true" : "false"; break;
    case UINT: o += fmt("%llu", (unsigned long long)t.u); break; case INT: o += fmt("%lld", (long long)t.u); break;
    case FLT: o += MPACK_FLOAT ? fmt("%f", (double)f32_of(t.u)) : "<float>"; break; case DBL: o += MPACK_DOUBLE ? fmt("%f", f64_of(t.u)) : "<double>"; break;
    case BIN: case EXT:
        o += t.k == BIN ? fmt("<binary data of length %u", t.len) : fmt("<ext data of type %i and length %u", t.et, t.len);
        if (t.len) { o += ": "; hexes(o, data, t.len); if (t.len > MPACK_PRINT_BYTE_COUNT) o += "..."; } o += ">"; break;
    default: break;
    }
}
// Prints the message at pos. On malformed data, `o` ends where the offending element starts.
static TokStatus ref_print(const uint8_t* p, size_t n, size_t& pos, size_t depth, Bytes& o) {
    Tok t = ref_tok(p + pos, n - pos, EXTS); if (t.st != T_OK) return t.st;
    size_t body = pos + t.hdr;
    if (t.k == STR || t.k == BIN || t.k == EXT) if (t.len > n - body) return T_TRUNC;
    pos = body;
    if (t.k == STR) {
        o += '"'; for (size_t i = 0; i < t.len; i++) { char c = (char)p[body + i]; if (c == '\n') o += "\\n"; else { if (c == '\\' || c == '"') o += '\\'; o += c; } } o += '"'; pos += t.len;
    } else if (t.k == ARR || t.k == MAP) {
        o += t.k == ARR ? "[\n" : "{\n";
        for (uint64_t i = 0; i < t.len; i++) {
            indent(o, depth + 1); TokStatus s = ref_print(p, n, pos, depth + 1, o); if (s != T_OK) return s;
            if (t.k == MAP) { o += ": "; s = ref_print(p, n, pos, depth + 1, o); if (s != T_OK) return s; }
            if (i + 1 != t.len) o += ","; o += "\n";
        }
        indent(o, depth); o += t.k == ARR ? "]" : "}";
    } else { scalar(o, t, p + body); if (t.k == BIN || t.k == EXT) pos += t.len; }
    return T_OK;
}
struct Out { Bytes s; size_t calls = 0; };
static void on_print(void* c, const char* d, size_t n) { Out* o = (Out*)c; o->calls++; o->s.append(d, n); }
static Bytes cut(const Bytes& b) { return hex(b.data(), b.size(), 120) + " \"" + Bytes(b.c_str()).substr(0, 200) + "\""; }
static size_t diff_at(const Bytes& a, const Bytes& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; return i; }
static void same(const char* what, const Bytes& got, const Bytes& want) { if (got != want) { size_t i = diff_at(got, want); size_t s = i > 30 ? i - 30 : 0; fail("%s: output of %zu bytes differs from the expected %zu at %zu: ...%s... expected ...%s...", what, got.size(), want.size(), i, Bytes(got, s, 80).c_str(), Bytes(want, s, 80).c_str()); } }
static bool big_case; // some buffers are larger than 32 bits can count
static void check_buffer(const char* what, const Bytes& full, size_t size, void (*print)(char*, size_t, const void*), const void* arg) {
    size = (big_case ? big_limit(size, 3) : size); OutBuf b(size, full.size()); print(b.p, size, arg); size_t k = full.size() < size - 1 ? full.size() : size - 1;
    CHECK(b.p[k] == 0, "%s into %zu bytes: no terminator at %zu (text of %zu): %s", what, size, k, full.size(), hex(b.p, b.scan, 60).c_str()); for (size_t i = k + 1; i < b.scan && size > 0xffffffffu; i++) CHECK(b.p[i] == 0x5c, "%s wrote %zu bytes behind its terminator", what, i - k);
    CHECK(memcmp(b.p, full.data(), k) == 0, "%s into %zu bytes is not a prefix of the complete text at %zu", what, size, diff_at(Bytes(b.p, k), full));
}
static std::vector<size_t> sizes(size_t full) { if (full > 50000) return {coin() ? full : 1 + (size_t)draw(full)}; std::vector<size_t> v{1, 2, full + 1, full + 2, full ? full : 1, full > 1 ? full - 1 : 1}; for (int i = 0; i < 4; i++) v.push_back(1 + (size_t)draw(full + 30)); return v; }
static const char* error_note(const Bytes& s, size_t& at) { // position and name of a trailing error note
    static const char pre[] = "\n<mpack parsing error "; size_t i = s.rfind(pre); if (i == Bytes::npos || s.back() != '>') return NULL; at = i; static Bytes nm; nm = s.substr(i + sizeof pre - 1); nm.pop_back(); return nm.c_str(); }
// The text the malformed element itself may leave before the error note.
static bool partial_ok(const uint8_t* p, size_t n, const Bytes& mid) {
    if (mid.empty()) return true; Tok t = ref_tok(p, n, EXTS); if (t.st != T_OK) return false; 
    if (t.k == STR) { Bytes o = "\""; for (size_t i = t.hdr; i < n; i++) { char c = (char)p[i]; if (c == '\n') o += "\\n"; else { if (c == '\\' || c == '"') o += '\\'; o += c; } } return o.compare(0, mid.size(), mid) == 0; }
    if (t.k == BIN || t.k == EXT) return mid.size() < 120;
    return false;
}
// stdout is replaced while a *_to_stdout function prints; it must be left open
template <class F> static Bytes capture_stdout(F f) { CookieOut ck; FILE* mine = open_cookie_out(&ck, pick<size_t>({0, 64, 4096})); FILE* old = stdout; stdout = mine; f(); CHECK(stdout == mine, "stdout replaced"); stdout = old; CHECK(ck.closes == 0, "printing closed stdout"); fclose(mine); return ck.data; }
struct DataArg { const char* p; size_t n; };
static void p_data(char* b, size_t k, const void* a) { const DataArg* d = (const DataArg*)a; mpack_print_data_to_buffer(d->p, d->n, b, k); }
static void p_node(char* b, size_t k, const void* a) { mpack_node_print_to_buffer(*(const mpack_node_t*)a, b, k); }
static const char* const ERRN[] = {"mpack_error_invalid", "mpack_error_unsupported"};
static void message_case(const Bytes& in) { big_case = chance(1, 60);
    Box box(in); const uint8_t* p = (const uint8_t*)box.p; size_t pos = 0; Bytes ref; TokStatus st = ref_print(p, box.n, pos, 0, ref);
    note("message of %zu bytes: %s", in.size(), hex(in.data(), in.size(), 100).c_str());
    Out o; mpack_print_data_to_callback(box.p, box.n, on_print, &o); Bytes full = o.s;
    if (st == T_OK) {
        Bytes want = ref; size_t extra = box.n - pos; if (extra) want += fmt("\n<%zu extra bytes at end of message>", extra);
        same("message", full, want);
        if (in.size() < 200000 && chance(1, 60)) if (char* h = huge_message(in)) { // more data behind the message than an int can count
            size_t n = pos + pick<size_t>({0x7fffffffu, 0x80000000u, 0xffffffffu, (size_t)0x100000000ull}) + (size_t)draw(100000); Out ho; mpack_print_data_to_callback(h, n, on_print, &ho); label("over-31-bits");
            same("message with much behind it", ho.s, ref + fmt("\n<%llu extra bytes at end of message>", (unsigned long long)(n - pos)));
            Bytes d2(8, ' '); size_t q = 0; ref_print(p, box.n, q, 2, d2); d2 += fmt("\n<%llu extra bytes at end of message>\n", (unsigned long long)(n - pos)); Bytes so = coin() ? capture_stdout([&] { mpack_print(h, n); }) : capture_stdout([&] { mpack_print_data_to_stdout(h, n); }); same("message with much behind it to stdout", so, d2); huge_message(Bytes()); }
    } else {
        CHECK(full.compare(0, ref.size(), ref) == 0, "malformed message: the output differs at %zu from what precedes the problem: %s expected %s", diff_at(full, ref), cut(full).c_str(), cut(ref).c_str());
        size_t at = 0; const char* e = error_note(full, at); CHECK(e, "malformed message at offset %zu without an error note: %s", pos, cut(full).c_str());
        const char* want = ERRN[st == T_NOEXT]; CHECK(strstr(e, strrchr(want, '_') + 1), "error note says %s, expected %s", e, want); CHECK(at >= ref.size(), "error note before the last good element");
        CHECK(partial_ok(p + pos, box.n - pos, full.substr(ref.size(), at - ref.size())), "stray text before the error note: %s", cut(full.substr(ref.size())).c_str()); label("malformed");
    }
    DataArg da = {box.p, box.n}; for (size_t k : sizes(full.size())) check_buffer("message", full, k, p_data, &da);
    { CookieOut ck; FILE* f = open_cookie_out(&ck, pick<size_t>({0, 1, 64, 4096})); mpack_print_data_to_file(box.p, box.n, f); fclose(f);
      if (chance(1, 4)) { bool dep = coin(); Bytes so = capture_stdout([&] { if (dep) mpack_print(box.p, box.n); else mpack_print_data_to_stdout(box.p, box.n); }); same("data to stdout", so, ck.data); label("stdout"); }
      Bytes r2(8, ' '); size_t q = 0; TokStatus s2 = ref_print(p, box.n, q, 2, r2); CHECK(ck.closes == 1, "file closed"); CHECK(ck.data.size() && ck.data.back() == '\n', "no newline at the end");
      if (s2 == T_OK) { if (box.n > q) r2 += fmt("\n<%zu extra bytes at end of message>", box.n - q); same("to_file", ck.data, r2 + "\n"); }
      else { CHECK(ck.data.compare(0, r2.size(), r2) == 0, "malformed message to file differs at %zu", diff_at(ck.data, r2)); size_t at; Bytes s = ck.data.substr(0, ck.data.size() - 1); CHECK(error_note(s, at), "malformed message to file without an error note"); } }
    if (coin()) { // from a file
        CookieIn ci; ci.data = in; ci.seekable = coin(); if (coin()) ci.max_read = 1 + (size_t)draw(60); FILE* f = open_cookie_in(&ci, pick<size_t>({0, 1, 64})); Out fo; mpack_print_stdfile_to_callback(f, on_print, &fo); CHECK(!ci.closed, "printing closed the file"); fclose(f);
        CHECK(fo.s.compare(0, ref.size(), ref) == 0, "from a file: differs at %zu", diff_at(fo.s, ref)); Bytes rest = fo.s.substr(ref.size());
        if (st == T_OK) { long k = -1; char tail[64] = ""; bool noted = sscanf(rest.c_str(), "\n<%ld extra bytes at end of message%s", &k, tail) == 2; CHECK(rest.empty() || (noted && k > 0 && (size_t)k <= box.n - pos && Bytes(tail) == ">"), "from a file: stray text %s", cut(rest).c_str()); }
        else { size_t at; CHECK(error_note(fo.s, at), "from a file: no error note"); } }
    // the same text through the tree
    Verdict v = tree_verdict(p, box.n); mpack_tree_t t; mpack_tree_init_data(&t, box.p, box.n); mpack_tree_parse(&t); mpack_node_t root = mpack_tree_root(&t); Out no; mpack_node_print_to_callback(root, on_print, &no);
    if (v.err == mpack_ok && mpack_tree_error(&t) == mpack_ok) {
        same("node", no.s, ref); for (size_t k : sizes(no.s.size())) check_buffer("node", no.s, k, p_node, &root);
        CookieOut ck; FILE* f = open_cookie_out(&ck, pick<size_t>({0, 1, 64, 4096})); mpack_node_print_to_file(root, f); fclose(f); Bytes r2(8, ' '); size_t q = 0; ref_print(p, box.n, q, 2, r2); same("node to_file", ck.data, r2 + "\n");
        if (chance(1, 4)) { bool dep = coin(); Bytes so = capture_stdout([&] { if (dep) mpack_node_print(root); else mpack_node_print_to_stdout(root); }); same("node to stdout", so, ck.data); }
        mpack_type_t ty = mpack_node_type(root); // a child alone
        if (ty == mpack_type_array && mpack_node_array_length(root)) { size_t i = (size_t)draw(mpack_node_array_length(root)); size_t q2 = ref_tok(p, box.n, EXTS).hdr; for (size_t j = 0; j < i; j++) q2 += ref_scan(p + q2, box.n - q2, EXTS).used; Bytes r; ref_print(p, box.n, q2, 0, r); Out c; mpack_node_print_to_callback(mpack_node_array_at(root, i), on_print, &c); same("child node", c.s, r); label("child"); }
        if (ty == mpack_type_map) { Out m; mpack_node_print_to_callback(mpack_node_map_cstr_optional(root, "no such key!"), on_print, &m); CHECK(!m.s.empty() && m.s.find("missing") != Bytes::npos, "a missing node prints as %s", cut(m.s).c_str()); }
        CHECK(mpack_tree_error(&t) == mpack_ok, "printing flagged %s", err_name(mpack_tree_error(&t)));
        if (chance(1, 4)) { mpack_tree_flag_error(&t, mpack_error_data); Out e; mpack_node_print_to_callback(root, on_print, &e); for (size_t k : {(size_t)1, (size_t)9, no.s.size() + 1}) { Box b(k); mpack_node_print_to_buffer(root, b.p, k); CHECK(memchr(b.p, 0, k), "node of a failed tree: no terminator"); } label("print after error"); }
    } else { same("root of a failed tree", no.s, "null"); }
    mpack_tree_destroy(&t);
    if (full.size() > 1024) label("long output"); label(st == T_OK ? "complete" : "incomplete");
    if (in.size() > 1) nontrivial(hash_bytes(in.data(), in.size()));
}
static void tag_case() { big_case = chance(1, 60);
    GenOpt g; g.ext = EXTS; Value v = gen_value(g); mpack_tag_t t = make_tag(v); Bytes pre = v.k == BIN || v.k == EXT ? v.s : Bytes(); Tok tk; memset(&tk, 0, sizeof tk); tk.k = v.k; tk.u = v.u; tk.et = v.et; tk.len = v.k == STR || v.k == BIN || v.k == EXT ? (uint32_t)v.s.size() : (uint32_t)v.count();
    Bytes want; bool dataish = v.k == BIN || v.k == EXT; size_t given = coin() ? pre.size() : (size_t)draw(pre.size() + 1); Box pb(pre.substr(0, given)); note("tag of %s, prefix %zu", show(v).c_str(), given);
    if (v.k == STR) want = fmt("<string of %u bytes>", tk.len); else if (v.k == ARR) want = fmt("<array of %u elements>", tk.len); else if (v.k == MAP) want = fmt("<map of %u key-value pairs>", tk.len); else scalar(want, tk, (const uint8_t*)pre.data());
    bool whole = !dataish || given >= (pre.size() < MPACK_PRINT_BYTE_COUNT ? pre.size() : MPACK_PRINT_BYTE_COUNT);
    { Box b(600); mpack_tag_debug_pseudo_json(t, b.p, b.n, dataish ? pb.p : NULL, dataish ? given : 0); CHECK(memchr(b.p, 0, b.n), "no terminator"); if (whole) same("pseudo_json", b.p, want); }
    for (size_t k : sizes(want.size())) { if (big_case) k = big_limit(k, 3); OutBuf b(k, want.size()); mpack_tag_debug_pseudo_json(t, b.p, k, dataish ? pb.p : NULL, dataish ? given : 0); CHECK(memchr(b.p, 0, b.scan), "pseudo_json into %zu bytes: no terminator", k); if (!dataish) CHECK(want.compare(0, strlen(b.p), b.p) == 0 && strlen(b.p) == (want.size() < k ? want.size() : k - 1), "pseudo_json into %zu bytes gives \"%s\"", k, b.p); }
    Bytes full; { Box b(600); mpack_tag_debug_describe(t, b.p, b.n); CHECK(memchr(b.p, 0, b.n), "no terminator"); full = b.p; }
    Bytes val; switch (v.k) { case UINT: val = fmt("%llu", (unsigned long long)v.u); break; case INT: val = fmt("%lld", (long long)v.u); break; case FLT: if (MPACK_FLOAT) val = fmt("%f", (double)f32_of(v.u)); break; case DBL: if (MPACK_DOUBLE) val = fmt("%f", f64_of(v.u)); break; case STR: case BIN: case EXT: case ARR: case MAP: val = fmt("%u", tk.len); break; case BOOL: val = v.u ? "true" : "false"; break; case NIL: val = "nil"; break; }
    CHECK(full.find(val) != Bytes::npos, "describe gives \"%s\" for %s", full.c_str(), show(v).c_str()); if (v.k == EXT) CHECK(full.find(fmt("%i", v.et)) != Bytes::npos, "describe lacks the ext type");
    for (size_t k : sizes(full.size())) { if (big_case) k = big_limit(k, 3); OutBuf b(k, full.size()); mpack_tag_debug_describe(t, b.p, k); CHECK(memchr(b.p, 0, b.scan), "describe into %zu bytes: no terminator", k); CHECK(full.compare(0, strlen(b.p), b.p) == 0 && strlen(b.p) == (full.size() < k ? full.size() : k - 1), "describe into %zu bytes gives \"%s\"", k, b.p); }
    label("tag"); nontrivial(hash_value(v, given));
}
// Known finding: the printers recurse once per nesting level.
static void on_segv(int) { _exit(3); }
static void deep_case(bool node) {
    Bytes in(15000, (char)0x91); in += (char)0xc0; pid_t c = fork();
    if (c == 0) {
        struct rlimit rl = {2u << 20, 2u << 20}; setrlimit(RLIMIT_STACK, &rl); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2); char b[64]; alarm(60);
        static char alt[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, NULL); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_segv; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL);
        if (node) { mpack_tree_t t; mpack_tree_init_data(&t, in.data(), in.size()); mpack_tree_parse(&t); if (mpack_tree_error(&t) != mpack_ok) _exit(0); mpack_node_print_to_buffer(mpack_tree_root(&t), b, sizeof b); }
        else mpack_print_data_to_buffer(in.data(), in.size(), b, sizeof b);
        _exit(0);
    }
    int st = 0; while (waitpid(c, &st, 0) < 0) { }
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { label("deep nesting"); known_finding("C25-deep-print"); }
}
static uint64_t BT() { static uint64_t b = boundary_total(); return b; }
uint64_t pbt_exhaustive_total() { return 2 + 256 + BT(); }
// Every error and type has a name of its own, where names are built in.
static void names_case() {
    std::vector<std::string> ns; for (int e : {mpack_ok, mpack_error_io, mpack_error_invalid, mpack_error_unsupported, mpack_error_type, mpack_error_too_big, mpack_error_memory, mpack_error_bug, mpack_error_data, mpack_error_eof}) ns.push_back(mpack_error_to_string((mpack_error_t)e));
    std::vector<std::string> ts; for (int t : {mpack_type_missing, mpack_type_nil, mpack_type_bool, mpack_type_int, mpack_type_uint, mpack_type_float, mpack_type_double, mpack_type_str, mpack_type_bin, mpack_type_array, mpack_type_map}) ts.push_back(mpack_type_to_string((mpack_type_t)t));
#if MPACK_EXTENSIONS
    ts.push_back(mpack_type_to_string(mpack_type_ext));
#endif
    ns.insert(ns.end(), ts.begin(), ts.end());
    for (size_t i = 0; i < ns.size(); i++) { CHECK(ns[i].empty() == !MPACK_STRINGS, "name %zu is \"%s\"", i, ns[i].c_str()); for (size_t j = 0; MPACK_STRINGS && j < i; j++) CHECK(ns[i] != ns[j], "names %zu and %zu are both %s", j, i, ns[i].c_str()); }
}
void pbt::property_case() {
    int64_t ex = enumerated();
    if (ex >= 0) {
        if (ex < 2) { deep_case(ex == 1); return; }
        if (ex < 258) { Bytes b(1, (char)(ex - 2)); size_t k = (size_t)draw(6); b += gen_bytes(k); message_case(b); return; }
        Value v = boundary_value((uint64_t)ex - 258); if (v.k == EXT && !EXTS) v = mk(NIL); message_case(enc(v)); return;
    }
    switch (draw(8)) {
    case 0: if (chance(1, 50)) names_case(); tag_case(); break;
    case 1: message_case(gen_deep((size_t)draw(150), coin())); break;
    case 2: case 3: message_case(gen_wire(400, EXTS)); break;
    case 4: { GenOpt o; o.ext = EXTS; o.max_nodes = 200; o.max_depth = 8; message_case(enc(gen_value(o))); break; }
    default: { GenOpt o; o.ext = EXTS; o.overlong = coin(); if (chance(1, 6)) o.max_len = 4000; Value v = gen_value(o); if (o.overlong) set_overlong(v, EXTS); Bytes b = enc(v); if (chance(1, 6)) b += gen_bytes(1 + (size_t)draw(50)); if (chance(1, 6)) b.resize((size_t)draw(b.size())); message_case(b); }
    }
}
