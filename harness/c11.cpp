// C11: every allocation may fail; the failure is reported, nothing is
// corrupted, nothing leaks and nothing is freed twice.
#include "treecmp.h"
#include "files.h"
#include <setjmp.h>
#include <dirent.h>
#include <sys/mman.h>
using namespace pbt;
const char* pbt::harness_name = "c11";
static const int SCEN = 10, FAILS = 24;
static const int HUGE_CASES = 16;
uint64_t pbt_exhaustive_total() { return (uint64_t)SCEN * FAILS * 2 * 2 + HUGE_CASES; }
static jmp_buf jb; static int errs; static mpack_error_t first; static bool jump;
static void note_error(mpack_error_t e, mpack_error_t cur) { errs++; first = e; CHECK(errs == 1, "error callback called twice"); CHECK(cur == e, "callback got %s, the error is %s", err_name(e), err_name(cur)); if (jump) longjmp(jb, 1); }
static void w_err(mpack_writer_t* w, mpack_error_t e) { note_error(e, mpack_writer_error(w)); }
static void r_err(mpack_reader_t* r, mpack_error_t e) { note_error(e, mpack_reader_error(r)); }
static void t_err(mpack_tree_t* t, mpack_error_t e) { note_error(e, mpack_tree_error(t)); }
static void verdict(mpack_error_t e, const char* what) {
    if (vt.nfailed == 0) CHECK(e == mpack_ok, "%s ended in %s although no allocation failed", what, err_name(e));
    else CHECK(e == mpack_ok || e == mpack_error_memory, "%s ended in %s after an allocation failed", what, err_name(e));
    label(vt.nfailed == 0 ? "no-failure" : e == mpack_ok ? "survived" : "reported");
}
static int open_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
struct Sink { Bytes out; };
static void sink_flush(mpack_writer_t* w, const char* p, size_t n) { CHECK(mpack_writer_error(w) == mpack_ok, "flush in error state"); ((Sink*)mpack_writer_context(w))->out.append(p, n); }
static void arm(int64_t ex) { if (ex >= 0) { vt.fail_at = 1 + (long)((ex / SCEN) % FAILS); vt.fail_forever = (ex / (SCEN * FAILS)) & 1; jump = (ex / (SCEN * FAILS * 2)) & 1; } else { vt.fail_at = 1 + (long)(chance(1, 4) ? draw(60) : draw(8)); vt.fail_forever = coin(); jump = coin(); if (chance(1, 20)) vt.fail_at = 0; } }
static Value* V; static Bytes* want; static EmitOpt* eo;

static void writer(int kind) {
    static mpack_writer_t w; static char* d; static size_t n; d = (char*)1; n = 1; static Sink s; s = Sink(); static CookieOut* k; k = nullptr; static FILE* f; static std::string* path; path = nullptr; static int fds; fds = open_fds(); static mpack_error_t e;
    switch (kind) {
    case 0: mpack_writer_init_growable(&w, &d, &n); break;
    case 1: { size_t c = MPACK_WRITER_MINIMUM_BUFFER_SIZE + (size_t)draw(60); mpack_writer_init(&w, (char*)memset(malloc(c), 0, c), c); s.out.reserve(10); mpack_writer_set_context(&w, &s); mpack_writer_set_flush(&w, sink_flush); static char* keep; keep = w.buffer; (void)keep; break; }
    case 2: k = new CookieOut; f = open_cookie_out(k, 0); mpack_writer_init_stdfile(&w, f, true); break;
    default: path = new std::string(scratch_path("c11")); mpack_writer_init_filename(&w, path->c_str()); break;
    }
    static char* own; own = kind == 1 ? w.buffer : nullptr;
    static bool init_err; init_err = mpack_writer_error(&w) != mpack_ok;
    mpack_writer_set_error_handler(&w, w_err);
    if (setjmp(jb) == 0) emit(&w, *V, *eo);
    if (setjmp(jb) == 0) e = mpack_writer_destroy(&w); else { if (setjmp(jb)) fail("error callback during the second destroy"); e = mpack_writer_destroy(&w); CHECK(e != mpack_ok, "error lost"); }
    verdict(e, "writer");
    CHECK(errs == (e != mpack_ok && !init_err), "error callback called %d times", errs);
    if (kind == 0) {
        if (e == mpack_ok) { CHECK(d && vt_is_live(d) && n == want->size() && memcmp(d, want->data(), n) == 0, "a growable writer succeeded with wrong data"); vt_free(d); }
        else CHECK(d == NULL && n == 0, "a failed growable writer handed out %p size %zu", (void*)d, n);
    } else {
        Bytes got = kind == 1 ? s.out : Bytes();
        if (kind == 2) { CHECK(k->closed, "the FILE was not closed"); got = k->data; delete k; }
        if (kind == 3) { read_file(*path, got); unlink(path->c_str()); delete path; }
        if (e == mpack_ok) CHECK(got == *want, "writer succeeded with wrong output"); else CHECK(want->compare(0, got.size(), got) == 0, "output of a failed writer is not a prefix of the message");
    }
    free(own);
    CHECK(open_fds() == fds, "a file was left open");
}
static bool alloc_reads(mpack_reader_t* r, const Value& v) { // typed allocating reads of a known message; false on error
    using namespace pbt;
    switch (v.k) {
    case STR: { size_t m = v.s.size() + 1 + (size_t)draw(50); bool txt = v.s.find('\0') == Bytes::npos; if (!txt || v.s.empty()) { uint32_t n = mpack_expect_str(r); if (n && mpack_reader_error(r) == mpack_ok) { char* p = mpack_read_bytes_alloc(r, n); if (!p) return false; CHECK(memcmp(p, v.s.data(), n) == 0, "wrong data"); vt_free(p); } mpack_done_str(r); return mpack_reader_error(r) == mpack_ok; }
        char* p = coin() && ref_utf8((const uint8_t*)v.s.data(), v.s.size()) ? mpack_expect_utf8_cstr_alloc(r, m) : mpack_expect_cstr_alloc(r, m); if (!p) return false; CHECK(v.s == p, "wrong string"); CHECK(vt_size(p) >= v.s.size() + 1, "block too small"); vt_free(p); return mpack_reader_error(r) == mpack_ok; }
    case BIN: { size_t n = 99; char* p = mpack_expect_bin_alloc(r, v.s.size() + 5, &n); if (!p) { if (mpack_reader_error(r) == mpack_ok) CHECK(v.s.empty() && n == 0, "NULL without error"); else CHECK(n == 0, "size %zu on error", n); return mpack_reader_error(r) == mpack_ok; } CHECK(Bytes(p, n) == v.s, "wrong data"); vt_free(p); return mpack_reader_error(r) == mpack_ok; }
#if MPACK_EXTENSIONS
    case EXT: { if (v.et == -1) { mpack_discard(r); return mpack_reader_error(r) == mpack_ok; } size_t n = 99; int8_t t = 77; char* p = mpack_expect_ext_alloc(r, &t, v.s.size() + 5, &n); if (!p) { if (mpack_reader_error(r) == mpack_ok) CHECK(v.s.empty() && n == 0 && t == v.et, "NULL without error"); else CHECK(n == 0 && t == 0, "size %zu type %d on error", n, t); return mpack_reader_error(r) == mpack_ok; } CHECK(Bytes(p, n) == v.s && t == v.et, "wrong data"); vt_free(p); return mpack_reader_error(r) == mpack_ok; }
#endif
    case ARR: {
        if (coin()) { uint32_t n = 99; bool plain = coin(); uint64_t* p = plain ? mpack_expect_array_alloc(r, uint64_t, 100000, &n) : mpack_expect_array_or_nil_alloc(r, uint64_t, 100000, &n); if (!p) { if (mpack_reader_error(r) != mpack_ok) { CHECK(n == 0, "count on error"); return false; } CHECK(n == 0 && v.c.empty(), "NULL without error"); if (plain) mpack_done_array(r); return mpack_reader_error(r) == mpack_ok; } CHECK(n == v.c.size(), "wrong count"); vt_free(p); }
        else if (mpack_expect_array(r) != v.c.size()) return false;
        if (mpack_reader_error(r) != mpack_ok) return false;
        for (auto& x : v.c) if (!alloc_reads(r, x)) return false;
        mpack_done_array(r); return mpack_reader_error(r) == mpack_ok; }
    case MAP: { (void)mpack_expect_map(r); if (mpack_reader_error(r) != mpack_ok) return false; for (auto& x : v.c) if (!alloc_reads(r, x)) return false; mpack_done_map(r); return mpack_reader_error(r) == mpack_ok; }
    default: mpack_discard(r); return mpack_reader_error(r) == mpack_ok;
    }
}
static void reader(int kind) {
    static mpack_reader_t r; static CookieIn* k; k = nullptr; static std::string* path; path = nullptr; static int fds; fds = open_fds(); static mpack_error_t e; static int reps, rep; rep = 0; reps = kind < 2 && chance(1, 3) ? 2 + (int)draw(3) : 1; static Box* b; { Bytes all; for (int i = 0; i < reps; i++) all += *want; b = new Box(all); } static Source s; static char* buf; buf = nullptr; static bool done; done = false;
    switch (kind) {
    case 0: mpack_reader_init_data(&r, b->p, b->n); break;
    case 1: { size_t c = MPACK_READER_MINIMUM_BUFFER_SIZE + (size_t)draw(60); buf = (char*)malloc(c); s = gen_source(*b); mpack_reader_init(&r, buf, c, 0); mpack_reader_set_context(&r, &s); mpack_reader_set_fill(&r, source_fill); if (coin()) mpack_reader_set_skip(&r, source_skip); break; }
    case 2: k = new CookieIn; k->data = *want; mpack_reader_init_stdfile(&r, open_cookie_in(k, 0), true); break;
    default: path = new std::string(scratch_path("c11")); write_file(*path, *want); mpack_reader_init_filename(&r, path->c_str()); break;
    }
    static bool init_err; init_err = mpack_reader_error(&r) != mpack_ok;
    mpack_reader_set_error_handler(&r, r_err);
    if (setjmp(jb) == 0) {
        switch (draw(3)) {
        case 0: { Value got; ReadOpt ro; ro.inplace = kind == 0; if (read_value(&r, got, ro)) { done = true; CHECK(eq(got, *V, true), "read %s, expected %s", show(got).c_str(), show(*V).c_str()); } break; }
        case 1: done = alloc_reads(&r, *V); break;
        default: mpack_discard(&r); done = mpack_reader_error(&r) == mpack_ok; break;
        }
        if (done) CHECK(vt.fail_forever == false || vt.nfailed == 0 || true, "-");
    }
    if (setjmp(jb)) fail("destroy called the error callback");
    mpack_error_t before; before = mpack_reader_error(&r); CHECK(done == (before == mpack_ok), "the reads %s but the error is %s", done ? "succeeded" : "failed", err_name(before));
    e = mpack_reader_destroy(&r);
    verdict(e, "reader");
    CHECK(errs == (e != mpack_ok && !init_err), "error callback called %d times", errs);
    if (k) { CHECK(k->closed, "the FILE was not closed"); delete k; }
    if (path) { unlink(path->c_str()); delete path; }
    free(buf); delete b;
    CHECK(open_fds() == fds, "a file was left open");
}
static void node_allocs(mpack_node_t n, const Value& v) {
    if (mpack_node_error(n) != mpack_ok) return;
    if (v.k == STR || v.k == BIN) {
        bool txt = v.k == STR && v.s.find('\0') == Bytes::npos; size_t m = v.s.size() + 1 + (size_t)draw(9); char* p; const char* w; bool z = false;
        switch (txt ? draw(3) : 0) { case 0: w = "data_alloc"; p = mpack_node_data_alloc(n, m); break; case 1: w = "cstr_alloc"; p = mpack_node_cstr_alloc(n, m); z = true; break;
            default: if (!ref_utf8((const uint8_t*)v.s.data(), v.s.size())) return; w = "utf8_cstr_alloc"; p = mpack_node_utf8_cstr_alloc(n, m); z = true; }
        if (!p) CHECK(mpack_node_error(n) == mpack_error_memory || (v.s.empty() && !z), "%s returned NULL with %s", w, err_name(mpack_node_error(n)));
        else { CHECK(mpack_node_error(n) == mpack_ok, "%s returned a block with %s", w, err_name(mpack_node_error(n))); CHECK(memcmp(p, v.s.data(), v.s.size()) == 0 && (!z || p[v.s.size()] == 0), "%s copied wrong data", w); vt_free(p); }
    }
    for (size_t i = 0; i < v.c.size(); i++) node_allocs(v.k == ARR ? mpack_node_array_at(n, i) : (i & 1) ? mpack_node_map_value_at(n, i / 2) : mpack_node_map_key_at(n, i / 2), v.c[i]);
}
static void tree(int kind) {
    static mpack_tree_t t; static CookieIn* k; k = nullptr; static std::string* path; path = nullptr; static int fds; fds = open_fds(); static mpack_error_t e; static int reps, rep; rep = 0; reps = kind < 2 && chance(1, 3) ? 2 + (int)draw(3) : 1; static Box* b; { Bytes all; for (int i = 0; i < reps; i++) all += *want; b = new Box(all); } static Source s; static bool ok; ok = false; static FILE* f; f = nullptr;
    size_t cap = want->size() + (size_t)draw(100);
    switch (kind) {
    case 0: mpack_tree_init_data(&t, b->p, b->n); break;
    case 1: s = gen_source(*b); mpack_tree_init_stream(&t, source_tree_read, &s, cap, 100000); break;
    default: path = new std::string(scratch_path("c11")); write_file(*path, *want); if (kind == 2) mpack_tree_init_filename(&t, path->c_str(), coin() ? 0 : cap); else { f = fopen(path->c_str(), "rb"); mpack_tree_init_stdfile(&t, f, coin() ? 0 : cap, true); } break;
    }
    static bool init_err; init_err = mpack_tree_error(&t) != mpack_ok;
    mpack_tree_set_error_handler(&t, t_err);
    if (setjmp(jb) == 0) {
      do { // (several messages one after another: the pages of each are released for the next)
        ok = false; if (coin()) mpack_tree_parse(&t); else while (!mpack_tree_try_parse(&t) && mpack_tree_error(&t) == mpack_ok) { }
        ok = mpack_tree_error(&t) == mpack_ok; if (ok && rep) label("later-message");
        if (ok) { cmp_tree(mpack_tree_root(&t), (const uint8_t*)want->data(), want->size(), NULL); CHECK(mpack_tree_size(&t) == want->size(), "tree size"); node_allocs(mpack_tree_root(&t), *V); }
      } while (++rep < reps && mpack_tree_error(&t) == mpack_ok);
    }
    if (setjmp(jb)) fail("error callback called after the error");
    if (mpack_tree_error(&t) != mpack_ok) { mpack_node_t n = mpack_tree_root(&t); CHECK(mpack_node_is_nil(n), "root is not nil in error state"); if (!ok) CHECK(mpack_tree_size(&t) == 0, "size %zu after a failed parse", mpack_tree_size(&t)); }
    e = mpack_tree_destroy(&t);
    verdict(e, "tree");
    CHECK(errs == (e != mpack_ok && !init_err), "error callback called %d times", errs);
    if (path) { unlink(path->c_str()); delete path; }
    delete b; CHECK(open_fds() == fds, "a file was left open");
}
// A blob of more than half of a 32-bit address space written to a growable
// writer whose allocator refuses anything over 64 MB.
static void huge_blob(int i) {
    uint64_t len = (const uint64_t[]){0x7fffff00u, 0x80000000u, 0x80000001u, 0x90000000u, 0x80000000u - 40, 0x80000000u + 4096, 0x70000000u, 0x88888888u}[i / 2]; bool nested = i & 1;
    char* p = (char*)mmap(NULL, (size_t)len, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { label("huge-no-map"); return; }
    note("growable writer, %s bin of %llu bytes", nested ? "second" : "only", (unsigned long long)len);
    vt.limit = 64u << 20; char* d = (char*)1; size_t n = 1; mpack_writer_t w; mpack_writer_init_growable(&w, &d, &n); mpack_writer_set_error_handler(&w, w_err);
    if (nested) { mpack_start_array(&w, 2); mpack_write_cstr(&w, "some text before the blob"); }
    mpack_write_bin(&w, p, (uint32_t)len);
    CHECK(mpack_writer_error(&w) == mpack_error_memory, "error %s, expected mpack_error_memory", err_name(mpack_writer_error(&w)));
    CHECK(mpack_writer_destroy(&w) == mpack_error_memory && d == NULL && n == 0 && errs == 1, "a failed growable writer handed out %p size %zu", (void*)d, n);
    munmap(p, (size_t)len); nontrivial(hash_mix(len, nested)); label("huge");
}
// fixed messages for the enumerated part: enough growth, pages and nesting
static Value arr(std::initializer_list<Value> l) { Value v = mk(ARR); v.c = l; return v; }
static Value fixed(int i) {
    Value big = mk_data(STR, Bytes(300, 'x')), v = mk(ARR);
    switch (i % 4) {
    case 0: for (int j = 0; j < 30; j++) v.c.push_back(mk_data(BIN, Bytes((size_t)j * 5, 'b'))); return v;
    case 1: for (int j = 0; j < 12; j++) v = arr({mk_data(STR, Bytes((size_t)j * 9, 'n')), v}); return v;
    case 2: for (int j = 0; j < 60; j++) v.c.push_back(arr({arr({}), mk(UINT, (uint64_t)j)})); return v;
    default: v = mk(MAP); for (int j = 0; j < 14; j++) { v.c.push_back(mk(UINT, (uint64_t)j)); v.c.push_back(arr({big, arr({arr({}), mk(NIL)})})); } return v;
    }
}
void pbt::property_case() {
    int64_t ex = enumerated();
    if (ex >= (int64_t)SCEN * FAILS * 4) { errs = 0; jump = false; huge_blob((int)(ex - (int64_t)SCEN * FAILS * 4)); return; }
    GenOpt go;
#if !MPACK_EXTENSIONS
    go.ext = false;
#endif
    if (chance(1, 5)) { go.max_len = 6000; }
    if (chance(1, 5)) { go.max_nodes = 300; go.max_depth = 8; }
    errs = 0; first = mpack_ok;
    V = new Value(ex >= 0 ? fixed((int)ex) : gen_value(go)); want = new Bytes(enc(*V)); eo = new EmitOpt; eo->builders = coin(); eo->all_builders = eo->builders && coin(); eo->generics = coin();
    if (ex >= 0) { eo->builders = eo->all_builders = true; eo->plain = true; }
    arm(ex);
    int sc = ex >= 0 ? (int)(ex % SCEN) : (int)draw(SCEN);
    note("scenario %d fail_at %ld forever %d jump %d", sc, vt.fail_at, vt.fail_forever, jump); note("%s", show(*V).c_str());
    switch (sc) { case 0: case 1: case 2: case 3: writer(sc); break; case 4: reader(0); break; case 5: reader(1); break; case 6: reader(coin() ? 2 : 3); break; case 7: tree(0); break; case 8: tree(1); break; default: tree(coin() ? 2 : 3); }
    if (vt.nfailed) nontrivial(hash_mix(hash_value(*V), (uint64_t)sc * 1000 + (uint64_t)vt.fail_at * 4 + vt.fail_forever * 2 + jump));
    delete V; delete want; delete eo;
}
