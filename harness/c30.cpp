// C30: misuse the library detects in every build ends in the bug error, once,
// and is not acted upon; the nearest valid call is accepted.
#include "drv.h"
#include "files.h"
#include <fcntl.h>
#include <limits.h>
#include <setjmp.h>
using namespace pbt;
const char* pbt::harness_name = "c30";
struct Ctx { Bytes out; size_t calls = 0; int errs = 0; mpack_error_t first = mpack_ok; bool jump = false; };
static Ctx* C; static jmp_buf jb;
static void sink_flush(mpack_writer_t*, const char* p, size_t n) { C->calls++; C->out.append(p, n); }
template <class T> static void on_error(T*, mpack_error_t e) { C->errs++; CHECK(C->errs == 1, "error callback called %d times", C->errs); C->first = e; if (C->jump) longjmp(jb, 1); }
static size_t no_fill(mpack_reader_t*, char*, size_t) { fail("fill function of a misused reader called"); }
static void no_flush(mpack_writer_t*, const char*, size_t) { fail("flush function of a misused writer called"); }
static mpack_error_t some_error() { return pick({mpack_error_io, mpack_error_invalid, mpack_error_type, mpack_error_too_big, mpack_error_memory, mpack_error_data}); }
// What must hold right after a misuse of an object that was in state `before`.
static void verdict(const char* what, mpack_error_t before, mpack_error_t now, int breaks0, bool watched) {
    if (before != mpack_ok) { CHECK(now == before, "%s changed the error %s to %s", what, err_name(before), err_name(now)); CHECK(!C->errs, "%s called the error callback of an object already in error %s", what, err_name(before)); label("already-in-error"); return; }
    CHECK(now == mpack_error_bug, "%s: error %s, expected bug", what, err_name(now));
    if (watched) CHECK(C->errs == 1 && C->first == mpack_error_bug, "%s: error callback called %d times (%s)", what, C->errs, err_name(C->first));
    CHECK((vt.breaks > breaks0) == (MPACK_DEBUG != 0), "%s: %d debug breaks in a %s build", what, vt.breaks - breaks0, MPACK_DEBUG ? "debug" : "release");
}
// ---- writers
static Value small_value() { GenOpt go; go.max_len = 40; go.ext = false; return gen_value(go); }
static void writer_case(Ctx& c) {
    int kind = (int)draw(3); // fixed, flushed, growable
    size_t cap = kind == 0 ? 70000 : MPACK_WRITER_MINIMUM_BUFFER_SIZE + (size_t)draw(100);
    Box b(cap); char* data = nullptr; size_t size = 99; static mpack_writer_t w;
    int mis = (int)draw(10);
    if (mis == 0) { // a flush function over a buffer that is too small, or just large enough
        size_t n = chance(1, 3) ? MPACK_WRITER_MINIMUM_BUFFER_SIZE - 1 + (size_t)draw(2) : (size_t)draw(MPACK_WRITER_MINIMUM_BUFFER_SIZE + 3);
        Box s(n); mpack_writer_init(&w, s.p, n); if (coin()) mpack_writer_set_error_handler(&w, on_error); bool watched = w.error_fn != nullptr; int b0 = vt.breaks; note("set_flush with %zu bytes", n);
        c.jump = false; mpack_writer_set_flush(&w, n < MPACK_WRITER_MINIMUM_BUFFER_SIZE ? no_flush : sink_flush);
        if (n >= MPACK_WRITER_MINIMUM_BUFFER_SIZE) { CHECK(mpack_writer_error(&w) == mpack_ok && vt.breaks == b0, "set_flush with %zu bytes: %s", n, err_name(mpack_writer_error(&w))); mpack_write_u32(&w, 70000); CHECK(mpack_writer_destroy(&w) == mpack_ok && c.out.size() == 5, "writer with the minimum buffer"); label("just-valid"); return; }
        verdict("mpack_writer_set_flush() with a small buffer", mpack_ok, mpack_writer_error(&w), b0, watched);
        for (int i = 0; i < 9; i++) mpack_write_u64(&w, ~0ull);
        CHECK(mpack_writer_destroy(&w) == mpack_error_bug && !c.calls, "misused writer delivered something"); nontrivial(n); return;
    }
    if (kind == 2) mpack_writer_init_growable(&w, &data, &size); else mpack_writer_init(&w, b.p, b.n);
    if (kind == 1) mpack_writer_set_flush(&w, sink_flush);
    bool watched = chance(2, 3); c.jump = watched && chance(1, 3); if (watched) mpack_writer_set_error_handler(&w, on_error);
    EmitOpt eo; eo.builders = coin(); Bytes want; size_t n = (size_t)draw(4);
    for (size_t i = 0; i < n; i++) { Value v = small_value(); emit(&w, v, eo); ref_encode(v, want); }
    CHECK(mpack_writer_error(&w) == mpack_ok, "valid writes ended in %s", err_name(mpack_writer_error(&w)));
    // open what the misuse needs
    size_t depth = 0; bool maps[5]; bool opens = mis >= 2 && mis <= 5;
    if (opens) {
        size_t d = 1 + (size_t)draw(4);
        for (size_t i = 0; i < d; i++) {
            if (i && maps[i - 1]) mpack_write_int(&w, (int64_t)i);
            maps[i] = coin(); if (maps[i]) mpack_build_map(&w); else mpack_build_array(&w); depth++;
            for (size_t k = (size_t)draw(4); k; k--) { if (maps[i]) mpack_write_cstr(&w, "some key"); Value v = small_value(); emit(&w, v, eo); }
        }
        if (mis == 4 && !maps[depth - 1]) mis = 5; // (an odd number of elements takes a map)
    }
    CHECK(mpack_writer_error(&w) == mpack_ok, "valid writes ended in %s", err_name(mpack_writer_error(&w)));
    mpack_error_t before = mpack_ok;
    if (chance(1, 6)) { before = some_error(); bool j = c.jump; c.jump = false; mpack_writer_flag_error(&w, before); c.jump = j; if (watched) CHECK(c.errs == 1, "flag_error did not call the callback"); c.errs = 0; }
    size_t delivered = c.out.size(); int b0 = vt.breaks; static const char* what; static bool ended, valid; static mpack_error_t final; what = "?"; ended = valid = false; final = mpack_ok;
    if (setjmp(jb) == 0) switch (mis) {
    case 1: if (kind == 0) { what = "mpack_writer_flush_message() without a flush function"; mpack_writer_flush_message(&w); break; } // fallthrough
    case 6: what = "writing a missing tag"; { mpack_tag_t t = MPACK_TAG_ZERO; mpack_write_tag(&w, t); } break;
    case 2: what = "mpack_writer_flush_message() with a build open"; mpack_writer_flush_message(&w); break;
    case 3: what = "mpack_writer_destroy() with a build open"; ended = true; final = mpack_writer_destroy(&w); break;
    case 4: what = "completing a map after an odd number of elements"; mpack_write_int(&w, 5); mpack_complete_map(&w); break;
    case 5: what = "completing a container with an unfinished one inside";
        if (maps[depth - 1]) mpack_write_nil(&w);
        if (coin()) mpack_start_array(&w, 1 + (uint32_t)draw(3)); else mpack_start_map(&w, 1 + (uint32_t)draw(3));
        if (maps[depth - 1]) mpack_complete_map(&w); else mpack_complete_array(&w); break;
    case 7: { uint32_t ns = chance(1, 2) ? 999999998u + (uint32_t)draw(4) : (uint32_t)draw(0); int64_t s = (int64_t)draw(0); what = "a timestamp out of range"; valid = ns <= 999999999u; mpack_write_timestamp(&w, s, ns); if (valid && before == mpack_ok) ref_encode(mk_data(EXT, ts_payload(s, ns), -1), want); break; }
    case 8: mpack_writer_set_version(&w, mpack_version_v4); what = "an extension in v4 mode"; if (coin()) mpack_start_ext(&w, (int8_t)draw(256), (uint32_t)draw(0)); else mpack_write_ext(&w, 1, "abc", (uint32_t)draw(4)); break;
    default: mpack_writer_set_version(&w, mpack_version_v4); what = "a timestamp in v4 mode"; mpack_write_timestamp_seconds(&w, (int64_t)draw(0)); break;
    } else if (ended) final = mpack_writer_error(&w), ended = false; // (jumped out of destroy: it is to be called again)
    note("%s, kind %d depth %zu before %s watched %d jump %d", what, kind, depth, err_name(before), watched, c.jump);
    if (valid) {
        CHECK(mpack_writer_error(&w) == before && vt.breaks == b0, "%s that is not: %s", what, err_name(mpack_writer_error(&w)));
        mpack_error_t e = mpack_writer_destroy(&w); CHECK(e == before, "destroy: %s", err_name(e)); if (data) vt_free(data); label("just-valid"); return;
    }
    verdict(what, before, ended ? final : mpack_writer_error(&w), b0, watched);
    CHECK(c.out.size() == delivered, "%s delivered %zu bytes", what, c.out.size() - delivered);
    if (!ended) { c.jump = false; if (coin()) { mpack_write_nil(&w); mpack_write_cstr(&w, "after the misuse"); } mpack_error_t e = mpack_writer_destroy(&w); CHECK(e == (before == mpack_ok ? mpack_error_bug : before), "%s: destroy returned %s", what, err_name(e)); }
    CHECK(c.out.size() == delivered, "%s: a writer in error state delivered %zu bytes", what, c.out.size() - delivered);
    CHECK(want.compare(0, delivered, c.out) == 0, "%s: delivered bytes are not what was written", what);
    CHECK(!data && (kind != 2 || size == 0), "%s: the growable writer returned %zu bytes", what, size);
    nontrivial(hash_mix(hash_mix((uint64_t)mis * 100 + (uint64_t)kind * 10 + depth, want.size()), (uint64_t)before * 4 + watched * 2 + c.jump));
    label(what);
}
// ---- readers
static void reader_case(Ctx& c) {
    static mpack_reader_t r; int mis = (int)draw(4); bool watched = coin(); int b0 = vt.breaks;
    if (mis == 0) {
        Bytes d = enc(small_value()); Box b(d); size_t n = chance(1, 4) ? 0 : chance(1, 3) ? MPACK_READER_MINIMUM_BUFFER_SIZE - 1 + (size_t)draw(2) : 1 + (size_t)draw(MPACK_READER_MINIMUM_BUFFER_SIZE + 2); Box s(n);
        Source src = gen_source(b);
        if (n == 0) mpack_reader_init_data(&r, b.p, b.n); else mpack_reader_init(&r, s.p, n, 0);
        if (watched) mpack_reader_set_error_handler(&r, on_error);
        mpack_reader_set_context(&r, &src); note("set_fill with %zu bytes", n);
        bool ok = n >= MPACK_READER_MINIMUM_BUFFER_SIZE; mpack_reader_set_fill(&r, ok ? source_fill : no_fill);
        if (ok) { CHECK(mpack_reader_error(&r) == mpack_ok && vt.breaks == b0, "set_fill with %zu bytes: %s", n, err_name(mpack_reader_error(&r))); mpack_discard(&r); mpack_error_t e = mpack_reader_destroy(&r); CHECK(e == mpack_ok, "reader with a buffer of %zu: %s", n, err_name(e)); label("just-valid"); return; }
        verdict("mpack_reader_set_fill() without a large enough buffer", mpack_ok, mpack_reader_error(&r), b0, watched);
        mpack_tag_t t = mpack_read_tag(&r); CHECK(t.type == mpack_type_nil, "read from a misused reader"); CHECK(mpack_reader_destroy(&r) == mpack_error_bug, "destroy"); nontrivial(n); return;
    }
    std::vector<Value> vs; size_t n = (size_t)draw(4); for (size_t i = 0; i < n; i++) vs.push_back(small_value());
    Value last = mis == 1 ? (coin() ? mk(UINT, draw(20)) : small_value()) : coin() ? mk_data(STR, gen_textish(gen_len(30, false))) : small_value();
    Bytes d; for (auto& v : vs) ref_encode(v, d); ref_encode(last, d);
    Box b(d); bool stream = coin(); Box buf(MPACK_READER_MINIMUM_BUFFER_SIZE + (size_t)draw(60)); Source src = gen_source(b);
    if (stream) { mpack_reader_init(&r, buf.p, buf.n, 0); mpack_reader_set_context(&r, &src); mpack_reader_set_fill(&r, source_fill); } else mpack_reader_init_data(&r, b.p, b.n);
    c.jump = watched && coin(); if (watched) mpack_reader_set_error_handler(&r, on_error);
    for (size_t i = 0; i < n; i++) mpack_discard(&r);
    CHECK(mpack_reader_error(&r) == mpack_ok, "valid reads ended in %s", err_name(mpack_reader_error(&r)));
    mpack_error_t before = mpack_ok; if (chance(1, 6)) { before = some_error(); bool j = c.jump; c.jump = false; mpack_reader_flag_error(&r, before); c.jump = j; c.errs = 0; }
    static const char* what; what = "?"; static size_t key; static char* p; key = 0; p = nullptr; static bool found[1]; found[0] = false;
    static bool bad; bad = false;
    if (setjmp(jb) == 0) switch (mis) {
    case 1: what = "mpack_expect_key_uint() without keys"; key = mpack_expect_key_uint(&r, found, 0); bad = key != 0 || found[0]; break;
    case 2: what = "mpack_expect_cstr_alloc() with size zero"; p = mpack_expect_cstr_alloc(&r, 0); bad = p != nullptr; break;
    default: what = "mpack_expect_utf8_cstr_alloc() with size zero"; p = mpack_expect_utf8_cstr_alloc(&r, 0); bad = p != nullptr; break;
    }
    note("%s before %s watched %d jump %d", what, err_name(before), watched, c.jump);
    CHECK(!bad, "%s returned something", what);
    verdict(what, before, mpack_reader_error(&r), b0, watched); c.jump = false;
    CHECK(mpack_read_tag(&r).type == mpack_type_nil, "read after %s", what);
    mpack_error_t e = mpack_reader_destroy(&r); CHECK(e == (before == mpack_ok ? mpack_error_bug : before), "%s: destroy returned %s", what, err_name(e));
    nontrivial(hash_mix(hash_bytes(d.data(), d.size()), (uint64_t)mis * 100 + (uint64_t)before * 4 + watched * 2 + stream)); label(what);
}
// ---- trees
static void tree_case(Ctx& c) {
    static mpack_tree_t t; int mis = (int)draw(5); bool watched = coin(); int b0 = vt.breaks;
    Value v = mis >= 3 ? mk_data(STR, gen_textish(gen_len(30, false))) : small_value(); if (mis >= 3 && chance(1, 4)) v = small_value();
    Bytes d = enc(v); Box b(d); static const char* what; what = "?";
    if (mis == 0) {
        size_t nodes = (size_t)draw(3); mpack_node_data_t* pool = (mpack_node_data_t*)malloc(sizeof(mpack_node_data_t) * 3); Value s = mk(UINT, 7); Box one(enc(s));
        mpack_tree_init_pool(&t, one.p, one.n, pool, nodes); note("pool of %zu", nodes);
        if (nodes) { mpack_tree_parse(&t); bool good = mpack_tree_error(&t) == mpack_ok && mpack_node_u8(mpack_tree_root(&t)) == 7; mpack_error_t e = mpack_tree_destroy(&t); free(pool); CHECK(good && e == mpack_ok && vt.breaks == b0, "a pool of %zu nodes: %s", nodes, err_name(e)); label("just-valid"); return; }
        verdict("mpack_tree_init_pool() without nodes", mpack_ok, mpack_tree_error(&t), b0, false);
        mpack_tree_parse(&t); bool nil = mpack_node_is_nil(mpack_tree_root(&t)); mpack_error_t e = mpack_tree_destroy(&t); free(pool); CHECK(nil && e == mpack_error_bug, "parsed without nodes: %s", err_name(e)); nontrivial(1); return;
    }
#if MPACK_STDIO
    if (mis == 1 && sizeof(size_t) >= sizeof(long)) {
        std::string path = scratch_path("misuse.mp"); FILE* f = fopen(path.c_str(), "wb"); fwrite(b.p, 1, b.n, f); fclose(f);
        size_t max = chance(1, 3) ? (size_t)LONG_MAX : chance(1, 2) ? (size_t)LONG_MAX + 1 : (size_t)LONG_MAX + 1 + (size_t)draw((uint64_t)LONG_MAX); bool ok = max <= (size_t)LONG_MAX; note("max_bytes %zu", max);
        bool closes = false, byname = coin(); f = nullptr;
        if (byname) mpack_tree_init_filename(&t, path.c_str(), max); else { f = fopen(path.c_str(), "rb"); closes = coin(); int fd = fileno(f); mpack_tree_init_stdfile(&t, f, max, closes); CHECK((fcntl(fd, F_GETFD) == -1) == closes, "file closed: %d, asked for: %d", !closes, closes); }
        long pos = f && !closes ? ftell(f) : 0; if (f && !closes) fclose(f); remove(path.c_str());
        if (ok) { mpack_tree_parse(&t); mpack_error_t e = mpack_tree_destroy(&t); CHECK(e == mpack_ok && vt.breaks == b0, "tree of a file with max_bytes LONG_MAX: %s", err_name(e)); label("just-valid"); return; }
        what = "a file tree with max_bytes above LONG_MAX"; verdict(what, mpack_ok, mpack_tree_error(&t), b0, false);
        CHECK(pos == 0, "%s moved the file position to %ld", what, pos);
        CHECK(mpack_tree_destroy(&t) == mpack_error_bug, "%s: destroy", what); nontrivial(hash_mix(2, max)); label(what); return;
    }
#endif
    bool stream = coin(); Source src = gen_source(b); size_t have = d.size(); bool part = mis <= 2 && stream && chance(1, 2);
    if (part) { have = (size_t)draw(d.size()); src.n = have; }
    if (stream) mpack_tree_init_stream(&t, source_tree_read, &src, 1 << 20, 10000); else mpack_tree_init_data(&t, b.p, b.n);
    c.jump = watched && coin(); if (watched) mpack_tree_set_error_handler(&t, on_error);
    if (mis >= 3) { mpack_tree_parse(&t); CHECK(mpack_tree_error(&t) == mpack_ok, "valid message: %s", err_name(mpack_tree_error(&t))); }
    else if (part) { for (int i = 0; i < 3; i++) { bool got = mpack_tree_try_parse(&t); CHECK(!got && mpack_tree_error(&t) == mpack_ok, "%zu of %zu bytes parsed", have, d.size()); } label("partly-parsed"); }
    mpack_error_t before = mpack_ok; if (chance(1, 6)) { before = some_error(); bool j = c.jump; c.jump = false; mpack_tree_flag_error(&t, before); c.jump = j; c.errs = 0; }
    static bool bad; bad = false;
    if (setjmp(jb) == 0) switch (mis) {
    case 3: what = "mpack_node_cstr_alloc() with size zero"; bad = mpack_node_cstr_alloc(mpack_tree_root(&t), 0) != nullptr; break;
    case 4: what = "mpack_node_utf8_cstr_alloc() with size zero"; bad = mpack_node_utf8_cstr_alloc(mpack_tree_root(&t), 0) != nullptr; break;
    default: what = "mpack_tree_root() of a tree that is not parsed"; { mpack_node_t n = mpack_tree_root(&t); bad = mpack_node_type(n) != mpack_type_nil; } break;
    }
    note("%s before %s watched %d jump %d", what, err_name(before), watched, c.jump);
    CHECK(!bad, "%s returned something", what);
    verdict(what, before, mpack_tree_error(&t), b0, watched); c.jump = false;
    CHECK(!mpack_tree_try_parse(&t), "parsed after %s", what); CHECK(mpack_node_type(mpack_tree_root(&t)) == mpack_type_nil, "root after %s", what);
    mpack_error_t e = mpack_tree_destroy(&t); CHECK(e == (before == mpack_ok ? mpack_error_bug : before), "%s: destroy returned %s", what, err_name(e));
    nontrivial(hash_mix(hash_bytes(d.data(), have), (uint64_t)mis * 100 + (uint64_t)before * 4 + watched * 2 + stream)); label(what);
}
void pbt::property_case() {
    (void)enumerated(); vt.allow_break = true; Ctx c; C = &c;
    switch (draw(4)) { case 0: reader_case(c); break; case 1: tree_case(c); break; default: writer_case(c); }
}
