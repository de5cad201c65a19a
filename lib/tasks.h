// Tasks: each works on objects of its own, takes its decisions from a script and logs everything it
// observes. Used by C29 (alone and beside others) and C33 (in memory with different contents).
// The including harness defines EXTS, OBJ(type, name), which declares an object, and y(), called at every hand-over point.
#pragma once
#include "ops.h"
#include "files.h"
#include <sys/mman.h>
static const int KINDS = 17;
static const char* const KIND[KINDS] = {"growable writer", "writer with flush", "fixed writer", "writer to a file", "random writer calls", "reader of values", "typed reader", "random reader calls", "tree of a stream", "tree of a block", "random node calls", "pool tree", "printing", "file reader", "failing objects", "every call", "named files"};
struct Task { int kind; std::vector<uint64_t> script; std::vector<Value> vs; Bytes in; };
struct Log { Bytes s; size_t n = 0; void put(const char* what, const void* p = "", size_t k = 0, uint64_t x = 0) { char b[80]; snprintf(b, sizeof b, "%s(%zu,%llx", what, k, (unsigned long long)x); s += b; if (k) { s += ":"; if (k <= 40) s += hex(p, k, 40); else { snprintf(b, sizeof b, "#%llx", (unsigned long long)hash_bytes(p, k)); s += b; } } s += ") "; n++; } };

// --- callbacks ---------------------------------------------------------------
static size_t fill(mpack_reader_t* r, char* b, size_t n) { y(); size_t k = source_fill(r, b, n); y(); return k; }
static void skip(mpack_reader_t* r, size_t n) { y(); source_skip(r, n); }
static size_t tread(mpack_tree_t* t, char* b, size_t n) { y(); size_t k = source_tree_read(t, b, n); y(); return k; }
struct Sink { Log* L; };
static void wflush(mpack_writer_t* w, const char* p, size_t n) { y(); Sink* s = (Sink*)mpack_writer_context(w); s->L->put("flush", p, n); y(); }
static void between(mpack_writer_t* w, void* c) { y(); ((Log*)c)->put("", "", 0, mpack_writer_buffer_used(w)); }
static void rerr(mpack_reader_t* r, mpack_error_t e) { ((Log*)mpack_reader_context(r))->put("callback", "", 0, (uint64_t)e); y(); }
#if MPACK_DEBUG && MPACK_STDIO
static void pr(void* c, const char* d, size_t n) { y(); ((Bytes*)c)->append(d, n); }
#endif
static void put_value(Log& L, const Value& v) { Bytes b = enc(v); L.put("value", b.data(), b.size(), hash_value(v)); }
static void node_log(mpack_tree_t* t, Log& L) { Value v; const char* why = nullptr; if (node_value(mpack_tree_root(t), v, &why)) put_value(L, v); else L.put("unreadable", why, why ? strlen(why) : 0); L.put("size", "", 0, mpack_tree_size(t)); }

static thread_local Log* cur;
static void on_werr(mpack_writer_t*, mpack_error_t e) { cur->put("error", "", 0, (uint64_t)e); y(); }
static void on_rerr(mpack_reader_t*, mpack_error_t e) { cur->put("error", "", 0, (uint64_t)e); y(); }
static void on_terr(mpack_tree_t*, mpack_error_t e) { cur->put("error", "", 0, (uint64_t)e); y(); }
static void on_wtear(mpack_writer_t*) { cur->put("teardown"); } static void on_rtear(mpack_reader_t*) { cur->put("teardown"); } static void on_ttear(mpack_tree_t*) { cur->put("teardown"); }
static void dress(mpack_writer_t* w, bool tear) {
    if (chance(1, 3)) mpack_writer_set_error_handler(w, on_werr); if (tear && chance(1, 4)) mpack_writer_set_teardown(w, on_wtear);
#if MPACK_COMPATIBILITY
    if (chance(1, 6)) mpack_writer_set_version(w, mpack_version_v4);
#endif
}
static void dress(mpack_reader_t* r, bool tear) { if (chance(1, 3)) mpack_reader_set_error_handler(r, on_rerr); if (tear && chance(1, 4)) mpack_reader_set_teardown(r, on_rtear); }
static void dress(mpack_tree_t* t, bool tear) { if (chance(1, 3)) mpack_tree_set_error_handler(t, on_terr); if (tear && chance(1, 4)) mpack_tree_set_teardown(t, on_ttear); if (chance(1, 6)) mpack_tree_set_limits(t, 1 + (size_t)draw(300), 1 + (size_t)draw(40)); }
static void run_task(const Task& k, Log& L) {
    cur = &L; DrawScript ds = {k.script.data(), k.script.size(), 0}; draw_script = &ds;
    vt.allow_break = true; vt.on_alloc = y; op_name = "none"; scratch_clear();
    EmitOpt eo; eo.builders = coin(); eo.between = between; eo.ctx = &L;
    if (chance(1, 8)) { vt.fail_at = 1 + (long)draw(12); vt.fail_forever = coin(); if (k.kind == 3 || (k.kind >= 5 && k.kind <= 6) || k.kind == 13) vt.fail_at = 0; }
    switch (k.kind) {
    case 0: case 4: {
        char* d = nullptr; size_t n = 0; OBJ(mpack_writer_t, w); mpack_writer_init_growable(&w, &d, &n); dress(&w, false); y();
        if (k.kind == 0) for (auto& v : k.vs) { emit(&w, v, eo); y(); }
        else for (size_t i = 0; i < k.script.size() / 2; i++) { writer_op(&w); L.put(op_name, "", 0, (uint64_t)mpack_writer_error(&w)); y(); }
        mpack_error_t e = mpack_writer_destroy(&w); L.put("destroy", d ? d : "", n, (uint64_t)e); if (d) vt_free(d); break; }
    case 1: {
        size_t cap = MPACK_WRITER_MINIMUM_BUFFER_SIZE + (size_t)draw(100); Box b(cap); Sink s{&L}; OBJ(mpack_writer_t, w); mpack_writer_init(&w, b.p, b.n); mpack_writer_set_context(&w, &s); mpack_writer_set_flush(&w, wflush); dress(&w, true);
        for (auto& v : k.vs) { emit(&w, v, eo); y(); if (chance(1, 3)) mpack_writer_flush_message(&w); }
        L.put("destroy", "", 0, (uint64_t)mpack_writer_destroy(&w)); break; }
    case 2: {
        size_t total = 0; for (auto& v : k.vs) total += enc(v).size(); Box b(coin() ? total : (size_t)draw(total + 1)); OBJ(mpack_writer_t, w); mpack_writer_init(&w, b.p, b.n); dress(&w, true);
        for (auto& v : k.vs) { emit(&w, v, eo); y(); }
        size_t used = mpack_writer_buffer_used(&w); mpack_error_t e = mpack_writer_destroy(&w); L.put("destroy", b.p, e == mpack_ok ? used : 0, (uint64_t)e); break; }
    case 3: {
        CookieOut c; FILE* f = open_cookie_out(&c, (size_t)draw(3) * 16); OBJ(mpack_writer_t, w); mpack_writer_init_stdfile(&w, f, true); dress(&w, false);
        for (auto& v : k.vs) { emit(&w, v, eo); y(); }
        mpack_error_t e = mpack_writer_destroy(&w); L.put("file", c.data.data(), c.data.size(), (uint64_t)e); break; }
    case 5: case 6: case 13: {
        Bytes all; for (auto& v : k.vs) all += enc(v); Box b(all); OBJ(mpack_reader_t, r); Source src = gen_source(b); size_t cap = MPACK_READER_MINIMUM_BUFFER_SIZE + (size_t)draw(60) + (k.kind == 6 ? all.size() : 0); Box buf(cap); ReadOpt ro; CookieIn ci; FILE* f = nullptr;
        if (k.kind == 13) { ci.data = all; ci.seekable = coin(); f = open_cookie_in(&ci, 1); mpack_reader_init_stdfile(&r, f, true); ro.inplace = false; }
        else if (coin()) mpack_reader_init_data(&r, b.p, b.n);
        else { mpack_reader_init(&r, buf.p, buf.n, 0); mpack_reader_set_context(&r, &src); mpack_reader_set_fill(&r, fill); if (coin()) mpack_reader_set_skip(&r, skip); ro.max_inplace = buf.n; }
        dress(&r, k.kind != 13);
        for (auto& v : k.vs) { if (k.kind == 6) expect_value(&r, v); else { Value x; if (read_value(&r, x, ro)) put_value(L, x); else L.put("failed", "", 0, (uint64_t)mpack_reader_error(&r)); } y(); }
        L.put("destroy", "", 0, (uint64_t)mpack_reader_destroy(&r)); break; }
    case 7: {
        Box b(k.in); OBJ(mpack_reader_t, r); mpack_reader_init_data(&r, b.p, b.n); dress(&r, true); mpack_reader_set_context(&r, &L); mpack_reader_set_error_handler(&r, rerr); OpState st;
        for (size_t i = 0; i < k.script.size(); i++) { reader_op(&r, &st); const char* p; L.put(op_name, "", 0, (uint64_t)mpack_reader_error(&r)); if (mpack_reader_error(&r) == mpack_ok && coin()) { size_t left = mpack_reader_remaining(&r, &p); L.put("left", p, left); } y(); }
        mpack_reader_flag_error(&r, mpack_error_data); L.put("destroy", "", 0, (uint64_t)mpack_reader_destroy(&r)); break; }
    case 8: {
        Bytes all; for (auto& v : k.vs) all += enc(v); all += k.in; Box b(all); Source src = gen_source(b); OBJ(mpack_tree_t, t); mpack_tree_init_stream(&t, tread, &src, coin() ? 1000000 : 1 + (size_t)draw(400), coin() ? 100000 : 1 + (size_t)draw(60)); bool blocking = coin();
        dress(&t, true);
        for (size_t i = 0; i < k.vs.size() + 2; i++) { int g = 0; if (blocking) mpack_tree_parse(&t); else while (!mpack_tree_try_parse(&t) && mpack_tree_error(&t) == mpack_ok && g++ < 3000) y(); L.put("parse", "", 0, (uint64_t)mpack_tree_error(&t)); if (mpack_tree_error(&t) != mpack_ok || g > 3000) break; y(); node_log(&t, L); }
        L.put("destroy", "", 0, (uint64_t)mpack_tree_destroy(&t)); break; }
    case 9: case 10: case 11: {
        Bytes all; if (coin()) for (auto& v : k.vs) all += enc(v); all += k.in; Box b(all); OBJ(mpack_tree_t, t); std::vector<mpack_node_data_t> pool(1 + (size_t)draw(80)); memset((void*)pool.data(), box_fill, pool.size() * sizeof pool[0]);
        if (k.kind == 11) mpack_tree_init_pool(&t, b.p, b.n, pool.data(), pool.size()); else mpack_tree_init_data(&t, b.p, b.n);
        dress(&t, true);
        for (int m = 0; m < 3; m++) { mpack_tree_parse(&t); y(); L.put("parse", "", 0, (uint64_t)mpack_tree_error(&t)); if (mpack_tree_error(&t) != mpack_ok) break; if (k.kind != 10) { node_log(&t, L); continue; }
            std::vector<mpack_node_t> nodes{mpack_tree_root(&t)}; for (size_t i = 0; i < k.script.size() && mpack_tree_error(&t) == mpack_ok; i++) { node_op(nodes[draw(nodes.size())], &nodes); L.put(op_name, "", 0, (uint64_t)mpack_tree_error(&t)); y(); } }
        L.put("destroy", "", 0, (uint64_t)mpack_tree_destroy(&t)); break; }
    case 12: {
#if MPACK_DEBUG && MPACK_STDIO
        Bytes all; for (auto& v : k.vs) all += enc(v); Box b(all + k.in); Bytes o; mpack_print_data_to_callback(b.p, b.n, pr, &o); L.put("print", o.data(), o.size()); y();
        OBJ(mpack_tree_t, t); mpack_tree_init_data(&t, b.p, b.n); mpack_tree_parse(&t); o.clear(); mpack_node_print_to_callback(mpack_tree_root(&t), pr, &o); L.put("node print", o.data(), o.size()); mpack_tree_destroy(&t);
#endif
        for (auto& v : k.vs) { mpack_tag_t g = make_tag(v); char buf[256] = ""; 
#if MPACK_DEBUG && MPACK_STDIO
            mpack_tag_debug_describe(g, buf, sizeof buf); y();
#endif
            L.put("describe", buf, strlen(buf), (uint64_t)mpack_tag_cmp(g, mpack_tag_make_int((int64_t)draw(100) - 50))); y(); }
        break; }
    case 15: { // one call after another, each on an element of its own that it may well accept
        size_t at = (size_t)draw(84); static const char* const S[] = {"", "a", "b", "ab", "key", "keys"};
        for (int i = 0; i < 50; i++) {
            Value v; switch (draw(9)) { case 0: case 1: case 2: v = mk_data(STR, coin() ? Bytes(OP_STRINGS[draw(10)]) : Bytes(S[draw(6)])); break; case 3: v = mk(UINT, draw(300)); break; case 4: v = mk(INT, (uint64_t)-(int64_t)draw(300)); break; case 5: v = mk_data(BIN, Bytes(S[draw(6)])); break; case 6: v = mk(pick({NIL, BOOL}), draw(2)); break; case 7: v = mk(DBL, raw_of(1.5)); break; default: v = k.vs[draw(k.vs.size())]; }
            Bytes e = enc(v); e += enc(mk(UINT, 7)); Box b(e); OBJ(mpack_reader_t, r); Source src = gen_source(b); Box buf(MPACK_READER_MINIMUM_BUFFER_SIZE + e.size()); if (coin()) mpack_reader_init_data(&r, b.p, b.n); else { mpack_reader_init(&r, buf.p, buf.n, 0); mpack_reader_set_context(&r, &src); mpack_reader_set_fill(&r, fill); }
            OpState st; reader_op(&r, &st, (int)((at + (size_t)i) % 84)); L.put(op_name, "", 0, (uint64_t)mpack_reader_error(&r)); y(); mpack_reader_flag_error(&r, mpack_error_data); mpack_reader_destroy(&r);
            OBJ(mpack_tree_t, t); mpack_tree_init_data(&t, b.p, b.n); mpack_tree_parse(&t); node_op(mpack_tree_root(&t), nullptr, (int)((at + (size_t)i) % 52)); L.put(op_name, "", 0, (uint64_t)mpack_tree_error(&t)); y(); mpack_tree_destroy(&t);
        }
        break; }
    case 16: { // write a file by name, read it, parse it
        int fd = memfd_create("t", 0); if (fd < 0) abort(); char name[64]; snprintf(name, sizeof name, "/proc/self/fd/%d", fd); bool good;
        { OBJ(mpack_writer_t, w); mpack_writer_init_filename(&w, name); dress(&w, false); y(); for (auto& v : k.vs) { emit(&w, v, eo); y(); } mpack_error_t e = mpack_writer_destroy(&w); good = e == mpack_ok; L.put("written", "", 0, (uint64_t)e); }
        Bytes got; char b[512]; ssize_t m; off_t at = 0; while ((m = pread(fd, b, sizeof b, at)) > 0) { got.append(b, (size_t)m); at += m; } if (good) L.put("file", got.data(), got.size());
        { OBJ(mpack_reader_t, r); mpack_reader_init_filename(&r, name); dress(&r, false); y(); ReadOpt ro; ro.inplace = false; for (size_t i = 0; i < k.vs.size() && mpack_reader_error(&r) == mpack_ok; i++) { Value x; if (read_value(&r, x, ro)) put_value(L, x); y(); } L.put("read", "", 0, (uint64_t)mpack_reader_destroy(&r)); }
        { OBJ(mpack_tree_t, t); mpack_tree_init_filename(&t, name, coin() ? 0 : (size_t)draw(200)); dress(&t, false); y(); for (size_t i = 0; i < k.vs.size() && mpack_tree_error(&t) == mpack_ok; i++) { mpack_tree_parse(&t); y(); if (mpack_tree_error(&t) == mpack_ok) node_log(&t, L); } L.put("parsed", "", 0, (uint64_t)mpack_tree_destroy(&t)); }
        close(fd); break; }
    default: { // errors of every kind, one object after another
        for (int i = 0; i < 4; i++) { mpack_error_t e = pick({mpack_error_io, mpack_error_invalid, mpack_error_type, mpack_error_data, mpack_error_bug}); OBJ(mpack_reader_t, r); mpack_reader_init_error(&r, e); OBJ(mpack_tree_t, t); mpack_tree_init_error(&t, e); OBJ(mpack_writer_t, w); mpack_writer_init_error(&w, e); OpState st;
            for (int j = 0; j < 4; j++) { reader_op(&r, &st); L.put(op_name, "", 0, (uint64_t)mpack_reader_error(&r)); y(); node_op(mpack_tree_root(&t)); L.put(op_name, "", 0, (uint64_t)mpack_tree_error(&t)); y(); writer_op(&w); L.put(op_name, "", 0, (uint64_t)mpack_writer_error(&w)); y(); }
            const char* n = mpack_error_to_string(e); L.put("name", n, strlen(n)); n = mpack_type_to_string((mpack_type_t)(1 + draw(10))); L.put("type", n, strlen(n));
            L.put("destroy", "", 0, (uint64_t)mpack_reader_destroy(&r) * 10000 + (uint64_t)mpack_tree_destroy(&t) * 100 + (uint64_t)mpack_writer_destroy(&w)); } }
    }
    vt.on_alloc = nullptr; scratch_clear(); vt_check_leaks("at the end of a task"); vt_reset(); draw_script = nullptr;
}