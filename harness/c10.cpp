// C10: the first error is permanent, reported once, and makes later calls
// harmless, also when the error callback leaves by a non-local jump.
#include "ops.h"
#include "files.h"
using namespace pbt;
const char* pbt::harness_name = "c10";
enum Mode { NONE, COUNT, JUMP, DESTROY_JUMP, DESTROY };
struct Ctx {
    int errs = 0, tears = 0; mpack_error_t first = mpack_ok; Mode mode = NONE; bool destroyed = false; mpack_error_t destroy_result = mpack_ok;
    Source* src = nullptr; Source* src2 = nullptr;
    // writer sink
    size_t flushes = 0, flushed = 0, fail_flush = (size_t)-1; mpack_error_t flush_error = mpack_error_io; size_t flush_after_error = 0;
    size_t inject = (size_t)-1, count = 0; mpack_error_t inject_error = mpack_error_data; size_t ref_flushes = 0;
};
static Ctx* C; // one object under test at a time
static jmp_buf jb;
static mpack_error_t any_error() { return pick({mpack_error_io, mpack_error_invalid, mpack_error_unsupported, mpack_error_type, mpack_error_too_big, mpack_error_memory, mpack_error_bug, mpack_error_data, mpack_error_eof}); }
template <class T> static void on_error_t(T* o, mpack_error_t e, mpack_error_t cur, mpack_error_t (*destroy)(T*)) {
    C->errs++;
    CHECK(C->errs == 1, "error callback called %d times (now with %s, first with %s)", C->errs, err_name(e), err_name(C->first));
    CHECK(e != mpack_ok && cur == e, "error callback got %s while the object's error is %s", err_name(e), err_name(cur));
    C->first = e;
    if (C->mode == DESTROY_JUMP || C->mode == DESTROY) { C->destroy_result = destroy(o); C->destroyed = true; }
    if (C->mode == JUMP || C->mode == DESTROY_JUMP) longjmp(jb, 1);
}
static void r_error(mpack_reader_t* r, mpack_error_t e) { on_error_t(r, e, mpack_reader_error(r), mpack_reader_destroy); }
static void t_error(mpack_tree_t* r, mpack_error_t e) { on_error_t(r, e, mpack_tree_error(r), mpack_tree_destroy); }
static void w_error(mpack_writer_t* r, mpack_error_t e) { on_error_t(r, e, mpack_writer_error(r), mpack_writer_destroy); }
static void r_tear(mpack_reader_t*) { C->tears++; }
static void t_tear(mpack_tree_t*) { C->tears++; }
static void w_tear(mpack_writer_t*) { C->tears++; }
static size_t fill(mpack_reader_t* r, char* b, size_t n) { if (mpack_reader_error(r) != mpack_ok) fail("fill callback called in error state (%s)", op_name ? op_name : "?"); return source_fill(r, b, n); }
static void skip(mpack_reader_t* r, size_t n) { if (mpack_reader_error(r) != mpack_ok) fail("skip callback called in error state (%s)", op_name ? op_name : "?"); source_skip(r, n); }
static size_t tread(mpack_tree_t* t, char* b, size_t n) { if (mpack_tree_error(t) != mpack_ok) fail("tree read callback called in error state"); return source_tree_read(t, b, n); }

static void after_destroyed() {
    CHECK(C->destroy_result == C->first, "destroy in the error callback returned %s, the error was %s", err_name(C->destroy_result), err_name(C->first));
    CHECK(C->tears == 1, "teardown called %d times", C->tears);
    label("destroyed-in-callback");
}
static Mode gen_mode() { return (Mode)draw(4); }

static void reader_case() {
    static mpack_reader_t R; mpack_reader_t* r = &R;
    Bytes* data = new Bytes(chance(1, 4) ? gen_wire(300) : enc(gen_value(GenOpt())) + gen_wire(60));
    if (chance(1, 40)) { GenOpt g; g.max_nodes = 8; g.max_len = 20000; Value v = mk(ARR); v.c.push_back(mk_data(coin() ? STR : BIN, gen_textish((size_t)draw(24000)))); v.c.push_back(gen_value(g)); *data = enc(v) + *data; label("big"); }
    static Source src; static Ctx ctx; ctx = Ctx(); C = &ctx; ctx.mode = gen_mode();
    char* in = scratch(data->size()); memcpy(in, data->data(), data->size());
    bool stream = coin(); size_t bufn = MPACK_READER_MINIMUM_BUFFER_SIZE + (size_t)draw(100);
    Box* b = new Box(*data); // freed with the case
    src = gen_source(*b); ctx.src = &src;
    if (stream && coin()) { src.fail_at = (size_t)draw(data->size() + 1); src.fail_mode = (int)draw(5); src.flag = any_error(); }
    if (stream) { mpack_reader_init(r, scratch(bufn), bufn, 0); mpack_reader_set_context(r, &src); mpack_reader_set_fill(r, fill); if (coin()) mpack_reader_set_skip(r, skip); }
    else mpack_reader_init_data(r, in, data->size());
    mpack_reader_set_error_handler(r, ctx.mode == NONE ? NULL : r_error);
    mpack_reader_set_teardown(r, r_tear);
    static OpState st; st = OpState();
    static int nops, at; static bool track_ok; nops = 1 + (int)draw(30); at = coin() ? (int)draw(31) : -1; track_ok = false;
    static mpack_error_t ue; ue = any_error(); static const char* how; how = "ops";
    note("reader %s mode %d ops %d flag at %d, data %s", stream ? "stream" : "memory", ctx.mode, nops, at, hex(data->data(), data->size(), 80).c_str());
    static mpack_error_t E, d; E = mpack_ok;
    if (setjmp(jb) == 0) {
        for (int i = 0; i < nops && mpack_reader_error(r) == mpack_ok; i++) {
            if (i == at) { how = "user flag"; mpack_reader_flag_error(r, ue); CHECK(mpack_reader_error(r) == ue, "flagged %s, error is %s", err_name(ue), err_name(mpack_reader_error(r))); break; }
            reader_op(r, &st); note("  %s -> %s", op_name, err_name(mpack_reader_error(r)));
        }
    }
    if (ctx.destroyed) { after_destroyed(); goto out; }
    E = mpack_reader_error(r);
    if (E != mpack_ok) {
        CHECK(ctx.mode == NONE || (ctx.errs == 1 && ctx.first == E), "error is %s, callback calls %d with %s", err_name(E), ctx.errs, err_name(ctx.first));
        if (setjmp(jb)) fail("error callback called again after error %s (%s)", err_name(E), op_name);
        int more = 4 + (int)draw(12);
        for (int i = 0; i < more; i++) {
            if (chance(1, 8)) { op_name = "flag_error"; mpack_reader_flag_error(r, any_error()); } else if (chance(1, 12)) { op_name = "flag_if_error"; mpack_error_t x = coin() ? mpack_ok : any_error(); mpack_error_t g = mpack_reader_flag_if_error(r, x); (void)g; } else reader_op(r, &st);
            CHECK(mpack_reader_error(r) == E, "error changed from %s to %s in %s", err_name(E), err_name(mpack_reader_error(r)), op_name);
        }
        CHECK(ctx.tears == 0, "teardown called before destruction");
        label(how);
    }
    if (setjmp(jb) == 0) d = mpack_reader_destroy(r);
    else { // tracking may complain at destruction and jump; then it must be destroyed again
        if (ctx.destroyed) { after_destroyed(); goto out; }
        CHECK(E == mpack_ok, "destroy called the error callback again"); E = mpack_reader_error(r);
        if (setjmp(jb) == 0) d = mpack_reader_destroy(r); else fail("second destroy called the error callback");
    }
    if (E == mpack_ok) E = d;
    CHECK(d == E, "destroy returned %s, the error was %s", err_name(d), err_name(E));
    CHECK(ctx.tears == 1, "teardown called %d times", ctx.tears);
    CHECK(ctx.errs == (E != mpack_ok && ctx.mode != NONE ? 1 : 0), "error callback called %d times", ctx.errs);
out:
    if (E != mpack_ok || ctx.destroyed) nontrivial(hash_mix(hash_bytes(data->data(), data->size()), (uint64_t)ctx.mode * 64 + (uint64_t)nops));
    delete data; delete b;
}
static void tree_case() {
    static mpack_tree_t T; mpack_tree_t* t = &T;
    Bytes* data = new Bytes(chance(1, 3) ? gen_wire(300) : enc(gen_value(GenOpt())));
    static Source src; static Ctx ctx; ctx = Ctx(); C = &ctx; ctx.mode = gen_mode();
    Box* b = new Box(*data); src = gen_source(*b); ctx.src = &src;
    static int kind; kind = (int)draw(3);
    static mpack_node_data_t pool[64];
    if (kind == 0) mpack_tree_init_data(t, b->p, b->n);
    else if (kind == 1) mpack_tree_init_pool(t, b->p, b->n, pool, 1 + (size_t)draw(64));
    else {
        if (coin()) { src.fail_at = (size_t)draw(data->size() + 1); src.fail_mode = (int)draw(5); src.flag = any_error(); }
        mpack_tree_init_stream(t, tread, &src, coin() ? 100000 : 1 + (size_t)draw(300), coin() ? 1000 : 1 + (size_t)draw(20));
    }
    mpack_tree_set_error_handler(t, ctx.mode == NONE ? NULL : t_error);
    mpack_tree_set_teardown(t, t_tear);
    static int nops, at, phase; static mpack_error_t ue; ue = any_error(); nops = 1 + (int)draw(20); at = coin() ? (int)draw(21) - 1 : -2;
    static std::vector<mpack_node_t> nodes; nodes.clear();
    static mpack_error_t E, d; E = mpack_ok; static bool blocking; blocking = coin(); phase = 0;
    note("tree kind %d mode %d flag at %d, data %s", kind, ctx.mode, at, hex(data->data(), data->size(), 80).c_str());
    if (setjmp(jb) == 0) {
        if (at == -1) { mpack_tree_flag_error(t, ue); CHECK(mpack_tree_error(t) == ue, "flagged %s, error is %s", err_name(ue), err_name(mpack_tree_error(t))); }
        bool ok = true;
        if (blocking) mpack_tree_parse(t); else { int g = 0; do ok = mpack_tree_try_parse(t); while (!ok && mpack_tree_error(t) == mpack_ok && g++ < 2000); }
        ok = ok && mpack_tree_error(t) == mpack_ok;
        if (ok) { phase = 1; nodes.push_back(mpack_tree_root(t)); }
        for (int i = 0; ok && i < nops && mpack_tree_error(t) == mpack_ok; i++) {
            mpack_node_t n = nodes[draw(nodes.size())];
            if (i == at) { if (coin()) mpack_tree_flag_error(t, ue); else mpack_node_flag_error(n, ue); CHECK(mpack_tree_error(t) == ue && mpack_node_error(n) == ue, "flagged %s, error is %s", err_name(ue), err_name(mpack_tree_error(t))); break; }
            node_op(n, &nodes); note("  %s -> %s", op_name, err_name(mpack_tree_error(t)));
        }
    }
    if (ctx.destroyed) { after_destroyed(); goto out; }
    E = mpack_tree_error(t);
    if (E != mpack_ok) {
        CHECK(ctx.mode == NONE || (ctx.errs == 1 && ctx.first == E), "error is %s, callback calls %d with %s", err_name(E), ctx.errs, err_name(ctx.first));
        if (setjmp(jb)) fail("error callback called again after error %s (%s)", err_name(E), op_name);
        mpack_node_t root = mpack_tree_root(t);
        CHECK(mpack_node_type(root) == mpack_type_nil && mpack_node_is_nil(root), "root in error state is not nil");
        nodes.push_back(root);
        int more = 4 + (int)draw(12);
        for (int i = 0; i < more; i++) {
            size_t fills = src.fills;
            if (chance(1, 8)) { op_name = "flag_error"; mpack_tree_flag_error(t, any_error()); }
            else if (chance(1, 10)) { op_name = "mpack_tree_parse"; mpack_tree_parse(t); }
            else if (chance(1, 10)) { op_name = "mpack_tree_try_parse"; CHECK(!mpack_tree_try_parse(t), "try_parse returned true in error state"); }
            else node_op(nodes[draw(nodes.size())]);
            CHECK(mpack_tree_error(t) == E, "error changed from %s to %s in %s", err_name(E), err_name(mpack_tree_error(t)), op_name);
            CHECK(src.fills == fills, "%s read from the source in error state", op_name);
        }
        CHECK(ctx.tears == 0, "teardown called before destruction");
        label(phase ? "tree-accessor" : "tree-parse");
    }
    if (setjmp(jb)) fail("destroying the tree called the error callback");
    d = mpack_tree_destroy(t);
    CHECK(d == E, "destroy returned %s, the error was %s", err_name(d), err_name(E));
    CHECK(ctx.tears == 1, "teardown called %d times", ctx.tears);
    CHECK(ctx.errs == (E != mpack_ok && ctx.mode != NONE ? 1 : 0), "error callback called %d times", ctx.errs);
out:
    if (E != mpack_ok || ctx.destroyed) nontrivial(hash_mix(hash_bytes(data->data(), data->size()), (uint64_t)ctx.mode * 64 + (uint64_t)nops + 99));
    delete data; delete b;
}
static void flush(mpack_writer_t* w, const char*, size_t n) {
    CHECK(mpack_writer_error(w) == mpack_ok, "flush callback called with %zu bytes in error state %s", n, err_name(mpack_writer_error(w)));
    C->flushes++; C->flushed += n;
    if (C->flushes > C->fail_flush) mpack_writer_flag_error(w, C->flush_error);
}
static void between(mpack_writer_t* w, void*) {
    if (C->count++ == C->inject && mpack_writer_error(w) == mpack_ok) { mpack_writer_flag_error(w, C->inject_error); CHECK(mpack_writer_error(w) == C->inject_error, "flag not kept"); }
}
static void writer_case() {
    static mpack_writer_t W; mpack_writer_t* w = &W;
    static Ctx ctx; ctx = Ctx(); C = &ctx; ctx.mode = gen_mode();
    GenOpt go; 
#if !MPACK_EXTENSIONS
    go.ext = false;
#endif
    if (chance(1, 4)) go.max_len = 2000;
    std::vector<Value>* vs = new std::vector<Value>; size_t nm = 1 + (size_t)draw(2), total = 0; for (size_t i = 0; i < nm; i++) { vs->push_back(gen_value(go)); total += enc(vs->back()).size(); }
    static EmitOpt eo; eo = EmitOpt(); eo.builders = coin(); eo.between = between;
    size_t nodes = 0; for (auto& v : *vs) nodes += node_count(v);
    if (coin()) { ctx.inject = (size_t)draw(nodes + 1); ctx.inject_error = any_error(); }
    static int kind; kind = (int)draw(4); static char* data; static size_t size; data = (char*)1; size = 5; static Bytes out; out.clear();
    static CookieOut* k; k = nullptr; static FILE* f; f = nullptr;
    switch (kind) {
    case 0: vt.fail_at = coin() ? 1 + (long)draw(6) : 0; vt.fail_forever = coin(); mpack_writer_init_growable(w, &data, &size); break;
    case 1: { size_t n = coin() ? (size_t)draw(total + 1) : total; mpack_writer_init(w, scratch(n), n); mpack_writer_set_teardown(w, w_tear); break; }
    case 2: { size_t n = MPACK_WRITER_MINIMUM_BUFFER_SIZE + (size_t)draw(100); mpack_writer_init(w, scratch(n), n); if (coin()) ctx.fail_flush = (size_t)draw(6); ctx.flush_error = any_error(); mpack_writer_set_flush(w, flush); mpack_writer_set_teardown(w, w_tear); break; }
    default: k = new CookieOut; if (coin()) k->fail_at = (size_t)draw(total + 40); k->close_fails = chance(1, 3); f = open_cookie_out(k, (size_t)draw(3) * 16); mpack_writer_init_stdfile(w, f, true); break;
    }
    // an error from initialisation comes before a callback can be set
    static bool init_failed; init_failed = mpack_writer_error(w) != mpack_ok;
    mpack_writer_set_error_handler(w, ctx.mode == NONE ? NULL : w_error);
    static int tear; tear = kind == 1 || kind == 2 ? 1 : 0;
    note("writer kind %d mode %d inject %zd fail_flush %zd builders %d fail_at %ld", kind, ctx.mode, (ssize_t)ctx.inject, (ssize_t)ctx.fail_flush, eo.builders, vt.fail_at);
    for (auto& v : *vs) note("  %s", show(v).c_str());
    static mpack_error_t E, d; E = mpack_ok; static size_t fl;
    if (setjmp(jb) == 0) for (size_t i = 0; i < vs->size(); i++) emit(w, (*vs)[i], eo);
    if (ctx.destroyed) goto destroyed;
    E = mpack_writer_error(w);
    if (E != mpack_ok) {
        if (!init_failed) CHECK(ctx.mode == NONE || (ctx.errs == 1 && ctx.first == E), "error is %s, callback calls %d with %s", err_name(E), ctx.errs, err_name(ctx.first));
        if (setjmp(jb)) fail("error callback called again after error %s (%s)", err_name(E), op_name);
        fl = ctx.flushed + (k ? k->data.size() : 0); int more = 3 + (int)draw(10);
        for (int i = 0; i < more; i++) {
            if (chance(1, 8)) { op_name = "flag_error"; mpack_writer_flag_error(w, any_error()); } else if (chance(1, 8)) { op_name = "flush_message"; mpack_writer_flush_message(w); } else writer_op(w);
            CHECK(mpack_writer_error(w) == E, "error changed from %s to %s in %s", err_name(E), err_name(mpack_writer_error(w)), op_name);
            CHECK(ctx.flushed == fl || k, "%s passed bytes to the sink in error state", op_name);
        }
        CHECK(ctx.tears == 0, "teardown called before destruction");
    }
    if (setjmp(jb) == 0) d = mpack_writer_destroy(w);
    else {
        if (ctx.destroyed) goto destroyed;
        CHECK(E == mpack_ok, "destroy called the error callback again"); E = mpack_writer_error(w); label("error-in-destroy-jump");
        if (setjmp(jb) == 0) d = mpack_writer_destroy(w); else fail("second destroy called the error callback");
    }
    if (E == mpack_ok) E = d;
    CHECK(d == E, "destroy returned %s, the error was %s", err_name(d), err_name(E));
    CHECK(ctx.tears == tear, "teardown called %d times", ctx.tears);
    if (!init_failed) CHECK(ctx.errs == (E != mpack_ok && ctx.mode != NONE ? 1 : 0), "error callback called %d times for %s", ctx.errs, err_name(E));
    if (0) { destroyed: E = ctx.first; CHECK(ctx.destroy_result == ctx.first, "destroy in the callback returned %s, the error was %s", err_name(ctx.destroy_result), err_name(ctx.first)); CHECK(ctx.tears == tear, "teardown called %d times", ctx.tears); label("destroyed-in-callback"); }
    if (kind == 0) { if (E == mpack_ok) { CHECK(data && vt_is_live(data), "no data"); vt_free(data); } else CHECK(data == NULL && size == 0, "a growable writer in error %s handed out %p, size %zu", err_name(E), (void*)data, size); }
    if (k) { CHECK(k->closed, "the file was not closed"); CHECK(E != mpack_ok || k->data.size() == total, "file has %zu bytes of %zu without an error", k->data.size(), total); }
    label(E == mpack_ok ? "writer-ok" : kind == 0 ? "writer-growable-error" : kind == 1 ? "writer-fixed-error" : kind == 2 ? "writer-flush-error" : "writer-file-error");
    if (E != mpack_ok) { uint64_t h = (uint64_t)kind * 100 + (uint64_t)ctx.mode; for (auto& v : *vs) h = hash_value(v, h); nontrivial(h); }
    delete vs; delete k;
}
// Destroying the object in the callback and returning from it: the call that failed must not touch what the destruction released.
static void* own[3];
static char* owned(size_t n) { for (void*& p : own) if (!p) { p = malloc(n ? n : 1); memset(p, 0x5c, n); return (char*)p; } abort(); }
static void own_free() { for (void*& p : own) { free(p); p = NULL; } }
static void r_own(mpack_reader_t*) { C->tears++; own_free(); }
static void t_own(mpack_tree_t*) { C->tears++; own_free(); }
static void w_own(mpack_writer_t*) { C->tears++; own_free(); }
#define ST(...) do { op_name = #__VA_ARGS__; __VA_ARGS__; if (C->destroyed) return false; } while (0)
static bool steps(mpack_writer_t* w, const Value& v, const EmitOpt& eo) { // one public call at a time
    uint32_t n = (uint32_t)v.s.size(); mpack_type_t t;
    switch (v.k) {
    case STR: t = mpack_type_str; switch (draw(4)) { case 0: ST(mpack_write_str(w, v.s.data(), n)); return true; case 1: if (strlen(v.s.c_str()) == n) { ST(mpack_write_cstr(w, v.s.c_str())); return true; } ST(mpack_start_str(w, n)); break; case 2: if (ref_utf8((const uint8_t*)v.s.data(), n)) { ST(mpack_write_utf8(w, v.s.data(), n)); return true; } ST(mpack_start_str(w, n)); break; default: ST(mpack_write_tag(w, mpack_tag_str(n))); } break;
    case BIN: t = mpack_type_bin; if (coin()) { ST(mpack_write_bin(w, v.s.data(), n)); return true; } ST(mpack_start_bin(w, n)); break;
#if MPACK_EXTENSIONS
    case EXT: t = mpack_type_ext; if (coin()) { ST(mpack_write_ext(w, v.et, v.s.data(), n)); return true; } ST(mpack_start_ext(w, v.et, n)); break;
#endif
    case ARR: case MAP: { bool map = v.k == MAP, build = MPACK_BUILDER && eo.builders && coin(); uint32_t c = (uint32_t)v.count();
#if MPACK_BUILDER
        if (build) { if (map) ST(mpack_build_map(w)); else ST(mpack_build_array(w)); } else
#endif
        if (map) ST(mpack_start_map(w, c)); else ST(mpack_start_array(w, c));
        for (auto& x : v.c) if (!steps(w, x, eo)) return false;
#if MPACK_BUILDER
        if (build) { if (map) ST(mpack_complete_map(w)); else ST(mpack_complete_array(w)); } else
#endif
        if (map) ST(mpack_finish_map(w)); else ST(mpack_finish_array(w));
        (void)build; return true; }
    default: ST(emit(w, v, eo)); return true;
    }
    size_t cut = (size_t)draw((uint64_t)n + 1); ST(mpack_write_bytes(w, v.s.data(), cut)); ST(mpack_write_bytes(w, v.s.data() + cut, n - cut)); ST(mpack_finish_type(w, t)); return true;
}
static Bytes cut_element() { // possibly only part of the first element's header or contents
    GenOpt o; o.overlong = true; o.max_depth = 1; o.max_len = 40; Bytes e = enc(coin() ? gen_scalar(o) : gen_value(o)); size_t n = e.size(); e.resize(coin() ? (size_t)draw(n < 6 ? n : 6) : (size_t)draw(n)); return e;
}
static void destroy_case() {
    Ctx ctx; C = &ctx; ctx.mode = DESTROY; int which = (int)draw(3); own_free(); mpack_error_t E = mpack_ok, d = mpack_ok; uint64_t h = 0; const char* how = "";
    if (which == 0) {
        int dk = (int)draw(4); Bytes data = dk == 0 ? gen_wire(300) : dk == 1 ? cut_element() : enc(gen_value(GenOpt())) + gen_wire(60); h = hash_bytes(data.data(), data.size()); Source src; Box b(data); mpack_reader_t r; int kind = (int)draw(3); CookieIn* k = NULL; size_t bufn = MPACK_READER_MINIMUM_BUFFER_SIZE + (size_t)draw(100); (void)k;
        if (kind == 0) { char* in = owned(data.size()); memcpy(in, data.data(), data.size()); mpack_reader_init_data(&r, in, data.size()); }
        else { src = gen_source(b); ctx.src = &src; if (coin()) { src.fail_at = (size_t)draw(data.size() + 1); src.fail_mode = (int)draw(5); src.flag = any_error(); } mpack_reader_init(&r, owned(bufn), bufn, 0); mpack_reader_set_context(&r, &src); mpack_reader_set_fill(&r, fill); if (coin()) mpack_reader_set_skip(&r, skip); }
        mpack_reader_set_error_handler(&r, r_error); mpack_reader_set_teardown(&r, r_own); OpState st; int nops = 1 + (int)draw(30); if (chance(1, 3)) vt.fail_at = 1 + (long)draw(8);
        note("reader %d destroyed by its error callback, data %s", kind, hex(data.data(), data.size(), 80).c_str());
        for (int i = 0; i < nops && !ctx.destroyed; i++) { if (chance(1, 40)) mpack_reader_flag_error(&r, any_error()); else reader_op(&r, &st); note("  %s", op_name); }
        if (!ctx.destroyed) d = mpack_reader_destroy(&r); how = "reader-destroyed-in-callback";
        goto done;
    }
    if (which == 1) {
        Bytes data = chance(1, 3) ? gen_wire(300) : enc(gen_value(GenOpt())); h = hash_bytes(data.data(), data.size()); Source src; Box b(data); mpack_tree_t t; int kind = (int)draw(3); size_t pn = 1 + (size_t)draw(64); bool blocking = coin(), ok = true; int nops = 1 + (int)draw(20);
        if (kind < 2) { char* in = owned(data.size()); memcpy(in, data.data(), data.size()); if (kind == 0) mpack_tree_init_data(&t, in, data.size()); else mpack_tree_init_pool(&t, in, data.size(), (mpack_node_data_t*)owned(pn * sizeof(mpack_node_data_t)), pn); }
        else { src = gen_source(b); ctx.src = &src; if (coin()) { src.fail_at = (size_t)draw(data.size() + 1); src.fail_mode = (int)draw(5); src.flag = any_error(); } mpack_tree_init_stream(&t, tread, &src, coin() ? 100000 : 1 + (size_t)draw(300), coin() ? 1000 : 1 + (size_t)draw(20)); }
        mpack_tree_set_error_handler(&t, t_error); mpack_tree_set_teardown(&t, t_own); if (chance(1, 3)) vt.fail_at = 1 + (long)draw(6);
        note("tree %d blocking %d destroyed by its error callback, data %s", kind, blocking, hex(data.data(), data.size(), 80).c_str());
        if (blocking) mpack_tree_parse(&t); else { int g = 0; do ok = mpack_tree_try_parse(&t); while (!ok && !ctx.destroyed && g++ < 2000); }
        if (ctx.destroyed) CHECK(blocking || !ok, "try_parse returned true");
        else if (ok) { std::vector<mpack_node_t> nodes(1, mpack_tree_root(&t)); for (int i = 0; i < nops && !ctx.destroyed; i++) { mpack_node_t n = nodes[draw(nodes.size())]; if (chance(1, 30)) mpack_node_flag_error(n, any_error()); else node_op(n, &nodes); note("  %s", op_name); } }
        if (!ctx.destroyed) d = mpack_tree_destroy(&t); how = "tree-destroyed-in-callback";
        goto done;
    }
    {
        GenOpt go; 
#if !MPACK_EXTENSIONS
        go.ext = false;
#endif
        if (chance(1, 3)) go.max_len = chance(1, 4) ? 5000 : 1000; Value v = gen_value(go); if (chance(1, 3)) v = mk_data(coin() ? STR : BIN, gen_text(gen_len(400, false), true)); Bytes want = enc(v); h = hash_value(v); size_t total = want.size(); EmitOpt eo; eo.builders = chance(1, 3); eo.object_bytes = false; int kind = (int)draw(4); char* data = (char*)1; size_t size = 5; CookieOut* k = NULL; mpack_writer_t w; bool go_on;
        switch (kind) {
        case 0: mpack_writer_init_growable(&w, &data, &size); break;
        case 1: { size_t n = coin() ? (size_t)draw(total + 1) : total; mpack_writer_init(&w, owned(n), n); mpack_writer_set_teardown(&w, w_own); break; }
        case 2: { size_t n = MPACK_WRITER_MINIMUM_BUFFER_SIZE + (size_t)draw(coin() ? 100 : 600); mpack_writer_init(&w, owned(n), n); if (coin()) ctx.fail_flush = (size_t)draw(6); ctx.flush_error = any_error(); mpack_writer_set_flush(&w, flush); mpack_writer_set_teardown(&w, w_own); break; }
        default: k = new CookieOut; if (coin()) k->fail_at = (size_t)draw(total + 40); k->close_fails = chance(1, 3); mpack_writer_init_stdfile(&w, open_cookie_out(k, (size_t)draw(3) * 16), true); break;
        }
        mpack_writer_set_error_handler(&w, w_error); if (chance(1, 3)) vt.fail_at = 1 + (long)draw(6); size_t left = mpack_writer_buffer_left(&w), lead = (size_t)draw(70); if (coin() && left > 8 && left < 700) lead = left - (size_t)draw(8); // near the end of the buffer
        note("writer %d destroyed by its error callback, builders %d, fail_flush %zd fail_at %ld, %zu bytes before %s", kind, eo.builders, (ssize_t)ctx.fail_flush, vt.fail_at, lead, show(v).c_str());
        go_on = true; for (size_t i = 0; i < lead && go_on; i++) { mpack_write_nil(&w); go_on = !ctx.destroyed; }
        if (go_on) go_on = steps(&w, v, eo);
        if (!ctx.destroyed) { mpack_error_t r = mpack_writer_destroy(&w); if (!ctx.destroyed) { d = r; CHECK(d == mpack_ok, "destroy returned %s", err_name(d)); } }
        if (kind == 0) { if (!ctx.destroyed) { CHECK(data && size == lead + total && !memcmp(data + lead, want.data(), total), "wrong data"); vt_free(data); } else CHECK(data == NULL && size == 0, "a failed writer handed out data"); }
        if (k) { CHECK(k->closed, "the file was not closed"); delete k; }
        how = "writer-destroyed-in-callback"; if (kind == 0 || k) ctx.tears++;
    }
done:
    vt.fail_at = 0; if (ctx.destroyed) { E = ctx.first; CHECK(ctx.destroy_result == E, "destroy in the callback returned %s, the error was %s", err_name(ctx.destroy_result), err_name(E)); label(how); nontrivial(hash_mix(h, (uint64_t)which)); } else CHECK(d == mpack_ok, "destroy returned %s", err_name(d));
    CHECK(ctx.errs == (ctx.destroyed ? 1 : 0), "error callback called %d times", ctx.errs); CHECK(ctx.tears == 1, "teardown called %d times", ctx.tears); own_free();
}
// Objects that start out in an error state are like any other failed object.
static void init_error_case() {
    static Ctx ctx; ctx = Ctx(); C = &ctx; mpack_error_t E = any_error(), d; int which = (int)draw(3), more = 1 + (int)draw(10); bool handler = coin(), tear = coin();
    note("%s initialised with %s", which == 0 ? "reader" : which == 1 ? "tree" : "writer", err_name(E));
    if (setjmp(jb)) fail("error callback of an object initialised with an error called (%s)", op_name);
    ctx.mode = JUMP; op_name = "init_error"; int tag;
    if (which == 0) {
        mpack_reader_t r; memset(&r, 0x5a, sizeof r); mpack_reader_init_error(&r, E); CHECK(mpack_reader_error(&r) == E, "error is %s", err_name(mpack_reader_error(&r)));
        if (handler) mpack_reader_set_error_handler(&r, r_error); if (tear) mpack_reader_set_teardown(&r, r_tear); mpack_reader_set_context(&r, &tag); OpState st;
        for (int i = 0; i < more; i++) { if (chance(1, 8)) mpack_reader_flag_error(&r, any_error()); else reader_op(&r, &st); CHECK(mpack_reader_error(&r) == E, "error changed from %s to %s in %s", err_name(E), err_name(mpack_reader_error(&r)), op_name); }
        CHECK(mpack_reader_context(&r) == &tag, "context lost"); CHECK(mpack_reader_remaining(&r, NULL) == 0, "bytes remaining"); d = mpack_reader_destroy(&r);
    } else if (which == 1) {
        mpack_tree_t t; memset(&t, 0x5a, sizeof t); mpack_tree_init_error(&t, E); CHECK(mpack_tree_error(&t) == E, "error is %s", err_name(mpack_tree_error(&t)));
        if (handler) mpack_tree_set_error_handler(&t, t_error); if (tear) mpack_tree_set_teardown(&t, t_tear); mpack_tree_set_context(&t, &tag);
        for (int i = 0; i < more; i++) {
            mpack_node_t root = mpack_tree_root(&t);
            switch (draw(5)) { case 0: mpack_tree_flag_error(&t, any_error()); break; case 1: mpack_tree_parse(&t); break; case 2: CHECK(!mpack_tree_try_parse(&t), "try_parse succeeded"); break; default: node_op(root); }
            CHECK(mpack_tree_error(&t) == E && mpack_node_error(root) == E, "error changed from %s to %s in %s", err_name(E), err_name(mpack_tree_error(&t)), op_name); CHECK(mpack_node_type(root) == mpack_type_nil, "root is not nil"); CHECK(mpack_tree_size(&t) == 0, "size of a failed tree is %zu", mpack_tree_size(&t));
        }
        CHECK(mpack_tree_context(&t) == &tag, "context lost"); d = mpack_tree_destroy(&t);
    } else {
        mpack_writer_t w; memset(&w, 0x5a, sizeof w); mpack_writer_init_error(&w, E); CHECK(mpack_writer_error(&w) == E, "error is %s", err_name(mpack_writer_error(&w)));
        if (handler) mpack_writer_set_error_handler(&w, w_error); if (tear) mpack_writer_set_teardown(&w, w_tear); mpack_writer_set_context(&w, &tag);
        for (int i = 0; i < more; i++) { if (chance(1, 8)) mpack_writer_flag_error(&w, any_error()); else if (chance(1, 8)) mpack_writer_flush_message(&w); else writer_op(&w); CHECK(mpack_writer_error(&w) == E, "error changed from %s to %s in %s", err_name(E), err_name(mpack_writer_error(&w)), op_name); }
        CHECK(mpack_writer_context(&w) == &tag, "context lost"); d = mpack_writer_destroy(&w);
    }
    CHECK(d == E, "destroy returned %s, the error was %s", err_name(d), err_name(E)); CHECK(ctx.errs == 0, "error callback called"); CHECK(ctx.tears == (tear ? 1 : 0), "teardown called %d times", ctx.tears);
    label("initialised-with-error"); nontrivial(hash_mix((uint64_t)which * 16 + (uint64_t)E, (uint64_t)more * 4 + handler * 2 + tear));
}
// A teardown function may find an error too (the library's own do, when a file cannot be closed).
static mpack_error_t tear_error;
static void r_tear_flag(mpack_reader_t* r) { C->tears++; mpack_reader_flag_error(r, tear_error); }
static void t_tear_flag(mpack_tree_t* t) { C->tears++; mpack_tree_flag_error(t, tear_error); }
static void w_tear_flag(mpack_writer_t* w) { C->tears++; mpack_writer_flag_error(w, tear_error); }
static void teardown_error_case() {
    static Ctx ctx; ctx = Ctx(); C = &ctx; ctx.mode = COUNT; tear_error = any_error(); mpack_error_t before = coin() ? mpack_ok : any_error(), d; bool handler = coin(), file = coin(); int which = (int)draw(3); GenOpt g; g.ext = MPACK_EXTENSIONS; Value v = gen_value(g); Bytes e = enc(v); Box b(e); CookieIn ci; op_name = "destroy"; char mem[4096]; Source src = gen_source(b); static mpack_node_data_t pool[4096];
    note("teardown of a %s in state %s finds %s", which == 0 ? "reader" : which == 1 ? "tree" : "writer", err_name(before), file && which == 0 ? "that the file cannot be closed" : err_name(tear_error));
    if (which == 0) {
        mpack_reader_t r;
        if (file) { ci.data = e; ci.close_fails = true; tear_error = mpack_error_io; mpack_reader_init_stdfile(&r, open_cookie_in(&ci, (size_t)draw(3) * 16), true); }
        else { if (coin()) mpack_reader_init_data(&r, b.p, b.n); else { mpack_reader_init(&r, mem, sizeof mem, 0); mpack_reader_set_context(&r, &src); mpack_reader_set_fill(&r, fill); } mpack_reader_set_teardown(&r, r_tear_flag); }
        if (handler) mpack_reader_set_error_handler(&r, r_error); Value x; ReadOpt ro; ro.inplace = false; read_value(&r, x, ro); if (before != mpack_ok) mpack_reader_flag_error(&r, before); d = mpack_reader_destroy(&r); if (file) ctx.tears = ci.closes;
    } else if (which == 1) {
        mpack_tree_t t; if (file) mpack_tree_init_data(&t, b.p, b.n); else if (coin()) mpack_tree_init_pool(&t, b.p, b.n, pool, 4096); else mpack_tree_init_stream(&t, tread, &src, 1u << 20, 1u << 20);
        mpack_tree_set_teardown(&t, t_tear_flag); if (handler) mpack_tree_set_error_handler(&t, t_error); if (coin()) { mpack_tree_parse(&t); if (mpack_tree_error(&t) != mpack_ok) before = mpack_tree_error(&t); } if (before != mpack_ok) mpack_tree_flag_error(&t, before); d = mpack_tree_destroy(&t);
    } else {
        mpack_writer_t w; Box o(e.size() + 64); mpack_writer_init(&w, o.p, o.n); if (coin()) mpack_writer_set_flush(&w, flush); mpack_writer_set_teardown(&w, w_tear_flag); if (handler) mpack_writer_set_error_handler(&w, w_error); emit(&w, v, EmitOpt()); if (before != mpack_ok) mpack_writer_flag_error(&w, before); d = mpack_writer_destroy(&w);
    }
    mpack_error_t E = before != mpack_ok ? before : tear_error;
    CHECK(d == E, "destroy returned %s, the error was %s", err_name(d), err_name(E)); CHECK(ctx.tears == 1, "teardown called %d times", ctx.tears); CHECK(ctx.errs == (handler ? 1 : 0), "error callback called %d times", ctx.errs); CHECK(!handler || ctx.first == E, "error callback got %s", err_name(ctx.first));
    nontrivial(hash_mix(hash_value(v), (uint64_t)which * 1000 + (uint64_t)before * 10 + (uint64_t)tear_error)); label("error in teardown");
}
void pbt::property_case() {
    (void)enumerated(); scratch_clear(); op_name = "?";
    vt.allow_break = true;
    if (chance(1, 24)) init_error_case(); else if (chance(1, 24)) teardown_error_case(); else if (chance(1, 4)) destroy_case(); else switch (draw(3)) { case 0: reader_case(); break; case 1: tree_case(); break; default: writer_case(); }
    scratch_clear();
}
