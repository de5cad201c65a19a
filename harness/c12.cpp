// C12: a source that ends early or fails, or a sink that fails, at any point,
// is always reported; nothing is invented and nothing follows a failure.
#include "treecmp.h"
#include "files.h"
using namespace pbt;
const char* pbt::harness_name = "c12";
static mpack_error_t any_error() { return pick({mpack_error_io, mpack_error_invalid, mpack_error_unsupported, mpack_error_type, mpack_error_too_big, mpack_error_memory, mpack_error_data, mpack_error_eof}); }
static Bytes gen_doc(bool big) {
    GenOpt o; o.overlong = coin(); o.ext = EXTS; if (big) { o.max_len = 9000; o.max_nodes = 15; } if (chance(1, 4)) o.max_len = 40;
    Bytes b; int k = 1 + (int)draw(3); for (int i = 0; i < k; i++) { Value v = gen_value(o); if (o.overlong) set_overlong(v, EXTS); b += enc(v); } return b;
}
// -------------------------------------------------------------- readers
enum { STREAM, STREAM_SKIP, FILE_SEEK, FILE_NOSEEK, FILE_REAL, NSRC };
static const char* srcname[] = {"stream", "stream+skip", "seekable FILE", "unseekable FILE", "real file"};
static void reader_case() {
    int kind = (int)draw(NSRC); if (kind == FILE_REAL && !chance(1, 6)) kind = FILE_SEEK;
    bool file = kind >= FILE_SEEK;
    Bytes in = gen_doc(chance(1, file ? 2 : 6)); size_t total = in.size();
    size_t avail = chance(1, 4) ? total - 1 - (size_t)draw(total < 40 ? total : 40) : (size_t)draw(total); // fewer than all
    if (avail > total) avail = 0;
    Box box(in); const uint8_t* p = (const uint8_t*)box.p; size_t pos = 0;
    Source src = gen_source(box); src.fail_at = avail; src.fail_mode = (int)draw(5); src.flag = any_error();
    size_t bufsize = MPACK_READER_MINIMUM_BUFFER_SIZE + (size_t)(chance(1, 4) ? draw(3000) : draw(80)); Box buf(bufsize);
    CookieIn ck; std::string path; mpack_reader_t r; bool eio = coin();
    if (!file) { mpack_reader_init(&r, buf.p, buf.n, 0); mpack_reader_set_context(&r, &src); mpack_reader_set_fill(&r, source_fill); if (kind == STREAM_SKIP) mpack_reader_set_skip(&r, source_skip); }
    else if (kind == FILE_REAL) { path = scratch_path("c12"); write_file(path, in.substr(0, avail)); mpack_reader_init_filename(&r, path.c_str()); eio = false; }
    else { ck.data = eio ? in : in.substr(0, avail); if (eio) ck.fail_at = avail; ck.seekable = kind == FILE_SEEK; if (chance(1, 8)) ck.seek_fails = true; else if (chance(1, 8)) ck.tell_only = true; if (coin()) ck.max_read = 1 + (size_t)draw(100); mpack_reader_init_stdfile(&r, open_cookie_in(&ck, pick<size_t>({0, 1, 16, 64, 512})), true); }
    size_t rb = file ? MPACK_BUFFER_SIZE : bufsize;
    note("%s of %zu bytes, %zu arrive, fail mode %d flag %s eio %d: %s", srcname[kind], total, avail, src.fail_mode, err_name(src.flag), eio, hex(in.data(), total, 80).c_str());
    struct Lv { uint64_t left; Kind k; }; std::vector<Lv> st; bool failed = false; const char* op = "?"; size_t ops = 0;
    // after a step that needed bytes up to `end`
    auto after = [&](size_t end) {
        mpack_error_t e = mpack_reader_error(&r);
        if (end <= avail) { CHECK(e == mpack_ok || ck.seek_fails, "%s of bytes %zu..%zu failed with %s, %zu bytes were delivered", op, pos, end, err_name(e), avail); if (e == mpack_ok) { pos = end; return true; } }
        else CHECK(e != mpack_ok, "%s of bytes %zu..%zu reported success although only %zu arrived", op, pos, end, avail);
        if (file) CHECK(e == mpack_error_io || e == mpack_error_eof, "%s at a failing file gave %s", op, err_name(e));
        else CHECK(e == (src.fail_mode >= 2 ? src.flag : mpack_error_io), "%s at a failing source gave %s, expected %s", op, err_name(e), err_name(src.fail_mode >= 2 ? src.flag : mpack_error_io));
        failed = true; label(op); return false;
    };
    while (!failed && pos < total && ops++ < 4000) {
        Tok t = ref_tok(p + pos, total - pos, EXTS); bool container = t.k == ARR || t.k == MAP, data = t.k == STR || t.k == BIN || t.k == EXT;
        uint64_t hash0 = 0; (void)hash0;
        if (chance(1, 3)) { op = "discard"; size_t end = pos + ref_scan(p + pos, total - pos, EXTS).used; mpack_discard(&r); if (!after(end)) break; if (!st.empty()) st.back().left--; }
        else if (t.k == STR && chance(1, 3)) { // a whole string at once
            size_t end = pos + t.hdr + t.len; bool nul = t.len && memchr(p + pos + t.hdr, 0, t.len), utf = ref_utf8(p + pos + t.hdr, t.len);
            Bytes want((const char*)p + pos + t.hdr, t.len); Box b(t.len + 1);
            switch (draw(4)) {
            case 0: { op = "expect_str_buf"; size_t k = mpack_expect_str_buf(&r, b.p, t.len); if (!after(end)) { CHECK(k == 0, "length %zu on error", k); } else CHECK(k == t.len && memcmp(b.p, want.data(), t.len) == 0, "wrong string"); break; }
            case 1: if (nul) continue; { op = "expect_cstr"; mpack_expect_cstr(&r, b.p, b.n); if (!after(end)) CHECK(b.p[0] == 0, "a failed expect_cstr left \"%s\"", hex(b.p, b.n).c_str()); else CHECK(want == b.p, "wrong string"); break; }
            case 2: if (nul) continue; { op = "expect_cstr_alloc"; char* q = mpack_expect_cstr_alloc(&r, t.len + 1); if (!after(end)) CHECK(!q, "block on error"); else { CHECK(q && want == q, "wrong string"); vt_free(q); } break; }
            default: if (nul || !utf) continue; { op = "expect_utf8_cstr"; mpack_expect_utf8_cstr(&r, b.p, b.n); if (!after(end)) CHECK(b.p[0] == 0, "a failed expect_utf8_cstr left data"); else CHECK(want == b.p, "wrong string"); break; }
            }
            if (failed) break; if (!st.empty()) st.back().left--;
        } else if (t.k == BIN && chance(1, 3)) {
            size_t end = pos + t.hdr + t.len; const char* want = (const char*)p + pos + t.hdr; Box b(t.len); size_t k = 77;
            if (coin()) { op = "expect_bin_buf"; k = mpack_expect_bin_buf(&r, b.p, b.n); if (!after(end)) CHECK(k == 0, "length %zu on error", k); else CHECK(k == t.len && memcmp(b.p, want, k) == 0, "wrong data"); }
            else { op = "expect_bin_alloc"; char* q = mpack_expect_bin_alloc(&r, t.len, &k); if (!after(end)) CHECK(!q && k == 0, "block %d size %zu on error", q != NULL, k); else { CHECK(k == t.len && (t.len == 0 || memcmp(q, want, k) == 0), "wrong data"); vt_free(q); } }
            if (failed) break; if (!st.empty()) st.back().left--;
        } else {
            mpack_tag_t g;
            if (chance(1, 4)) { op = "peek_tag"; size_t at = pos; g = mpack_peek_tag(&r); if (!after(pos + t.hdr)) { CHECK(g.type == mpack_type_nil, "tag on error"); break; } pos = at; }
            op = "read_tag"; g = mpack_read_tag(&r);
            size_t at = pos; if (!after(pos + t.hdr)) { CHECK(g.type == mpack_type_nil, "a failed read_tag returned type %d", g.type); break; }
            uint32_t len; Value v = tag_value(g, &len); CHECK(v.k == t.k && v.u == t.u && v.et == t.et && len == t.len, "tag at %zu is %s", at, show(v).c_str());
            if (!st.empty()) st.back().left--;
            if (container) st.push_back({t.k == ARR ? (uint64_t)t.len : 2 * (uint64_t)t.len, t.k});
            if (data) {
                size_t left = t.len; int mode = (int)draw(3);
                while (left || chance(1, 8)) {
                    size_t k = mode == 0 ? left : chance(1, 4) ? (size_t)draw(left + 1) : (size_t)draw(left < 40 ? left + 1 : 40); if (mode && ops++ > 300) k = left;
                    const char* want = (const char*)p + pos; bool good;
                    switch (draw(4)) {
                    case 0: { op = "skip_bytes"; mpack_skip_bytes(&r, k); good = after(pos + k); break; }
                    case 1: { op = "read_bytes"; Box b(k); mpack_read_bytes(&r, b.p, k); good = after(pos + k); if (good) CHECK(memcmp(b.p, want, k) == 0, "read wrong data"); break; }
                    case 2: { op = "read_bytes_alloc"; char* q = mpack_read_bytes_alloc(&r, k); good = after(pos + k); if (good) { CHECK(!k || memcmp(q, want, k) == 0, "read wrong data"); vt_free(q); } else CHECK(!q, "block on error"); break; }
                    default: { if (k > rb) k = rb; op = "read_bytes_inplace"; const char* q = mpack_read_bytes_inplace(&r, k); good = after(pos + k); if (good) CHECK(!k || memcmp(q, want, k) == 0, "read wrong data"); else CHECK(!q, "pointer on error"); break; }
                    }
                    if (!good) break; left -= k;
                }
                if (failed) break;
                mpack_done_type(&r, mpack_tag_type(&g));
            }
        }
        while (!st.empty() && st.back().left == 0) { if (st.back().k == ARR) mpack_done_array(&r); else mpack_done_map(&r); st.pop_back(); }
        CHECK(mpack_reader_error(&r) == mpack_ok, "done: %s", err_name(mpack_reader_error(&r)));
    }
    CHECK(failed, "the whole document was read although %zu of its %zu bytes never arrived", total - avail, total);
    mpack_error_t e = mpack_reader_error(&r), d = mpack_reader_destroy(&r); CHECK(e == d && d != mpack_ok, "destroy returned %s after %s", err_name(d), err_name(e));
    if (kind == FILE_REAL) unlink(path.c_str()); else if (file) CHECK(ck.closed, "file not closed");
    label(srcname[kind]); nontrivial(hash_mix(hash_bytes(in.data(), total, (uint64_t)kind), avail));
}
// ---------------------------------------------------------------- trees
static void tree_case() {
    Bytes in = gen_doc(false); in.resize(ref_scan((const uint8_t*)in.data(), in.size(), EXTS).used);
    size_t total = in.size(), avail = (size_t)draw(total); mpack_tree_t t; Box box(in); mpack_error_t e;
    if (coin()) {
        Source src = gen_source(box); src.fail_at = avail; src.fail_mode = (int)draw(5); src.flag = any_error();
        note("tree stream %zu of %zu bytes, fail mode %d flag %s: %s", avail, total, src.fail_mode, err_name(src.flag), hex(in.data(), total, 80).c_str());
        mpack_tree_init_stream(&t, source_tree_read, &src, total + (size_t)draw(100), 1000000);
        bool nb = coin(); if (!nb) mpack_tree_parse(&t);
        else for (int i = 0;; i++) {
            if (mpack_tree_try_parse(&t)) fail("try_parse returned true although %zu bytes never arrived", total - avail);
            if (mpack_tree_error(&t) != mpack_ok) break;
            if (src.failed && src.fail_mode != 0) fail("a failing read was not reported");
            if (src.failed && i > 3) { label("tree-waiting"); break; } // mode 0 is "no data yet" for try_parse
            if (i > 4000) fail("no progress");
        }
        e = mpack_tree_error(&t);
        if (!nb || src.fail_mode) { mpack_error_t w = src.fail_mode >= 2 ? src.flag : mpack_error_io; CHECK(e == w, "failing stream gave %s, expected %s", err_name(e), err_name(w)); CHECK(mpack_node_is_nil(mpack_tree_root(&t)) && mpack_tree_size(&t) == 0, "a message is exposed although its bytes never arrived"); }
        CHECK(mpack_tree_destroy(&t) == e, "destroy"); label("tree-stream");
    } else {
        CookieIn ck; ck.data = in; int how = (int)draw(3); if (how == 0) ck.seek_fails = true; else if (how == 1) ck.fail_at = avail; else ck.seekable = false; if (coin()) ck.max_read = 1 + (size_t)draw(50);
        note("tree FILE how %d, %zu of %zu: %s", how, avail, total, hex(in.data(), total, 80).c_str());
        bool close = coin(); FILE* f = open_cookie_in(&ck, pick<size_t>({0, 1, 16, 64}));
        mpack_tree_init_stdfile(&t, f, coin() ? 0 : total, close); mpack_tree_parse(&t); e = mpack_tree_error(&t);
        CHECK(e == mpack_error_io, "a failing file gave %s", err_name(e)); CHECK(mpack_node_is_nil(mpack_tree_root(&t)) && mpack_tree_size(&t) == 0, "a message is exposed");
        CHECK(mpack_tree_destroy(&t) == e, "destroy"); CHECK(ck.closed == close, "file closed: %d, asked: %d", ck.closed, close); if (!close) fclose(f); label("tree-file");
    }
    nontrivial(hash_mix(hash_bytes(in.data(), total, 77), avail));
}
// ---------------------------------------------------------------- writers
struct Sink { Bytes out; size_t fail_at; mpack_error_t flag; bool failed = false; };
static void sink_flush(mpack_writer_t* w, const char* p, size_t n) {
    Sink* s = (Sink*)mpack_writer_context(w); if (s->failed) fail("%zu more bytes reached the sink after it failed", n);
    size_t room = s->fail_at - s->out.size(); if (n <= room) { s->out.append(p, n); return; }
    s->out.append(p, room); s->failed = true; mpack_writer_flag_error(w, s->flag);
}
struct FM { mpack_writer_t* w; bool allowed; };
static void between(mpack_writer_t*, void*) { }
static void writer_case() {
    GenOpt go; go.ext = EXTS; if (chance(1, 4)) { go.max_len = 9000; go.max_nodes = 12; }
    int nm = 1 + (int)draw(4); std::vector<Value> vs; Bytes want; for (int i = 0; i < nm; i++) { vs.push_back(gen_value(go)); want += enc(vs.back()); }
    EmitOpt eo; eo.builders = coin(); eo.between = between; size_t total = want.size();
    int kind = (int)draw(6); if (kind >= 4 && !chance(1, 4)) kind = (int)draw(4);
    mpack_writer_t w; Sink s; CookieOut ck; FILE* f = NULL; Box buf(MPACK_WRITER_MINIMUM_BUFFER_SIZE + (size_t)(chance(1, 3) ? draw(3000) : draw(100)));
    size_t room = chance(1, 3) ? total - 1 - (size_t)draw(total < 30 ? total : 30) : (size_t)draw(total); if (room > total) room = 0; bool close = true;
    switch (kind) {
    case 0: case 1: s.fail_at = room; s.flag = any_error(); mpack_writer_init(&w, buf.p, buf.n); mpack_writer_set_context(&w, &s); mpack_writer_set_flush(&w, sink_flush); break;
    case 2: ck.fail_at = room; if (coin()) ck.max_write = 1 + (size_t)draw(60); f = open_cookie_out(&ck, pick<size_t>({0, 1, 16, 4096, 20000})); mpack_writer_init_stdfile(&w, f, true); break;
    case 3: ck.close_fails = true; f = open_cookie_out(&ck, pick<size_t>({0, 1, 16, 4096})); mpack_writer_init_stdfile(&w, f, true); break;
    case 4: ck.fail_at = room; close = false; f = open_cookie_out(&ck, pick<size_t>({0, 1, 16})); mpack_writer_init_stdfile(&w, f, false); break;
    default: mpack_writer_init_filename(&w, "/dev/full"); break;
    }
    note("writer kind %d room %zu of %zu", kind, room, total); for (auto& v : vs) note("  %s", show(v).c_str());
    for (auto& v : vs) { emit(&w, v, eo); if (coin()) mpack_writer_flush_message(&w); }
    mpack_error_t e = mpack_writer_destroy(&w);
    if (kind <= 1) { CHECK(s.failed && e == s.flag, "the sink failed after %zu of %zu bytes with %s; the writer ended in %s", room, total, err_name(s.flag), err_name(e)); CHECK(s.out == want.substr(0, room), "sink contents are not a prefix"); }
    else if (kind == 4) { // without close, a failure may stay hidden in the stdio buffer, but then stdio reports it
        bool later = fflush(f) != 0 || ferror(f); CHECK(e != mpack_ok || later || ck.data.size() == total, "nobody reported the missing bytes"); if (e != mpack_ok) CHECK(e == mpack_error_io, "%s", err_name(e)); fclose(f); }
    else { CHECK(e == mpack_error_io, "writer kind %d with a failing file ended in %s, %zu of %zu bytes arrived", kind, err_name(e), ck.data.size(), total); if (kind != 5) { CHECK(ck.closed, "file not closed"); if (kind == 2) CHECK(want.compare(0, ck.data.size(), ck.data) == 0, "file contents are not a prefix"); } }
    (void)close; static const char* nm_[] = {"writer-flush", "writer-flush", "writer-file", "writer-close-fails", "writer-noclose", "writer-dev-full"}; label(nm_[kind]);
    nontrivial(hash_mix(hash_bytes(want.data(), total, (uint64_t)kind + 5), room));
}
void pbt::property_case() {
    (void)enumerated();
    switch (draw(4)) { case 0: case 1: reader_case(); break; case 2: tree_case(); break; default: writer_case(); }
}
