// C28: file writers, readers and trees against their in-memory counterparts.
#include "treecmp.h"
#include "files.h"
#include <setjmp.h>
#include <fcntl.h>
using namespace pbt;
const char* pbt::harness_name = "c28";
static jmp_buf jb; static int jumps;
static int low_fd() { int fd = open("/dev/null", O_RDONLY); if (fd < 0) abort(); close(fd); return fd; }
static mpack_error_t any_error() { return pick({mpack_error_io, mpack_error_invalid, mpack_error_type, mpack_error_memory, mpack_error_data}); }
// sizes around buffer multiples
static size_t gen_size() {
    size_t b = MPACK_BUFFER_SIZE;
    switch (draw(6)) {
    case 0: return (size_t)draw(40);
    case 1: return (size_t)draw(300);
    case 2: return b * (1 + (size_t)draw(4)) + (size_t)draw(17) - 8;
    case 3: return b / 2 + (size_t)draw(9) - 4;
    case 4: return b + (size_t)draw(2 * b);
    default: return (size_t)draw(60);
    }
}
static std::vector<Value> gen_msgs() {
    GenOpt o; o.ext = EXTS; std::vector<Value> vs; int k = (int)draw(5);
    for (int i = 0; i < k; i++) {
        if (chance(1, 3)) { size_t n = gen_size(); Kind kk = pick({STR, BIN}); vs.push_back(mk_data(kk, kk == STR ? gen_text(n, true) : gen_bytes(n))); }
        else { if (chance(1, 5)) { o.max_len = 5000; o.max_nodes = 8; } vs.push_back(gen_value(o)); }
    }
    return vs;
}
static void on_werr(mpack_writer_t*, mpack_error_t) { jumps++; longjmp(jb, 1); }
static void on_rerr(mpack_reader_t*, mpack_error_t) { jumps++; longjmp(jb, 1); }
static size_t pick_buf() { return pick<size_t>({0, 1, 16, 64, 4096}); }

// -------------------------------------------------------------- writer
static void writer_case() {
    static std::vector<Value> vs; static Bytes want; vs = gen_msgs(); want.clear(); for (auto& v : vs) want += enc(v);
    bool ext_ok = true; (void)ext_ok;
    int kind = (int)draw(3); // filename, real FILE, cookie
    bool close = kind == 0 || coin(), jump = chance(1, 4); int inject = chance(1, 5) ? (int)draw(vs.size() + 1) : -1; mpack_error_t ie = any_error();
    bool noalloc = kind != 2 ? false : chance(1, 10);
    static Bytes prefix; prefix = kind == 0 ? Bytes() : gen_bytes((size_t)draw(20)); std::string path; FILE* f = NULL; CookieOut ck; int fd0 = low_fd();
    if (kind == 2 && chance(1, 8)) ck.close_fails = true;
    if (kind < 2) { path = scratch_path("c28w"); if (coin()) write_file(path, std::string((size_t)draw(3000), 'Z')); else unlink(path.c_str()); }
    if (kind == 1) { f = fopen(path.c_str(), "wb"); if (!f) abort(); if (coin()) setvbuf(f, NULL, _IONBF, 0); }
    if (kind == 2) { f = open_cookie_out(&ck, pick_buf()); }
    if (f && prefix.size()) fwrite(prefix.data(), 1, prefix.size(), f);
    note("writer kind %d close %d jump %d inject %d(%s) prefix %zu close_fails %d", kind, close, jump, inject, err_name(ie), prefix.size(), ck.close_fails); for (auto& v : vs) note("  %s", show(v).c_str());
    EmitOpt eo; eo.builders = coin(); static mpack_writer_t w; static bool destroyed; static mpack_error_t de; destroyed = false; de = mpack_ok; jumps = 0; static size_t done; done = 0;
    if (noalloc) vt.fail_at = 1;
    if (kind == 0) { if (chance(1, 4)) mpack_writer_init_file(&w, path.c_str()); else mpack_writer_init_filename(&w, path.c_str()); } else mpack_writer_init_stdfile(&w, f, close);
    vt.fail_at = 0;
    if (noalloc) {
        CHECK(mpack_writer_error(&w) == mpack_error_memory, "no buffer: %s", err_name(mpack_writer_error(&w)));
        CHECK(ck.closed == close, "after a failed init the FILE is %s, asked to %s", ck.closed ? "closed" : "open", close ? "close" : "leave it open");
        mpack_write_int(&w, 5); CHECK(mpack_writer_destroy(&w) == mpack_error_memory, "destroy"); if (!close) fclose(f); CHECK(ck.closes == 1, "closed %d times", ck.closes); CHECK(ck.data == prefix, "bytes written"); label("writer-init-fails"); nontrivial(hash_bytes(prefix.data(), prefix.size(), 5)); return;
    }
    CHECK(mpack_writer_error(&w) == mpack_ok, "init: %s", err_name(mpack_writer_error(&w)));
    if (jump) mpack_writer_set_error_handler(&w, on_werr);
    if (setjmp(jb) == 0) {
        for (size_t i = 0; i < vs.size(); i++) {
            if ((int)i == inject) mpack_writer_flag_error(&w, ie);
            emit(&w, vs[i], eo); if (mpack_writer_error(&w) == mpack_ok) done += enc(vs[i]).size();
            if (coin() && mpack_writer_error(&w) == mpack_ok) { mpack_writer_flush_message(&w); CHECK(mpack_writer_error(&w) == mpack_ok, "flush: %s", err_name(mpack_writer_error(&w)));
                CHECK(mpack_writer_buffer_used(&w) == 0, "%zu bytes left after a flush", mpack_writer_buffer_used(&w));
                if (f && kind == 1) { long at = ftell(f); CHECK(at == (long)(prefix.size() + done), "after flushing %zu bytes the file position is %ld (start %zu)", done, at, prefix.size()); } }
        }
        if (inject == (int)vs.size()) mpack_writer_flag_error(&w, ie);
    }
    if (setjmp(jb) == 0) de = mpack_writer_destroy(&w); else { destroyed = true; if (setjmp(jb) == 0) de = mpack_writer_destroy(&w); else fail("the second destroy jumped again"); }
    mpack_error_t expect = inject >= 0 ? ie : ck.close_fails && close ? mpack_error_io : mpack_ok;
    CHECK(de == expect, "destroy returned %s, expected %s", err_name(de), err_name(expect)); CHECK(jumps == (jump && expect != mpack_ok ? 1 : 0), "error callback called %d times", jumps); (void)destroyed;
    Bytes got, suffix;
    if (kind == 2) CHECK(ck.closed == close && ck.closes == (close ? 1 : 0), "FILE closed %d times, asked to %s", ck.closes, close ? "close" : "leave it open");
    if (f && !close) { suffix = "end"; CHECK(fwrite("end", 1, 3, f) == 3, "the FILE is unusable afterwards"); int c = fclose(f); CHECK(c == 0 || ck.close_fails, "fclose failed"); }
    if (kind == 2) { CHECK(ck.closes == 1, "FILE closed %d times", ck.closes); got = ck.data; } else CHECK(read_file(path, got), "no file");
    CHECK(low_fd() == fd0, "a file descriptor was leaked");
    if (kind < 2) unlink(path.c_str());
    if (expect == mpack_ok || (inject < 0)) CHECK(got == prefix + want + suffix, "file holds %zu bytes %s, expected %zu", got.size(), hex(got.data(), got.size(), 60).c_str(), prefix.size() + want.size() + suffix.size());
    else { CHECK(got.size() >= prefix.size() + suffix.size() && got.compare(0, prefix.size(), prefix) == 0, "prefix lost"); Bytes mid = got.substr(prefix.size(), got.size() - prefix.size() - suffix.size()); CHECK(mid == want.substr(0, mid.size()) && mid.size() <= done, "after an error the file holds bytes that were not written before it"); }
    label(kind == 0 ? "writer-filename" : kind == 1 ? "writer-FILE" : "writer-cookie"); if (want.size() > MPACK_BUFFER_SIZE) label("larger than buffer"); if (expect != mpack_ok) label("writer-error");
    nontrivial(hash_mix(hash_bytes(want.data(), want.size(), (uint64_t)kind), prefix.size()));
}
// -------------------------------------------------------------- reader
// The same script of reads on both readers, in step.
struct In { Bytes prefix, data; std::string path; FILE* f = NULL; CookieIn ck; int kind; };
static void open_in(In& in, bool with_prefix) {
    in.kind = (int)draw(3); in.prefix = with_prefix && in.kind ? gen_bytes((size_t)draw(40)) : Bytes();
    if (in.kind < 2) { in.path = scratch_path("c28r"); write_file(in.path, in.prefix + in.data); }
    if (in.kind == 1) { in.f = fopen(in.path.c_str(), "rb"); if (!in.f) abort(); if (coin()) setvbuf(in.f, NULL, _IONBF, 0); }
    if (in.kind == 2) { in.ck.data = in.prefix + in.data; in.ck.seekable = coin(); if (with_prefix && chance(1, 5)) in.ck.tell_only = true; if (coin()) in.ck.max_read = 1 + (size_t)draw(100); in.ck.close_fails = chance(1, 8); in.f = open_cookie_in(&in.ck, pick_buf()); }
    for (size_t i = 0; i < in.prefix.size(); i++) if (fgetc(in.f) != (uint8_t)in.prefix[i]) abort();
}
static void reader_case() {
    static In in; in = In(); Bytes d;
    if (chance(1, 4)) d = gen_wire(400, EXTS); else for (auto& v : gen_msgs()) { Value x = v; if (coin()) set_overlong(x, EXTS); d += enc(x); }
    if (chance(1, 4) && d.size()) d.resize((size_t)draw(d.size()));
    in.data = d; int fd0 = low_fd(); open_in(in, true);
    bool close = in.kind == 0 || coin(), jump = chance(1, 4), noalloc = in.kind == 2 && chance(1, 12); int inject = chance(1, 6) ? (int)draw(20) : -1; mpack_error_t ie = any_error(); int stop = chance(1, 3) ? (int)draw(8) : 300;
    note("reader kind %d close %d jump %d seekable %d close_fails %d prefix %zu, %zu bytes: %s", in.kind, close, jump, in.ck.seekable, in.ck.close_fails, in.prefix.size(), d.size(), hex(d.data(), d.size(), 80).c_str());
    static mpack_reader_t a, b; Box box(d);
    if (noalloc) vt.fail_at = 1;
    if (in.kind == 0) { if (chance(1, 4)) mpack_reader_init_file(&a, in.path.c_str()); else mpack_reader_init_filename(&a, in.path.c_str()); } else mpack_reader_init_stdfile(&a, in.f, close);
    vt.fail_at = 0;
    if (noalloc) { CHECK(mpack_reader_error(&a) == mpack_error_memory, "no buffer: %s", err_name(mpack_reader_error(&a))); CHECK(in.ck.closed == close, "after a failed init the FILE is %s", in.ck.closed ? "closed" : "open"); CHECK(mpack_read_tag(&a).type == mpack_type_nil && mpack_reader_destroy(&a) == mpack_error_memory, "destroy"); if (!close) fclose(in.f); CHECK(in.ck.closes == 1, "closed %d times", in.ck.closes); label("reader-init-fails"); nontrivial(hash_bytes(d.data(), d.size(), 9)); return; }
    mpack_reader_init_data(&b, box.p, box.n);
    static int steps; static bool injected; steps = 0; injected = false; jumps = 0; static size_t open_levels; open_levels = 0; static mpack_error_t de; de = mpack_ok;
    auto same_err = [&]() { mpack_error_t x = mpack_reader_error(&a), y = mpack_reader_error(&b); if (x == mpack_ok && y == mpack_ok) return true; if (x == mpack_ok || y == mpack_ok) fail("after step %d the file reader is in %s and the memory reader in %s", steps, err_name(x), err_name(y));
        if (y == mpack_error_invalid) CHECK(x == mpack_error_invalid || x == mpack_error_io || x == mpack_error_eof, "file reader %s, memory reader %s", err_name(x), err_name(y)); else CHECK(x == y, "file reader %s, memory reader %s", err_name(x), err_name(y)); return false; };
    if (jump) mpack_reader_set_error_handler(&a, on_rerr);
    size_t rb = MPACK_BUFFER_SIZE; std::vector<std::pair<uint64_t, Kind>> st;
    auto run = [&]() {
        for (; steps < stop; steps++) {
            if (steps == inject) { injected = true; mpack_reader_flag_error(&b, ie); mpack_reader_flag_error(&a, ie); return; }
            while (!st.empty() && st.back().first == 0) { if (st.back().second == ARR) { mpack_done_array(&b); mpack_done_array(&a); } else { mpack_done_map(&b); mpack_done_map(&a); } st.pop_back(); }
            if (chance(1, 4)) { mpack_discard(&b); mpack_discard(&a); if (!same_err()) return; if (!st.empty()) st.back().first--; continue; }
            if (chance(1, 5)) { mpack_tag_t y = mpack_peek_tag(&b), x = mpack_peek_tag(&a); if (!same_err()) return; CHECK(mpack_tag_equal(x, y), "peeked tags differ"); }
            mpack_tag_t y = mpack_read_tag(&b), x = mpack_read_tag(&a); if (!same_err()) return;
            uint32_t la, lb; Value va = tag_value(x, &la), vb = tag_value(y, &lb); CHECK(va.k == vb.k && va.u == vb.u && va.et == vb.et && la == lb, "step %d: the file gives %s len %u, memory %s len %u", steps, show(va).c_str(), la, show(vb).c_str(), lb);
            if (!st.empty()) st.back().first--;
            if (va.k == ARR || va.k == MAP) st.push_back({va.k == ARR ? (uint64_t)la : 2 * (uint64_t)la, va.k});
            else if (va.k == STR || va.k == BIN || va.k == EXT) {
                size_t left = la; bool whole = coin();
                while (left) {
                    size_t k = whole ? left : 1 + (size_t)draw(left < 100 || chance(1, 4) ? left : 100); int how = (int)draw(4); if (how == 2 && k > rb) how = 0;
                    if (how == 1 || how == 3) { if (k > (1u << 20)) how = 0; }
                    switch (how) {
                    case 0: mpack_skip_bytes(&b, k); mpack_skip_bytes(&a, k); if (!same_err()) return; break;
                    case 2: { const char* q = mpack_read_bytes_inplace(&b, k); const char* p = mpack_read_bytes_inplace(&a, k); if (!same_err()) return; CHECK(memcmp(p, q, k) == 0, "in-place bytes differ"); break; }
                    case 3: { char* q = mpack_read_bytes_alloc(&b, k); if (mpack_reader_error(&b) != mpack_ok) { mpack_read_bytes_alloc(&a, k); same_err(); return; } char* p = mpack_read_bytes_alloc(&a, k); if (!p) { same_err(); fail("no block"); } bool eq_ = memcmp(p, q, k) == 0; vt_free(p); vt_free(q); CHECK(eq_, "allocated bytes differ"); break; }
                    default: { static std::vector<char> p, q; p.assign(k, 1); q.assign(k, 2); mpack_read_bytes(&b, q.data(), k); mpack_read_bytes(&a, p.data(), k); if (!same_err()) return; CHECK(p == q, "bytes differ"); }
                    }
                    left -= k; if (!whole && ++steps > 300) whole = true;
                }
                mpack_done_type(&b, mpack_tag_type(&y)); mpack_done_type(&a, mpack_tag_type(&x));
            }
        }
    };
    if (setjmp(jb) == 0) run();
    bool err = mpack_reader_error(&a) != mpack_ok;
    if (err) CHECK(mpack_reader_error(&b) != mpack_ok, "the file reader fails with %s where the memory reader goes on (step %d)", err_name(mpack_reader_error(&a)), steps);
    if (!err && !st.empty()) { mpack_reader_flag_error(&b, mpack_error_data); if (setjmp(jb) == 0) mpack_reader_flag_error(&a, mpack_error_data); }
    mpack_error_t before = mpack_reader_error(&a); mpack_reader_destroy(&b);
    if (setjmp(jb) == 0) de = mpack_reader_destroy(&a); else { if (setjmp(jb) == 0) de = mpack_reader_destroy(&a); else fail("the second destroy jumped again"); }
    mpack_error_t expect = before != mpack_ok ? before : in.ck.close_fails && close ? mpack_error_io : mpack_ok;
    CHECK(de == expect, "destroy returned %s, expected %s", err_name(de), err_name(expect)); CHECK(jumps == (jump && expect != mpack_ok ? 1 : 0), "error callback called %d times", jumps);
    if (injected) CHECK(de == ie, "flagged %s, got %s", err_name(ie), err_name(de));
    if (in.kind == 2) CHECK(in.ck.closed == close, "FILE is %s, asked to %s", in.ck.closed ? "closed" : "open", close ? "close it" : "leave it open");
    if (in.f && !close) { (void)ftell(in.f); rewind(in.f); int c = fgetc(in.f); if (in.kind == 1) { Bytes all = in.prefix + in.data; CHECK(c == (all.empty() ? EOF : (int)(uint8_t)all[0]), "the FILE is unusable afterwards"); } fclose(in.f); }
    if (in.kind == 2) CHECK(in.ck.closes == 1, "FILE closed %d times", in.ck.closes);
    if (in.kind < 2) unlink(in.path.c_str());
    CHECK(low_fd() == fd0, "a file descriptor was leaked");
    label(in.kind == 0 ? "reader-filename" : in.kind == 1 ? "reader-FILE" : "reader-cookie"); if (d.size() > MPACK_BUFFER_SIZE) label("larger than buffer"); if (expect != mpack_ok) label("reader-error");
    nontrivial(hash_mix(hash_bytes(d.data(), d.size(), 100 + (uint64_t)in.kind), in.prefix.size()));
}
// -------------------------------------------------------------- tree
static void tree_case() {
    static In in; in = In(); Bytes d;
    if (chance(1, 3)) d = gen_wire(400, EXTS); else { std::vector<Value> vs = gen_msgs(); for (auto& v : vs) { if (coin()) set_overlong(v, EXTS); d += enc(v); } }
    if (chance(1, 6) && d.size()) d.resize((size_t)draw(d.size()));
    in.data = d; int fd0 = low_fd(); open_in(in, false); in.ck.seekable = true; if (in.kind == 2) { fclose(in.f); in.ck.closes = 0; in.ck.closed = false; in.ck.pos = 0; in.f = open_cookie_in(&in.ck, pick_buf()); }
    bool close = in.kind == 0 || coin(); size_t max = pick<size_t>({0, d.size(), d.size() + 1, d.size() + 1000, (size_t)LONG_MAX, d.size() ? d.size() - 1 : 0, d.size() / 2, (size_t)LONG_MAX + 1, (size_t)-1, (size_t)(sizeof(size_t) > 4 ? ((uint64_t)1 << 32) + draw(d.size() + 1) : 0)});
    int failn = chance(1, 10) ? 1 + (int)draw(3) : 0;
    note("tree kind %d close %d max %zu fail alloc %d, %zu bytes: %s", in.kind, close, max, failn, d.size(), hex(d.data(), d.size(), 80).c_str());
    static mpack_tree_t t, m; Box box(d); vt.fail_at = failn; vt.allow_break = true;
    if (in.kind == 0) { if (chance(1, 4)) mpack_tree_init_file(&t, in.path.c_str(), max); else mpack_tree_init_filename(&t, in.path.c_str(), max); } else mpack_tree_init_stdfile(&t, in.f, max, close);
    mpack_error_t e0 = mpack_tree_error(&t); if (in.kind == 2) CHECK(in.ck.closed == close, "after init the FILE is %s, asked to %s", in.ck.closed ? "closed" : "open", close ? "close it" : "leave it open");
    mpack_tree_parse(&t); mpack_error_t e = mpack_tree_error(&t); long nf = vt.nfailed; vt.fail_at = 0;
    if (max > (size_t)LONG_MAX) CHECK(e == mpack_error_bug, "an impossible limit gave %s", err_name(e));
    else if (nf) CHECK(e == mpack_error_memory, "failed allocation gave %s", err_name(e));
    else if (d.empty()) CHECK(e0 == mpack_error_invalid && e == e0, "an empty file gave %s", err_name(e));
    else if (max && d.size() > max) CHECK(e0 == mpack_error_too_big && e == e0, "a file of %zu bytes with a limit of %zu gave %s", d.size(), max, err_name(e));
    else {
        mpack_tree_init_data(&m, box.p, box.n); mpack_tree_parse(&m);
        CHECK(e == mpack_tree_error(&m), "file: %s, memory: %s", err_name(e), err_name(mpack_tree_error(&m))); CHECK(e0 == mpack_ok, "init gave %s", err_name(e0));
        if (e == mpack_ok) { CHECK(mpack_tree_size(&t) == mpack_tree_size(&m), "sizes %zu and %zu", mpack_tree_size(&t), mpack_tree_size(&m)); cmp_tree(mpack_tree_root(&t), (const uint8_t*)d.data(), mpack_tree_size(&t), NULL); label("tree-ok"); } else label("tree-error");
        mpack_tree_destroy(&m);
    }
    if (e != mpack_ok) CHECK(mpack_tree_size(&t) == 0 && mpack_node_is_nil(mpack_tree_root(&t)), "a message is exposed after an error");
    CHECK(mpack_tree_destroy(&t) == e, "destroy");
    if (max > (size_t)LONG_MAX && in.kind == 0) ; else if (in.f && !close) { rewind(in.f); int c = fgetc(in.f); CHECK(c == (d.empty() ? EOF : (int)(uint8_t)d[0]), "the FILE is unusable afterwards"); fclose(in.f); }
    if (in.kind == 2) CHECK(in.ck.closes == 1, "FILE closed %d times", in.ck.closes);
    if (in.kind < 2) unlink(in.path.c_str());
    CHECK(low_fd() == fd0, "a file descriptor was leaked");
    if (max > (size_t)LONG_MAX) label("tree-impossible-limit"); else if (max && max < d.size()) label("tree-too-big"); if (d.empty()) label("tree-empty");
    nontrivial(hash_mix(hash_bytes(d.data(), d.size(), 200 + (uint64_t)in.kind), max));
}
// -------------------------------------------------------------- missing files
static void missing_case() {
    static const char* const names[] = {"/no/such/dir/x", "missing", "dir"}; int which = (int)draw(3); int fd0 = low_fd();
    std::string p = which == 0 ? names[0] : scratch_path(names[which]); bool dir = which == 2; int op = (int)draw(3); note("missing %s op %d", p.c_str(), op); vt.allow_break = true; vt.leak_check = true;
    if (dir) p = p.substr(0, p.rfind('/') + 1); mpack_error_t e;
    if (op == 0) { if (which == 1) p += "/x"; mpack_writer_t w; mpack_writer_init_filename(&w, p.c_str()); e = mpack_writer_error(&w); CHECK(e == mpack_error_io, "writer: %s", err_name(e)); mpack_write_cstr(&w, "x"); mpack_start_array(&w, 1); mpack_finish_array(&w); mpack_writer_flush_message(&w); CHECK(mpack_writer_destroy(&w) == e, "destroy"); }
    else if (op == 1) { mpack_reader_t r; mpack_reader_init_filename(&r, p.c_str()); e = mpack_reader_error(&r); if (!dir) CHECK(e == mpack_error_io, "reader: %s", err_name(e)); mpack_tag_t g = mpack_read_tag(&r); CHECK(g.type == mpack_type_nil, "a tag from nowhere"); mpack_discard(&r); e = mpack_reader_error(&r); CHECK(e == mpack_error_io || (dir && e == mpack_error_eof), "reader: %s", err_name(e)); CHECK(mpack_reader_destroy(&r) == e, "destroy"); }
    else { mpack_tree_t t; mpack_tree_init_filename(&t, p.c_str(), pick<size_t>({0, 1, 1000})); e = mpack_tree_error(&t); CHECK(dir ? e != mpack_ok : e == mpack_error_io, "tree: %s", err_name(e)); mpack_tree_parse(&t); CHECK(mpack_node_is_nil(mpack_tree_root(&t)) && mpack_tree_error(&t) == e && mpack_tree_destroy(&t) == e, "destroy"); }
    CHECK(low_fd() == fd0, "a file descriptor was leaked"); label("missing"); nontrivial((uint64_t)which * 10 + (uint64_t)op);
}
void pbt::property_case() {
    (void)enumerated();
    switch (draw(16)) { case 0: missing_case(); break; case 1: case 2: case 3: case 4: case 5: writer_case(); break; case 6: case 7: case 8: case 9: tree_case(); break; default: reader_case(); break; }
}
