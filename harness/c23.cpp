// C23: skipping consumes exactly what reading would.
#include "drv.h"
#include "files.h"
using namespace pbt;
const char* pbt::harness_name = "c23";
#ifdef VT_NO_EXT
static const bool EXTS = false;
#else
static const bool EXTS = true;
#endif
uint64_t pbt_exhaustive_total() { return boundary_total() * 2 + 12; }
enum { MEM, STREAM, STREAM_SKIP, FILE_SEEK, FILE_NOSEEK, FILE_REAL, NSRC };
static const char* srcname[] = {"memory", "stream", "stream+skip", "seekable FILE", "unseekable FILE", "real file"};

// Data of 2^32-1 bytes skipped by the skip function, from memory and by seeking: nothing is really stored.
struct Virtual { Bytes head, tail; uint64_t body, pos; uint64_t total() { return head.size() + body + tail.size(); } unsigned char at(uint64_t i) { return (unsigned char)(i < head.size() ? head[(size_t)i] : i < head.size() + body ? 'x' : tail[(size_t)(i - head.size() - body)]); } };
static size_t vfill(mpack_reader_t* r, char* b, size_t n) { Virtual* v = (Virtual*)mpack_reader_context(r); size_t k = 0; while (k < n && v->pos < v->total() && k < 50) b[k++] = (char)v->at(v->pos++); return k; }
static void vskip(mpack_reader_t* r, size_t n) { Virtual* v = (Virtual*)mpack_reader_context(r); if (n > v->total() - v->pos) mpack_reader_flag_error(r, mpack_error_io); else v->pos += n; }
static void huge_skip(int which) {
    uint32_t len = which & 1 ? 0xffffffffu : 0x80000000u + (uint32_t)draw(100); Virtual v; v.body = len; v.pos = 0;
    uint8_t op = (which >> 1) % 3 == 0 ? 0xdb : (which >> 1) % 3 == 1 || !EXTS ? 0xc6 : 0xc9; v.head += (char)op; for (int i = 24; i >= 0; i -= 8) v.head += (char)(len >> i); if (op == 0xc9) v.head += (char)7;
    if (which >= 6) { v.head = "\x92" + v.head; } // inside an array
    v.tail = "\x2a\xa2hi"; Box buf(MPACK_READER_MINIMUM_BUFFER_SIZE + (size_t)draw(100)); mpack_reader_t r; bool mem = sizeof(size_t) > 4 && (which & 1) && huge_region();
    if (mem) { char* p = huge_message(v.head); memcpy(p + v.head.size() + v.body, v.tail.data(), v.tail.size()); mpack_reader_init_data(&r, p, (size_t)v.total()); }
    else { mpack_reader_init(&r, buf.p, buf.n, 0); mpack_reader_set_context(&r, &v); mpack_reader_set_fill(&r, vfill); mpack_reader_set_skip(&r, vskip); }
    if (coin()) mpack_discard(&r); else { if (which >= 6) mpack_expect_array_match(&r, 2); mpack_tag_t t = mpack_read_tag(&r); size_t first = coin() ? (size_t)draw(200) : len - (size_t)draw(200); if (coin()) first = 0; mpack_skip_bytes(&r, first); mpack_skip_bytes(&r, len - first); mpack_done_type(&r, t.type); if (which >= 6) { CHECK(mpack_expect_u8(&r) == 42, "not the element after the skipped data"); mpack_done_array(&r); } else CHECK(mpack_expect_u8(&r) == 42, "not the element after the skipped data"); v.tail[0] = 0; }
    if (v.tail[0] && which < 6) CHECK(mpack_expect_u8(&r) == 42, "not the element after the skipped data");
    CHECK(mpack_reader_error(&r) == mpack_ok, "skipping %u bytes: %s", len, err_name(mpack_reader_error(&r))); mpack_expect_str_match(&r, "hi", 2);
    CHECK(mpack_reader_destroy(&r) == mpack_ok, "not the element after the skipped data"); if (mem) { char* p = huge_region(); memset(p + v.head.size() + v.body, 0, 16); } label("over-31-bits"); nontrivial((uint64_t)which * 2 + 1);
}
void pbt::property_case() {
    int64_t ex = enumerated();
    Bytes in; int kind; bool deep = false;
    if (ex >= (int64_t)boundary_total() * 2) { huge_skip((int)(ex - (int64_t)boundary_total() * 2)); return; }
    if (ex < 0 && chance(1, 500)) { huge_skip((int)draw(12)); return; }
    if (ex >= 0) { Value v = boundary_value((uint64_t)ex / 2); if (v.k == EXT && !EXTS) return; in = enc(v); if (v.s.size() && chance(1, 3)) in.resize(in.size() - 1 - (size_t)draw(in.size() - 1)); else in += Bytes("\x93\x01\xa2hi\xc0", 6); }
    else if (chance(1, 300)) { in = gen_deep(chance(1, 8) ? 20000 : 500, chance(3, 4)); deep = true; }
    else if (chance(1, 20)) { GenOpt o; o.max_len = 9000; o.max_nodes = 12; in = enc(gen_value(o)); if (coin() && in.size()) in.resize((size_t)draw(in.size())); }
    else in = gen_wire(chance(1, 8) ? 3000 : 200, EXTS);
    kind = (int)draw(NSRC); if (kind == FILE_REAL && !chance(1, 8)) kind = FILE_SEEK;
    Box box(in); const uint8_t* p = (const uint8_t*)box.p; size_t n = box.n, pos = 0;
    Source src = gen_source(box); src.fail_mode = (int)draw(2);
    size_t bufsize = MPACK_READER_MINIMUM_BUFFER_SIZE + (size_t)(chance(1, 4) ? draw(3000) : draw(80));
    Box buf(bufsize);
    CookieIn ck; FILE* f = NULL; std::string path;
    mpack_reader_t r;
    bool stream = kind != MEM, file = kind >= FILE_SEEK;
    if (kind == MEM) mpack_reader_init_data(&r, box.p, box.n);
    else if (!file) { mpack_reader_init(&r, buf.p, buf.n, 0); mpack_reader_set_context(&r, &src); mpack_reader_set_fill(&r, source_fill); if (kind == STREAM_SKIP) mpack_reader_set_skip(&r, source_skip); }
    else if (kind == FILE_REAL) { path = scratch_path("c23"); write_file(path, in); mpack_reader_init_filename(&r, path.c_str()); }
    else { ck.data = in; ck.seekable = kind == FILE_SEEK; if (chance(1, 6)) { ck.tell_only = true; label("tell-only FILE"); } if (coin()) ck.max_read = 1 + (size_t)draw(100); f = open_cookie_in(&ck, pick<size_t>({0, 1, 16, 64, 512})); mpack_reader_init_stdfile(&r, f, true); }
    note("%s, buffer %zu, input %zu bytes: %s", srcname[kind], bufsize, n, hex(in.data(), n).c_str());
    struct Lv { uint64_t left; Kind k; }; std::vector<Lv> st; size_t ops = 0, skipped = 0; bool failed = false;
    auto position = [&](const char* what) {
#if !MPACK_READ_TRACKING
        if (file) return;
        const char* d; size_t rem = mpack_reader_remaining(&r, &d);
        size_t at = (stream ? src.pos : n) - rem;
        CHECK(at == pos, "%s: reader stands at %zu, expected %zu", what, at, pos);
#else
        (void)what;
#endif
    };
    auto err = [&](TokStatus s, const char* what) {
        mpack_error_t e = mpack_reader_error(&r), w = s == T_TRUNC ? (stream ? mpack_error_io : mpack_error_invalid) : s == T_RESERVED ? mpack_error_invalid : mpack_error_unsupported;
        bool okk = e == w || (file && s == T_TRUNC && (e == mpack_error_eof || e == mpack_error_io));
        CHECK(okk, "%s of incomplete or malformed data at %zu: error %s, expected %s", what, pos, err_name(e), err_name(w));
        failed = true; label(s == T_TRUNC ? "truncated" : "malformed");
    };
    while (!failed && pos < n && ops < 3000) {
        ops++;
        Parse sc = ref_scan(p + pos, n - pos, EXTS);
        Tok t = ref_tok(p + pos, n - pos, EXTS);
        if (chance(3, 5)) {
            mpack_discard(&r);
            if (sc.st != T_OK) { err(sc.st, "discard"); break; }
            CHECK(mpack_reader_error(&r) == mpack_ok, "discard of a valid element (%zu bytes at %zu) failed with %s", sc.used, pos, err_name(mpack_reader_error(&r)));
            pos += sc.used; skipped++;
            if (!st.empty()) st.back().left--;
            position("after discard");
        } else {
            mpack_tag_t g = mpack_read_tag(&r);
            if (t.st != T_OK) { err(t.st, "read"); break; }
            CHECK(mpack_reader_error(&r) == mpack_ok, "reading a tag at %zu: %s", pos, err_name(mpack_reader_error(&r)));
            uint32_t len; Value v = tag_value(g, &len);
            CHECK(v.k == t.k && v.u == t.u && v.et == t.et && len == t.len, "tag at %zu is %s len %u, expected %s len %u", pos, show(v).c_str(), len, kind_name(t.k), t.len);
            pos += t.hdr; if (!st.empty()) st.back().left--;
            if (t.k == ARR || t.k == MAP) st.push_back({t.k == ARR ? (uint64_t)t.len : 2 * (uint64_t)t.len, t.k});
            if (t.k == STR || t.k == BIN || t.k == EXT) {
                size_t left = t.len; int steps = 0;
                int mode = (int)draw(4);
                while (left && !failed) {
                    size_t k = mode == 0 || steps++ > 8 ? left : chance(1, 4) ? (size_t)draw(left + 1) : (size_t)draw(left < 40 ? left + 1 : 40);
                    bool avail = n - pos >= k;
                    if (mode == 3 && coin()) { if (k > 5000) k = 5000; avail = n - pos >= k; Box b(k); mpack_read_bytes(&r, b.p, k); if (avail && mpack_reader_error(&r) == mpack_ok) CHECK(memcmp(b.p, p + pos, k) == 0, "data read between skips differs at %zu", pos); }
                    else { mpack_skip_bytes(&r, k); skipped++; }
                    if (!avail) { err(T_TRUNC, "skip"); break; }
                    CHECK(mpack_reader_error(&r) == mpack_ok, "skipping %zu bytes at %zu: %s", k, pos, err_name(mpack_reader_error(&r)));
                    pos += k; left -= k; position("after skip");
                }
                if (failed) break;
                mpack_done_type(&r, mpack_tag_type(&g));
            }
        }
        while (!st.empty() && st.back().left == 0) { if (st.back().k == ARR) mpack_done_array(&r); else mpack_done_map(&r); st.pop_back(); }
        CHECK(mpack_reader_error(&r) == mpack_ok, "done: %s", err_name(mpack_reader_error(&r)));
    }
    bool clean = !failed && st.empty();
    if (!failed && !st.empty()) mpack_reader_flag_error(&r, mpack_error_data);
    if (clean && pos == n) { // nothing may be left
        mpack_read_tag(&r);
        CHECK(mpack_reader_error(&r) != mpack_ok, "an element was read after the end of the data");
    }
    mpack_error_t de = mpack_reader_destroy(&r);
    if (clean && pos != n) CHECK(de == mpack_ok, "destroy: %s", err_name(de));
    if (kind == FILE_SEEK || kind == FILE_NOSEEK) CHECK(ck.closed, "file not closed");
    if (kind == FILE_REAL) unlink(path.c_str());
    if (skipped && n >= 4) nontrivial(hash_bytes(in.data(), n, (uint64_t)kind));
    label(srcname[kind]); if (src.skips) label("skip-callback-used"); if (ck.seeks) label("seek-used"); if (deep) label("deep");
}
