// Reading data longer than 24, 31 and nearly 32 bits can count, and headers that claim that many bytes or elements (C05, C14, C15).
#include "big.h"
using namespace pbt;
const char* pbt::harness_name = "bigr";
enum { READ, CHUNKS, INPLACE, ALLOC, UTF8, UTF8_IN, CSTR, UTF8_CSTR, SKIP, DISCARD, CSTR_TIGHT, SHORT,
       X_STR_BUF, X_UTF8, X_CSTR, X_UTF8_CSTR, X_CSTR_ALLOC, X_UTF8_CSTR_ALLOC, X_STR_MATCH, X_CSTR_MATCH, X_BIN_BUF, X_BIN_SIZE_BUF, X_BIN_ALLOC, X_EXT_BUF, X_EXT_ALLOC, X_STR_TIGHT, X_BIN_TIGHT, X_STR_OTHER, NOP };
static const char* const NAME[] = {"read_bytes", "read_bytes in pieces", "read_bytes_inplace", "read_bytes_alloc", "read_utf8", "read_utf8_inplace", "read_cstr", "read_utf8_cstr", "skip_bytes", "discard", "read_cstr without room for the NUL", "data one byte short",
    "expect_str_buf", "expect_utf8", "expect_cstr", "expect_utf8_cstr", "expect_cstr_alloc", "expect_utf8_cstr_alloc", "expect_str_match", "expect_cstr_match", "expect_bin_buf", "expect_bin_size_buf", "expect_bin_alloc", "expect_ext_buf", "expect_ext_alloc", "expect_str_buf one byte short", "expect_bin_buf one byte short", "expect_str_match of a string that differs at its end"};
enum { MEM, STREAM, STREAM_SKIP, FILE_, NSRC };
static const char* const SRC[] = {"memory", "stream", "stream with skip", "file"};
static const bool EXTS = MPACK_EXTENSIONS;
static const int BLOBS = NOP * NSRC * 6, EXTRA = 24;
uint64_t pbt_exhaustive_total() { return BLOBS + EXTRA; }
static bool scans(int op) { return op == UTF8 || op == UTF8_IN || op == CSTR || op == UTF8_CSTR || op == CSTR_TIGHT || op == X_UTF8 || op == X_CSTR || op == X_UTF8_CSTR || op == X_STR_MATCH || op == X_CSTR_MATCH || op == X_STR_OTHER; }
static void blob(int i) {
    int op = i % NOP, src = i / NOP % NSRC, si = i / NOP / NSRC % 3; bool bad = i >= BLOBS / 2; if (si >= BIG_NSIZES) return; // bad: the last byte is not as it should be
    if (bad && op != UTF8 && op != UTF8_IN && op != CSTR && op != UTF8_CSTR && op != X_UTF8 && op != X_CSTR && op != X_UTF8_CSTR && op != X_CSTR_ALLOC && op != X_UTF8_CSTR_ALLOC) return; size_t n = BIG_SIZES[si]; bool big = si > 0;
    bool alloc = op == ALLOC || op == X_CSTR_ALLOC || op == X_UTF8_CSTR_ALLOC || op == X_BIN_ALLOC || op == X_EXT_ALLOC;
    if (big && (alloc || (scans(op) && (src != MEM || si == 2)))) return; // what really needs the memory, or the time
    if (big && src == FILE_ && (si == 2 || (op != READ && op != SKIP))) return; if (big && src == STREAM && op >= SKIP && op <= DISCARD && (si == 2 || op == DISCARD)) return;
#if MPACK_DEBUG || MPACK_OPTIMIZE_FOR_SIZE
    if (big && scans(op)) return;
#endif
    if (big && src != MEM && (op == INPLACE || op == UTF8_IN)) return;
    bool bin = op == X_BIN_BUF || op == X_BIN_SIZE_BUF || op == X_BIN_ALLOC || op == X_BIN_TIGHT, ext = op == X_EXT_BUF || op == X_EXT_ALLOC; if (ext && !EXTS) return;
    Kind k = bin ? BIN : ext ? EXT : op >= X_STR_BUF || scans(op) ? STR : pick({STR, BIN, EXT}); if (k == EXT && !EXTS) k = BIN; int8_t et = (int8_t)draw(255);
    BigStream s; s.pl = Payload(n); if (bad) s.pl.last = op == CSTR || op == X_CSTR || op == X_CSTR_ALLOC ? 0 : op == UTF8 || op == UTF8_IN || op == X_UTF8 || coin() ? (int)pick({0xc3, 0xff, 0x80, 0xe2}) : 0; Bytes pre = gen_bytes((size_t)draw(40)); for (auto& c : pre) c = (char)(c & 0x7f); s.head = pre + big_head(k, n, et); s.tail = "\x2a\xa2hi"; s.end = s.total(); if (chance(1, 3)) s.piece = 100000 + (size_t)draw(50000000);
    bool shrt = op == SHORT; if (shrt) s.end = s.total() - 4 - (size_t)draw(100);
    char* msg = big_message(s.head, s.pl, s.tail); static mpack_reader_t rr; mpack_reader_t* r = &rr; Box buf(MPACK_READER_MINIMUM_BUFFER_SIZE + (size_t)draw(5000)); FILE* f = NULL; size_t limit0 = vt.limit; vt.limit = (size_t)200 << 20;
    note("%s of %zu bytes from %s, %zu bytes before it, kind %s%s", NAME[op], n, SRC[src], pre.size(), kind_name(k), bad ? ", with a bad last byte" : "");
    switch (src) { case MEM: mpack_reader_init_data(r, msg, (size_t)s.end); break; case FILE_: f = big_file(&s, false, coin()); mpack_reader_init_stdfile(r, f, true); break;
    default: mpack_reader_init(r, buf.p, buf.n, 0); mpack_reader_set_context(r, &s); mpack_reader_set_fill(r, big_fill); if (src == STREAM_SKIP) mpack_reader_set_skip(r, big_skip); }
    for (char c : pre) CHECK(mpack_expect_i8(r) == c, "the integers before it: %s", err_name(mpack_reader_error(r)));
    bool str0 = op == CSTR || op == UTF8_CSTR || op == X_CSTR || op == X_UTF8_CSTR, tight = op == CSTR_TIGHT || op == X_STR_TIGHT || op == X_BIN_TIGHT;
    bool needs_dst = !alloc && op != INPLACE && op != UTF8_IN && op != SKIP && op != DISCARD && op != X_STR_MATCH && op != X_CSTR_MATCH && op != X_STR_OTHER;
    size_t room = n + (str0 ? 1 : 0) - (op == X_STR_TIGHT || op == X_BIN_TIGHT ? 1 : 0); BigDst* dst = needs_dst ? new BigDst(room) : NULL; mpack_error_t want = shrt ? (src == MEM ? mpack_error_invalid : mpack_error_io) : tight ? mpack_error_too_big : bad ? mpack_error_type : mpack_ok;
    if ((op == INPLACE || op == UTF8_IN) && src != MEM) want = mpack_error_too_big;
    char* own = NULL; const char* in = NULL; size_t got = n; int8_t get = et; Kind done = k;
    if (op < X_STR_BUF && op != DISCARD) { mpack_tag_t t = mpack_read_tag(r); uint32_t l = 0; Value v = tag_value(t, &l); CHECK(mpack_reader_error(r) == mpack_ok && v.k == k && l == n && (k != EXT || v.et == et), "the tag: %s, length %u, %s", kind_name(v.k), l, err_name(mpack_reader_error(r))); }
    switch (op) {
    case READ: case SHORT: mpack_read_bytes(r, dst->p, n); break;
    case CHUNKS: { size_t a = (size_t)draw(70000), b = n - (size_t)draw(70000); if (coin()) a = n / 2 - (size_t)draw(n / 3); mpack_read_bytes(r, dst->p, a); mpack_read_bytes(r, dst->p + a, b - a); mpack_read_bytes(r, dst->p + b, n - b); break; }
    case INPLACE: in = mpack_read_bytes_inplace(r, n); break; case UTF8_IN: in = mpack_read_utf8_inplace(r, n); break;
    case ALLOC: own = coin() ? mpack_read_bytes_alloc(r, n) : mpack_read_bytes_alloc_impl(r, n, false); break;
    case UTF8: mpack_read_utf8(r, dst->p, n); break; case CSTR: case CSTR_TIGHT: mpack_read_cstr(r, dst->p, room, n); break; case UTF8_CSTR: mpack_read_utf8_cstr(r, dst->p, room, n); break;
    case SKIP: { size_t a = coin() ? n : (size_t)draw(n); mpack_skip_bytes(r, a); mpack_skip_bytes(r, n - a); break; } case DISCARD: mpack_discard(r); break;
    case X_STR_BUF: case X_STR_TIGHT: got = mpack_expect_str_buf(r, dst->p, room); break; case X_UTF8: got = mpack_expect_utf8(r, dst->p, room); break;
    case X_CSTR: mpack_expect_cstr(r, dst->p, room); break; case X_UTF8_CSTR: mpack_expect_utf8_cstr(r, dst->p, room); break;
    case X_CSTR_ALLOC: own = mpack_expect_cstr_alloc(r, n + 1); break; case X_UTF8_CSTR_ALLOC: own = mpack_expect_utf8_cstr_alloc(r, n + 1); break;
    case X_STR_MATCH: case X_CSTR_MATCH: case X_STR_OTHER: { char* o = NULL; const char* w = msg + s.head.size(); BigDst* c = NULL; // the string to compare with: a second copy is needed where a NUL must follow or the end differs
        if (op == X_CSTR_MATCH) { msg[s.head.size() + n] = 0; if (src == MEM) { if (big) { mpack_reader_flag_error(r, mpack_error_data); mpack_reader_destroy(r); if (f) {} delete c; big_src_reset(); vt.limit = limit0; return; } o = (char*)malloc(n + 1); memcpy(o, w, n + 1); msg[s.head.size() + n] = s.tail[0]; w = o; } mpack_expect_cstr_match(r, w); }
        else if (op == X_STR_OTHER) { if (big) { mpack_reader_flag_error(r, mpack_error_data); mpack_reader_destroy(r); big_src_reset(); vt.limit = limit0; return; } o = (char*)malloc(n); memcpy(o, w, n); o[n - 1 - draw(5)] ^= 4; mpack_expect_str_match(r, o, n); want = mpack_error_type; }
        else mpack_expect_str_match(r, w, n);
        free(o); break; }
    case X_BIN_BUF: case X_BIN_TIGHT: got = mpack_expect_bin_buf(r, dst->p, room); break; case X_BIN_SIZE_BUF: mpack_expect_bin_size_buf(r, dst->p, (uint32_t)n); break; case X_BIN_ALLOC: own = mpack_expect_bin_alloc(r, n, &got); break;
#if MPACK_EXTENSIONS
    case X_EXT_BUF: got = mpack_expect_ext_buf(r, &get, dst->p, room); break; case X_EXT_ALLOC: own = mpack_expect_ext_alloc(r, &get, n, &got); break;
#endif
    default: break; }
    mpack_error_t e = mpack_reader_error(r); bool okk = e == want || (shrt && src == FILE_ && e == mpack_error_eof); CHECK(okk, "%s of %zu bytes from %s: %s, expected %s", NAME[op], n, SRC[src], err_name(e), err_name(want));
    if (want == mpack_ok) {
        CHECK(got == n, "%s of %zu bytes returned %zu", NAME[op], n, got); if (op == X_EXT_BUF || op == X_EXT_ALLOC) CHECK(get == et, "extension type %d", get);
        if (dst) { dst->check(NAME[op], s.pl); dst->guard(NAME[op]); if (str0) CHECK(dst->p[n] == 0, "%s: no NUL at the end", NAME[op]); }
        if (in) CHECK(in == msg + s.head.size() && in[n - 1] == 'z', "%s returned another place", NAME[op]); if (op == INPLACE || op == UTF8_IN) CHECK(in, "NULL");
        if (alloc) { CHECK(own, "NULL"); for (size_t j = 0; j < n; j++) CHECK((unsigned char)own[j] == s.pl.at(j), "%s: byte %zu", NAME[op], j); if (op == X_CSTR_ALLOC || op == X_UTF8_CSTR_ALLOC) CHECK(own[n] == 0, "no NUL at the end"); vt_free(own); }
        if (op < X_STR_BUF && op != DISCARD) mpack_done_type(r, done == STR ? mpack_type_str : done == BIN ? mpack_type_bin :
#if MPACK_EXTENSIONS
            mpack_type_ext
#else
            mpack_type_bin
#endif
            );
        CHECK(mpack_expect_uint(r) == 42, "not the element after %zu bytes: %s", n, err_name(mpack_reader_error(r))); mpack_expect_cstr_match(r, "hi"); CHECK(mpack_reader_destroy(r) == mpack_ok, "reading on: %s", err_name(mpack_reader_error(r)));
    } else { CHECK(!own && !in, "%s failed and returned something", NAME[op]); if (dst) dst->guard(NAME[op]); mpack_reader_destroy(r); }
    delete dst; big_src_reset(); vt.limit = limit0; label(si == 0 ? "over 24 bits" : si == 1 ? "over 31 bits" : "32 bits"); label(SRC[src]); nontrivial((uint64_t)i);
}
// A reader whose buffer is that large and already holds that much.
static void preloaded(int i) {
    int si = i / 4, how = i % 4; if (si >= BIG_NSIZES) return; size_t n = BIG_SIZES[si]; bool big = si > 0; if (how == 3 && big) return;
    BigStream s; s.pl = Payload(n); Bytes pre = gen_bytes((size_t)draw(40)); for (auto& c : pre) c = (char)(c & 0x7f); s.head = pre + big_head(BIN, n); s.tail = "\x2a\xa2hi"; s.end = s.total(); char* msg = big_message(s.head, s.pl, s.tail);
    size_t count = how == 0 ? (size_t)s.total() : how == 1 ? (size_t)s.total() - 1 - (size_t)draw(3) : s.head.size() + n / 2 + (size_t)draw(n / 3), room = (size_t)s.total() + (size_t)draw(1000); if (how == 0 && coin()) room = count; s.pos = count; bool fill = how != 0 || coin();
    note("a buffer of %zu bytes holding %zu, then binary of %zu bytes", room, count, n); mpack_reader_t r; mpack_reader_init(&r, msg, room, count); mpack_reader_set_context(&r, &s); if (fill) mpack_reader_set_fill(&r, big_fill);
    for (char c : pre) CHECK(mpack_expect_i8(&r) == c, "the integers before it: %s", err_name(mpack_reader_error(&r))); CHECK(mpack_expect_bin(&r) == n, "the header: %s", err_name(mpack_reader_error(&r)));
    if (!MPACK_READ_TRACKING && coin()) { const char* d = NULL; size_t left = mpack_reader_remaining(&r, &d); CHECK(left == count - s.head.size() && d == msg + s.head.size(), "%zu bytes are left, expected %zu", left, count - s.head.size()); }
    switch (how == 3 ? 3 : (int)draw(big ? 2 : 4)) { case 0: { BigDst d(n); mpack_read_bytes(&r, d.p, n); CHECK(mpack_reader_error(&r) == mpack_ok, "reading: %s", err_name(mpack_reader_error(&r))); d.check("read_bytes", s.pl); d.guard("read_bytes"); break; } case 1: mpack_skip_bytes(&r, n); break;
    case 2: { char* o = NULL; size_t lim = vt.limit; vt.limit = (size_t)200 << 20; o = mpack_read_bytes_alloc(&r, n); CHECK(o, "NULL"); for (size_t j = 0; j < n; j++) CHECK((unsigned char)o[j] == s.pl.at(j), "byte %zu", j); vt_free(o); vt.limit = lim; break; }
    default: { const char* o = mpack_read_bytes_inplace(&r, n); CHECK(o, "in place: %s", err_name(mpack_reader_error(&r))); for (size_t j = 0; j < n; j++) CHECK((unsigned char)o[j] == s.pl.at(j), "byte %zu", j); } }
    mpack_done_bin(&r); CHECK(mpack_expect_uint(&r) == 42, "not the element after %zu bytes: %s", n, err_name(mpack_reader_error(&r))); mpack_expect_cstr_match(&r, "hi"); CHECK(mpack_reader_destroy(&r) == mpack_ok, "reading on: %s", err_name(mpack_reader_error(&r))); big_src_reset(); label("a large buffer"); nontrivial((uint64_t)i);
}
// Tables of more strings or keys than 24 or 32 bits can count, elements larger than 16 MB.
static void tables(int i) {
#ifdef __LP64__
    if (i < 6) { // enums and keys
        size_t n = ((size_t)1 << 24) + 3 + (size_t)draw(100), at = n - 1 - (size_t)draw(2); bool there = i % 2 == 0, *found = (bool*)calloc(n, 1); const char** v = (const char**)malloc(n * sizeof *v); for (size_t j = 0; j < n; j++) v[j] = "other"; if (there) v[at] = "hit";
        Box b(Bytes("\xa3hit\xa3hit\x07")); mpack_reader_t r; mpack_reader_init_data(&r, b.p, b.n); static const char* const nm[] = {"expect_enum", "expect_enum_optional", "expect_key_cstr"}; int f = i / 2; note("%s of %zu strings, %s", nm[f], n, there ? "found" : "not found");
        size_t g = f == 0 ? mpack_expect_enum(&r, v, n) : f == 1 ? mpack_expect_enum_optional(&r, v, n) : mpack_expect_key_cstr(&r, v, found, n); CHECK(g == (there ? at : n), "%s of %zu strings returned %zu", nm[f], n, g); CHECK(mpack_reader_error(&r) == (!there && f == 0 ? mpack_error_type : mpack_ok), "%s: %s", nm[f], err_name(mpack_reader_error(&r)));
        if (f == 2) { CHECK(found[at] == there, "the key was not marked"); if (there) { CHECK(mpack_expect_key_cstr(&r, v, found, n) == n && mpack_reader_error(&r) == mpack_error_invalid, "a duplicate: %s", err_name(mpack_reader_error(&r))); } }
        mpack_reader_flag_error(&r, mpack_error_data); mpack_reader_destroy(&r); free(found); free(v); label("long table"); nontrivial((uint64_t)i + 500); return; }
    if (i < 9) { // integer keys
        size_t n = i == 6 ? ((size_t)1 << 24) + 300 : ((size_t)1 << 32) + 1 + (size_t)draw(1000000), k1 = n - 1, k2 = n - 2 - (size_t)draw(200), k3 = n + (size_t)draw(2); bool* found = (bool*)big_dst_region(); found[k1] = found[k2] = found[0] = found[(uint32_t)k1] = false;
        Bytes m; for (size_t k : {k1, k2, k3, (size_t)(i == 8 ? k2 : k1)}) m += "\xcf" + be(k, 8); Box b(m); mpack_reader_t r; mpack_reader_init_data(&r, b.p, b.n); note("expect_key_uint, %zu keys", n);
        CHECK(mpack_expect_key_uint(&r, found, n) == k1 && found[k1], "key %zu of %zu: %s", k1, n, err_name(mpack_reader_error(&r))); CHECK(mpack_expect_key_uint(&r, found, n) == k2 && found[k2], "key %zu of %zu: %s", k2, n, err_name(mpack_reader_error(&r))); CHECK(mpack_expect_key_uint(&r, found, n) == n && mpack_reader_error(&r) == mpack_ok, "key %zu of %zu: %s", k3, n, err_name(mpack_reader_error(&r)));
        CHECK(mpack_expect_key_uint(&r, found, n) == n && mpack_reader_error(&r) == mpack_error_invalid, "a duplicate: %s", err_name(mpack_reader_error(&r))); found[k1] = found[k2] = false; mpack_reader_destroy(&r); label("large key"); nontrivial((uint64_t)i + 500); return; }
    { uint32_t c = 1 + (uint32_t)draw(3), out = 77; size_t es = ((size_t)1 << 24) + 5 + (size_t)draw(1000), lim = vt.limit; vt.limit = (size_t)200 << 20; bool nil = i == 10; if (i == 11) { es = ((size_t)1 << 32) + 8; c = 3; } Box b(Bytes(1, (char)(0x90 | c)) + "\x01\x02\x03"); mpack_reader_t r; mpack_reader_init_data(&r, b.p, b.n); note("an array of %u elements of %zu bytes", c, es);
      void* p = mpack_expect_array_alloc_impl(&r, es, 10, &out, nil); if (i == 11) CHECK(!p && out == 0 && mpack_reader_error(&r) == mpack_error_memory, "more than there is: %s", err_name(mpack_reader_error(&r))); else CHECK(p && out == c && vt_size(p) >= es * c, "array_alloc: %u elements, %s", out, err_name(mpack_reader_error(&r))); if (p) vt_free(p); mpack_reader_flag_error(&r, mpack_error_data); mpack_reader_destroy(&r); vt.limit = lim; label("large elements"); nontrivial((uint64_t)i + 500); }
#else
    (void)i;
#endif
}
// The limits of allocating reads: too much is refused before anything is allocated, and what the limit allows is not.
static void alloc_limit() {
    uint64_t n = coin() ? draw(0x100000000ull) : (1ull << draw(33)) - draw(2); if (n > 0xffffffff) n = 0xffffffff; int f = (int)draw(EXTS ? 4 : 3); bool str = f < 2; uint64_t need = n + (str ? 1 : 0);
    uint64_t m64 = chance(1, 12) ? draw(4) ? draw(n + 1) : 1 : pick<uint64_t>({need, need + 1, need ? need - 1 : 0, (uint64_t)SIZE_MAX, (uint64_t)1 << 32, ((uint64_t)1 << 32) + draw(100), 0xffffffff, 0x7fffffff, ((uint64_t)1 << 33) - 1 - draw(2), ((uint64_t)need & 0xffffffff) + ((uint64_t)1 << 32)}); if (m64 > SIZE_MAX) m64 = SIZE_MAX; if (!m64) m64 = 1; size_t max = (size_t)m64;
    Kind k = str ? STR : f == 2 ? BIN : EXT; Bytes h = big_head(k, n, 9); size_t there = (size_t)draw(20); if (there > n) there = (size_t)n; h += Bytes(there, 'x'); Box in(h); mpack_reader_t r; mpack_reader_init_data(&r, in.p, in.n); size_t lim = vt.limit, got = 7; vt.limit = (size_t)1 << 20; int8_t et = 3; char* p = NULL; static const char* const nm[] = {"expect_cstr_alloc", "expect_utf8_cstr_alloc", "expect_bin_alloc", "expect_ext_alloc"};
    note("%s(%zu) of a header of %llu bytes with %zu there", nm[f], max, (unsigned long long)n, there);
    switch (f) { case 0: p = mpack_expect_cstr_alloc(&r, max); break; case 1: p = mpack_expect_utf8_cstr_alloc(&r, max); break; case 2: p = mpack_expect_bin_alloc(&r, max, &got); break;
#if MPACK_EXTENSIONS
    default: p = mpack_expect_ext_alloc(&r, &et, max, &got); break;
#endif
    }
    mpack_error_t e = mpack_reader_error(&r); vt.limit = lim; bool fits = need <= m64, whole = there == n;
    if (!fits) CHECK(e == mpack_error_too_big || e == mpack_error_type, "%s(%zu) of %llu bytes: %s", nm[f], max, (unsigned long long)n, err_name(e));
    else if (whole) { CHECK(e == mpack_ok && (p || (!str && n == 0)), "%s(%zu) of %llu bytes: %s", nm[f], max, (unsigned long long)n, err_name(e)); if (p) for (size_t i = 0; i < n; i++) CHECK(p[i] == 'x', "another byte"); }
    else CHECK(e == mpack_error_memory || e == mpack_error_invalid, "%s(%zu) of %llu bytes of which %zu are there: %s", nm[f], max, (unsigned long long)n, there, err_name(e));
    if (e != mpack_ok) CHECK(!p, "%s failed and returned a pointer", nm[f]); if (p) vt_free(p); mpack_reader_destroy(&r); label(fits ? "limit fits" : "limit too small"); if (n > 255) nontrivial(hash_mix(n, hash_mix((uint64_t)f, m64)));
}
// Only the header is there, and it is all these functions need.
static uint32_t near(uint32_t c) { switch (draw(6)) { case 0: return c; case 1: return c + 1; case 2: return c - 1; case 3: return c ^ (1u << draw(32)); case 4: return (uint32_t)draw(0x100000000ull); default: return c & 0xffffff; } }
static void header() {
    uint64_t n = chance(1, 2) ? draw(0x100000000ull) : (1ull << draw(33)) - draw(2); if (n > 0xffffffff) n = 0xffffffff; uint32_t c = (uint32_t)n, a = near(c), b = near(c), got = c, fall = 0; bool okk = true, nil = false; int8_t et = (int8_t)draw(255), get = et;
    int f = (int)draw(EXTS ? 19 : 16); Kind k = f < 3 ? STR : f < 6 ? BIN : f < 11 ? ARR : f < 16 ? MAP : EXT; Bytes h = big_head(k, n, et); Box in(h); mpack_reader_t r; mpack_reader_init_data(&r, in.p, in.n); if (a > b) { uint32_t t = a; a = b; b = t; }
    static const char* const nm[] = {"expect_str", "expect_str_max", "expect_str_length", "expect_bin", "expect_bin_max", "expect_bin_size", "expect_array", "expect_array_range", "expect_array_max", "expect_array_match", "expect_array_or_nil", "expect_map", "expect_map_range", "expect_map_max", "expect_map_match", "expect_map_or_nil", "expect_ext", "expect_ext_max", "expect_ext_size"};
    note("%s(%u, %u) of a header of %s %llu", nm[f], a, b, kind_name(k), (unsigned long long)n);
    switch (f) {
    case 0: got = mpack_expect_str(&r); break; case 1: got = mpack_expect_str_max(&r, a); okk = c <= a; break; case 2: mpack_expect_str_length(&r, a); okk = c == a; break;
    case 3: got = mpack_expect_bin(&r); break; case 4: got = mpack_expect_bin_max(&r, a); okk = c <= a; break; case 5: mpack_expect_bin_size(&r, a); okk = c == a; break;
    case 6: got = mpack_expect_array(&r); break; case 7: got = mpack_expect_array_range(&r, a, b); okk = c >= a && c <= b; fall = a; break; case 8: got = mpack_expect_array_max(&r, a); okk = c <= a; break; case 9: mpack_expect_array_match(&r, a); okk = c == a; break; case 10: if (coin()) nil = mpack_expect_array_or_nil(&r, &got); else { nil = mpack_expect_array_max_or_nil(&r, a, &got); okk = c <= a; } if (okk) CHECK(nil, "or_nil returned false"); else CHECK(!nil, "or_nil returned true"); break;
    case 11: got = mpack_expect_map(&r); break; case 12: got = mpack_expect_map_range(&r, a, b); okk = c >= a && c <= b; fall = a; break; case 13: got = mpack_expect_map_max(&r, a); okk = c <= a; break; case 14: mpack_expect_map_match(&r, a); okk = c == a; break; case 15: if (coin()) nil = mpack_expect_map_or_nil(&r, &got); else { nil = mpack_expect_map_max_or_nil(&r, a, &got); okk = c <= a; } if (okk) CHECK(nil, "or_nil returned false"); else CHECK(!nil, "or_nil returned true"); break;
#if MPACK_EXTENSIONS
    case 16: got = mpack_expect_ext(&r, &get); break; case 17: got = mpack_expect_ext_max(&r, &get, a); okk = c <= a; break; default: mpack_expect_ext_size(&r, &get, a); okk = c == a; break;
#endif
    }
    mpack_error_t e = mpack_reader_error(&r);
    if (okk) { CHECK(e == mpack_ok && got == c && get == et && (MPACK_READ_TRACKING || mpack_reader_remaining(&r, NULL) == 0), "%s(%u, %u) of %s %u: %s, returned %u", nm[f], a, b, kind_name(k), c, err_name(e), got); mpack_reader_flag_error(&r, mpack_error_data); label("header accepted"); }
    else { CHECK(e == mpack_error_type || (e == mpack_error_too_big && (f == 1 || f == 4 || f == 17)), "%s(%u, %u) of %s %u: %s", nm[f], a, b, kind_name(k), c, err_name(e)); if (f != 2 && f != 5 && f != 9 && f != 14 && f != 18) CHECK(got == fall, "%s failed and returned %u", nm[f], got); label("header refused"); }
    mpack_reader_destroy(&r); if (n > 255) nontrivial(hash_mix(n, hash_mix((uint64_t)f, hash_mix(a, b))));
}
void pbt::property_case() { int64_t ex = enumerated(); if (ex >= BLOBS) { if (ex - BLOBS < 12) preloaded((int)ex - BLOBS); else tables((int)ex - BLOBS - 12); } else if (ex >= 0) blob((int)ex); else if (chance(1, 1000)) blob((int)draw((uint64_t)NOP * NSRC)); else if (chance(1, 3)) alloc_limit(); else header(); }
