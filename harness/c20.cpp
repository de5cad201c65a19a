// C20: UTF-8 checks accept exactly well-formed UTF-8.
#include "drv.h"
using namespace pbt;
const char* pbt::harness_name = "c20";
static bool wf(const Bytes& s) { return ref_utf8((const uint8_t*)s.data(), s.size()); }
static std::string H(const Bytes& s) { return hex(s.data(), s.size(), 120); }
static void verdict(const char* fn, const Bytes& s, bool want, mpack_error_t e, mpack_error_t bad) {
    if (want) CHECK(e == mpack_ok, "%s rejected %s: %s", fn, H(s).c_str(), err_name(e));
    else CHECK(e == bad, "%s of %s: %s, expected %s", fn, H(s).c_str(), err_name(e), err_name(bad));
}
// The bytes end exactly at the end of a heap block.
static char* g_blk = NULL; static const size_t BLK = 64;
static void quick_check(const uint8_t* p, size_t n) {
    if (!g_blk) g_blk = (char*)malloc(BLK); char* at = g_blk + BLK - n; memcpy(at, p, n); at[-1] = (char)(0xa0 | n);
    bool want = ref_utf8(p, n); mpack_reader_t r; mpack_reader_init_data(&r, at - 1, n + 1); mpack_read_tag(&r); const char* q = mpack_read_utf8_inplace(&r, n); mpack_error_t e = mpack_reader_error(&r);
    if ((e == mpack_ok) != want || (q != NULL) != want) fail("read_utf8_inplace of %s: %s", hex(p, n).c_str(), err_name(e));
    if (want) mpack_done_str(&r); mpack_reader_destroy(&r);
    char out[64]; mpack_writer_t w; mpack_writer_init(&w, out, sizeof out); mpack_write_utf8(&w, at, (uint32_t)n); e = mpack_writer_error(&w);
    if ((e == mpack_ok) != want) fail("write_utf8 of %s: %s", hex(p, n).c_str(), err_name(e));
    mpack_writer_destroy(&w);
}
static void all(const Bytes& s, bool stream) {
    bool u = wf(s), z = s.find('\0') == Bytes::npos; size_t n = s.size(); Value v = mk_data(STR, s); if (coin()) set_overlong(v); Bytes e = enc(v); Tok t = ref_tok((const uint8_t*)e.data(), e.size());
    // writer
    for (int f = 0; f < 6; f++) {
        bool c = f & 1; if (c && !z) continue; if (f >= 4 && n) { }
        Box in(c ? s + '\0' : s), out(n + 40); mpack_writer_t w; mpack_writer_init(&w, out.p, out.n); const char* fn;
        switch (f) { case 0: fn = "write_utf8"; mpack_write_utf8(&w, in.p, (uint32_t)n); break; case 1: fn = "write_utf8_cstr"; mpack_write_utf8_cstr(&w, in.p); break; case 2: fn = "write_cstr_or_nil"; { if (!z) { mpack_writer_destroy(&w); continue; } Box c0(s + '\0'); mpack_write_cstr_or_nil(&w, c0.p); }; break; case 3: fn = "write_utf8_cstr_or_nil"; mpack_write_utf8_cstr_or_nil(&w, in.p); break;
        case 4: fn = "write_str"; mpack_write_str(&w, in.p, (uint32_t)n); break; default: fn = "write_cstr"; mpack_write_cstr(&w, in.p); }
        bool want = f == 2 || f >= 4 || u; verdict(fn, s, want, mpack_writer_error(&w), mpack_error_invalid); size_t used = mpack_writer_buffer_used(&w);
        Bytes can = enc(mk_data(STR, s)); if (want) CHECK(used == can.size() && !memcmp(out.p, can.data(), used), "%s of %s wrote other bytes", fn, H(s).c_str()); mpack_writer_destroy(&w);
    }
    // reader and expect
    for (int f = 0; f < 11; f++) {
        Box b(e); Box rb(n + 40 < MPACK_READER_MINIMUM_BUFFER_SIZE ? MPACK_READER_MINIMUM_BUFFER_SIZE : n + 40); Source src; mpack_reader_t r;
        if (stream) { src.p = b.p; src.n = b.n; src.sizes = {1 + n % 5}; mpack_reader_init(&r, rb.p, rb.n, 0); mpack_reader_set_context(&r, &src); mpack_reader_set_fill(&r, source_fill); } else mpack_reader_init_data(&r, b.p, b.n);
        Box o(n), oc(n + 1); const char* fn; bool want = u; bool tag = f < 5; if (tag) mpack_read_tag(&r);
        switch (f) {
        case 0: fn = "read_utf8"; mpack_read_utf8(&r, o.p, n); break; case 1: fn = "read_utf8_inplace"; { const char* q = mpack_read_utf8_inplace(&r, n); CHECK((q != NULL) == u, "read_utf8_inplace of %s", H(s).c_str()); if (q && n) memcpy(o.p, q, n); } break;
        case 2: fn = "read_utf8_cstr"; mpack_read_utf8_cstr(&r, oc.p, n + 1, n); want = u && z; break; case 3: fn = "read_cstr"; mpack_read_cstr(&r, oc.p, n + 1, n); want = z; break; case 4: fn = "read_bytes"; mpack_read_bytes(&r, o.p, n); want = true; break;
        case 5: fn = "expect_utf8"; { size_t g = mpack_expect_utf8(&r, o.p, n); CHECK(g == (u ? n : 0), "expect_utf8 of %s returned %zu", H(s).c_str(), g); } break; case 6: fn = "expect_utf8_cstr"; mpack_expect_utf8_cstr(&r, oc.p, n + 1); want = u && z; break;
        case 7: fn = "expect_cstr"; mpack_expect_cstr(&r, oc.p, n + 1); want = z; break; case 8: fn = "expect_str_buf"; mpack_expect_str_buf(&r, o.p, n); want = true; break;
        case 9: fn = "expect_utf8_cstr_alloc"; want = u && z; { char* q = mpack_expect_utf8_cstr_alloc(&r, n + 1); CHECK((q != NULL) == want, "expect_utf8_cstr_alloc of %s", H(s).c_str()); if (q) { memcpy(oc.p, q, n + 1); MPACK_FREE(q); } } break;
        default: fn = "expect_cstr_alloc"; want = z; { char* q = mpack_expect_cstr_alloc(&r, n + 1); CHECK((q != NULL) == want, "expect_cstr_alloc of %s", H(s).c_str()); if (q) { memcpy(oc.p, q, n + 1); MPACK_FREE(q); } } break;
        }
        bool c = f == 2 || f == 3 || f == 6 || f == 7 || f >= 9;
        verdict(fn, s, want, mpack_reader_error(&r), mpack_error_type);
        if (want) { CHECK(c ? !memcmp(oc.p, s.data(), n) && oc.p[n] == 0 : !memcmp(o.p, s.data(), n), "%s of %s gave other bytes", fn, H(s).c_str()); if (tag) mpack_done_str(&r); }
        else if (c && f < 9) CHECK(oc.p[0] == 0, "%s failed on %s without an empty string", fn, H(s).c_str());
        mpack_reader_destroy(&r);
    }
    for (int f = 0; f < 8; f++) {
        Box b(e); mpack_tree_t tr; mpack_node_data_t pool[2]; mpack_tree_init_pool(&tr, b.p, b.n, pool, 2); mpack_tree_parse(&tr); mpack_node_t x = mpack_tree_root(&tr); Box o(n), oc(n + 1); const char* fn; bool want = u;
        switch (f) { case 0: fn = "node_check_utf8"; mpack_node_check_utf8(x); break; case 1: fn = "node_check_utf8_cstr"; mpack_node_check_utf8_cstr(x); want = u && z; break; case 2: fn = "node_copy_utf8"; { size_t g = mpack_node_copy_utf8(x, o.p, n); CHECK(g == (u ? n : 0), "node_copy_utf8 of %s returned %zu", H(s).c_str(), g); } break;
        case 3: fn = "node_copy_utf8_cstr"; mpack_node_copy_utf8_cstr(x, oc.p, n + 1); want = u && z; break; case 4: fn = "node_copy_cstr"; mpack_node_copy_cstr(x, oc.p, n + 1); want = z; break; case 5: fn = "node_copy_data"; mpack_node_copy_data(x, o.p, n); want = true; break;
        case 6: fn = "node_utf8_cstr_alloc"; want = u && z; { char* q = mpack_node_utf8_cstr_alloc(x, n + 1); CHECK((q != NULL) == want, "node_utf8_cstr_alloc of %s", H(s).c_str()); if (q) MPACK_FREE(q); } break;
        default: fn = "node_cstr_alloc"; want = z; { char* q = mpack_node_cstr_alloc(x, n + 1); CHECK((q != NULL) == want, "node_cstr_alloc of %s", H(s).c_str()); if (q) MPACK_FREE(q); } break; }
        verdict(fn, s, want, mpack_tree_error(&tr), mpack_error_type); mpack_tree_destroy(&tr);
    }
}
static void utf8_put(Bytes& o, uint32_t c) { if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
// Long strings, good but for one place: at 8, 16 and 24-bit lengths.
static const size_t LONG[] = {255, 256, 257, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 65600, 131072,
#ifndef VT_TINY
    ((size_t)1 << 24) + 3
#else
    100000
#endif
};
static const int NLONG = sizeof LONG / sizeof *LONG, LONGV = 6;
static void long_string(int i, int v) {
    size_t n = LONG[i]; Bytes s(n, 'x'); for (size_t k = 0; k < n; k += 997) s[k] = (char)('0' + k % 10); s.replace(n / 2, 3, "\xe2\x82\xac");
    switch (v) { case 0: break; case 1: s[n - 1] = (char)0xff; break; case 2: s[n - 1] = (char)0xc3; break; case 3: s[n - 2] = '\0'; break; case 4: s.replace(n - 3, 3, "\xed\xa0\x80"); break; default: s[n - 1] = '\0'; }
    note("%zu bytes, variant %d", n, v); all(s, v & 1); label("long"); nontrivial((uint64_t)(i * LONGV + v) * 31 + 1000);
}
uint64_t pbt_exhaustive_total() { return 256 + 256 + 1 + NLONG * LONGV; }
void pbt::property_case() {
    int64_t ex = enumerated();
    if (ex >= 0 && ex < 256) { // every sequence of up to three bytes, at the end of a block and followed by more
        uint8_t b[8] = {(uint8_t)ex}; quick_check(b, 1); static const uint8_t last[] = {0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xff};
        for (int i = 0; i < 256; i++) { b[1] = (uint8_t)i; quick_check(b, 2); for (int j = 0; j < 256; j++) { b[2] = (uint8_t)j; quick_check(b, 3);
            bool boundary = j == 0x7f || j == 0x80 || j == 0xbf || j == 0xc0 || j == 0x41;
            if (boundary || (ex >= 0xf0 && ex <= 0xf5 && (j & 0xc0) == 0x80)) for (size_t k = 0; k < sizeof last; k++) { b[3] = last[k]; quick_check(b, 4); } } }
        nontrivial((uint64_t)ex + 1); label("all-3-byte"); return;
    }
    if (ex >= 256 && ex < 512) { // every code point, surrogate and out-of-range value in its own and in longer forms
        for (uint32_t c = (uint32_t)(ex - 256); c < 0x200000; c += 256 * (ex & 1 ? 1 : 1)) {
            Bytes s; if (c >= 0x110000 && c > 0x110400 && (c & 0xff00)) continue; utf8_put(s, c); quick_check((const uint8_t*)s.data(), s.size()); if (c < 0x800) { uint8_t o[4] = {(uint8_t)(0xe0 | c >> 12), (uint8_t)(0x80 | (c >> 6 & 63)), (uint8_t)(0x80 | (c & 63)), 0}; quick_check(o, 3); } if (c < 0x10000) { uint8_t o[4] = {0xf0, (uint8_t)(0x80 | (c >> 12 & 63)), (uint8_t)(0x80 | (c >> 6 & 63)), (uint8_t)(0x80 | (c & 63))}; quick_check(o, 4); }
        }
        nontrivial((uint64_t)ex + 1); label("all-code-points"); return;
    }
    if (ex > 512) { long_string((int)(ex - 513) / LONGV, (int)(ex - 513) % LONGV); return; }
    if (ex == 512) { for (int i = 0; i < 256; i++) { Bytes s(1, (char)i); all(s, i & 1); s += "a"; all(s, i & 1); for (int j = 0; j < 256; j += 5) all(Bytes(1, (char)i) + (char)j, false); } nontrivial(513); return; }
    // text built from pieces: valid code points, boundary code points and damaged sequences
    Bytes s; size_t k = (size_t)draw(chance(1, 10) ? 40 : 7);
    for (size_t i = 0; i < k; i++) switch (draw(12)) {
        case 0: case 1: case 2: s += (char)range(1, 127); break; case 3: case 4: utf8_put(s, pick<uint32_t>({0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0xfff, 0x1000, 0x3ffff, 0x40000, 0xfffff, 0x100000})); break;
        case 5: case 6: { uint32_t c = (uint32_t)draw(0x110000); if (c >= 0xd800 && c < 0xe000) c -= 0x800; utf8_put(s, c); break; }
        case 7: s += gen_text((size_t)draw(12), false); break; case 8: if (chance(1, 3)) s += '\0'; break;
        case 9: if (chance(1, 3)) utf8_put(s, pick<uint32_t>({0xd800, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0x1fffff, 0x13ffff})); break;
        case 10: if (chance(1, 3)) { Bytes q; utf8_put(q, 0x80 + (uint32_t)draw(0x10ff00)); if (coin()) q.pop_back(); else q[(size_t)draw(q.size())] = (char)draw(256); s += q; } break;
        default: if (chance(1, 4)) s += gen_bytes((size_t)draw(5)); }
    if (chance(1, 30)) s = gen_text(gen_len(300, true), false) + s;
    note("%s", H(s).c_str()); bool stream = coin(); all(s, stream); label(wf(s) ? "well-formed" : "ill-formed"); if (s.size() > 1) nontrivial(hash_bytes(s.data(), s.size()));
}
