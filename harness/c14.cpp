// C14: typed reads of string, binary and extension data.
#include "drv.h"
using namespace pbt;
const char* pbt::harness_name = "c14";
#ifdef VT_NO_EXT
static const bool EXTS = false;
#else
static const bool EXTS = true;
#endif
static const char SENT = 0x2a;
static Bytes E; static Tok T; static Bytes D; static bool WHOLE, STREAM; static size_t RBUF; static std::vector<size_t> SIZES;
static bool no_nul(const Bytes& b) { return b.find('\0') == Bytes::npos; }
static bool utf8(const Bytes& b) { return ref_utf8((const uint8_t*)b.data(), b.size()); }
struct Rd {
    mpack_reader_t r; Box b; Source src; Box buf;
    Rd() : b(WHOLE ? E + SENT : E), buf(RBUF) {
        if (STREAM) { src.p = b.p; src.n = b.n; src.sizes = SIZES; src.fail_mode = 0; mpack_reader_init(&r, buf.p, buf.n, 0); mpack_reader_set_context(&r, &src); mpack_reader_set_fill(&r, source_fill); }
        else mpack_reader_init_data(&r, b.p, b.n);
    }
    ~Rd() { if (err() == mpack_ok) mpack_reader_flag_error(&r, mpack_error_data); mpack_reader_destroy(&r); }
    mpack_error_t err() { return mpack_reader_error(&r); }
};
static std::string what() { return hex(E.data(), E.size(), 60); }
// reads the rest of the input: the sentinel must come next
static void consumed(Rd& d, const char* fn, size_t lim) {
    CHECK(d.err() == mpack_ok, "%s(limit %zu) of %s flagged %s", fn, lim, what().c_str(), err_name(d.err()));
    CHECK(WHOLE, "%s(limit %zu) of truncated %s succeeded", fn, lim, what().c_str());
    mpack_tag_t t = mpack_read_tag(&d.r);
    CHECK(d.err() == mpack_ok && t.type == mpack_type_uint && t.v.u == (uint64_t)SENT, "%s(limit %zu) of %s did not consume exactly the element", fn, lim, what().c_str());
    CHECK(mpack_reader_destroy(&d.r) == mpack_ok, "destroy after %s", fn); mpack_reader_init_error(&d.r, mpack_error_data);
}
static void refused(Rd& d, const char* fn, size_t lim, mpack_error_t a, mpack_error_t b = mpack_ok) {
    CHECK(d.err() != mpack_ok, "%s(limit %zu) accepted %s", fn, lim, what().c_str());
    if (WHOLE) CHECK(d.err() == a || (b != mpack_ok && d.err() == b) || (T.st != T_OK && d.err() == mpack_error_type), "%s(limit %zu) of %s flagged %s, expected %s", fn, lim, what().c_str(), err_name(d.err()), err_name(a));
    else CHECK(d.err() != mpack_error_bug && d.err() != mpack_error_memory && d.err() != mpack_error_data, "%s(limit %zu) of truncated %s flagged %s", fn, lim, what().c_str(), err_name(d.err()));
}
static mpack_error_t alt() { return T.st == T_RESERVED ? mpack_error_invalid : T.st == T_NOEXT ? mpack_error_unsupported : mpack_error_type; }
static size_t limit() { size_t n = D.size(); switch (draw(9)) { case 0: return n; case 1: return n + 1; case 2: return n ? n - 1 : 0; case 3: return n + 2; case 4: return 0; case 5: return 1; case 6: return (size_t)draw(n + 40); case 7: return n >= 2 ? n - 2 : n; default: return n + 31; } }
static bool is(Kind k) { return T.st == T_OK && T.k == k && (k != EXT || T.et != -1); }
#if MPACK_EXTENSIONS
static void done_ext(mpack_reader_t* r) { mpack_done_ext(r); }
#else
static void done_ext(mpack_reader_t*) {}
#endif
static void take(Rd& d, Kind k, const char* fn, size_t lim) { // reads the data after a header function succeeded
    Box out(D.size()); bool split = coin() && D.size() > 1; size_t a = split ? (size_t)draw(D.size()) : D.size();
    if (coin() || split) { mpack_read_bytes(&d.r, out.p, a); if (split) mpack_read_bytes(&d.r, out.p + a, D.size() - a); }
    else if (STREAM && D.size() > RBUF) mpack_read_bytes(&d.r, out.p, D.size());
    else { const char* p = mpack_read_bytes_inplace(&d.r, D.size()); if (d.err() == mpack_ok && D.size()) memcpy(out.p, p, D.size()); }
    if (k == STR) mpack_done_str(&d.r); else if (k == BIN) mpack_done_bin(&d.r); else done_ext(&d.r);
    if (!WHOLE) { CHECK(d.err() != mpack_ok, "%s then reading truncated %s succeeded", fn, what().c_str()); return; }
    CHECK(d.err() == mpack_ok && !memcmp(out.p, D.data(), D.size()), "%s then reading %s: %s", fn, what().c_str(), err_name(d.err())); consumed(d, fn, lim);
}
static void one(unsigned f) {
    size_t n = D.size(), lim = limit(); Rd d; mpack_reader_t* r = &d.r;
    // header functions report success on truncated payloads: only the length is there
    bool hdr_ok = E.size() >= T.hdr && T.st == T_OK;
    switch (f) {
    case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7: case 8: {
        static const char* nm[] = {"expect_str", "expect_str_max", "expect_str_length", "expect_bin", "expect_bin_max", "expect_bin_size", "expect_ext", "expect_ext_max", "expect_ext_size"};
        Kind k = f < 3 ? STR : f < 6 ? BIN : EXT; uint32_t got = 0; int8_t et = 77; unsigned form = f % 3; if (!EXTS && k == EXT) return;
        uint32_t l32 = chance(1, 8) ? UINT32_MAX : (uint32_t)lim; lim = l32;
        switch (f) {
        case 0: got = mpack_expect_str(r); break; case 1: got = mpack_expect_str_max(r, l32); break; case 2: mpack_expect_str_length(r, l32); break;
        case 3: got = mpack_expect_bin(r); break; case 4: got = mpack_expect_bin_max(r, l32); break; case 5: mpack_expect_bin_size(r, l32); break;
#if MPACK_EXTENSIONS
        case 6: got = mpack_expect_ext(r, &et); break; case 7: got = mpack_expect_ext_max(r, &et, l32); break; case 8: mpack_expect_ext_size(r, &et, l32); break;
#endif
        }
        bool good = hdr_ok && is(k) && (form == 0 || (form == 1 ? T.len <= lim : T.len == lim));
        if (good) {
            CHECK(d.err() == mpack_ok, "%s(%zu) of %s flagged %s", nm[f], lim, what().c_str(), err_name(d.err()));
            CHECK(form == 2 || got == T.len, "%s of %s returned %u", nm[f], what().c_str(), got); if (k == EXT) CHECK(et == T.et, "%s of %s gave type %i", nm[f], what().c_str(), et);
            if (T.len == n || !WHOLE) { if (T.len == n) take(d, k, nm[f], lim); else mpack_reader_flag_error(r, mpack_error_data); }
        } else {
            refused(d, nm[f], lim, alt(), is(k) && f == 1 ? mpack_error_too_big : mpack_error_type);
            if (WHOLE && is(k) && f == 1) CHECK(d.err() == mpack_error_too_big, "str_max error %s", err_name(d.err()));
            CHECK(got == 0, "%s failed and returned %u", nm[f], got); if (k == EXT) CHECK(et == 0, "%s failed on %s leaving type %i", nm[f], what().c_str(), et);
        }
        break; }
    case 9: case 10: case 11: case 12: { // *_buf, utf8
        static const char* nm[] = {"expect_str_buf", "expect_utf8", "expect_bin_buf", "expect_ext_buf"}; Kind k = f < 11 ? STR : f == 11 ? BIN : EXT; if (!EXTS && k == EXT) return;
        lim = big_limit(lim); OutBuf out(lim, n); int8_t et = 77; size_t got = 0;
        switch (f) { case 9: got = mpack_expect_str_buf(r, out.p, lim); break; case 10: got = mpack_expect_utf8(r, out.p, lim); break; case 11: got = mpack_expect_bin_buf(r, out.p, lim); break;
#if MPACK_EXTENSIONS
        case 12: got = mpack_expect_ext_buf(r, &et, out.p, lim); break;
#endif
        }
        const char* fn = nm[f - 9];
        if (f == 11 && is(STR) && d.err() == mpack_ok) k = STR; // documented as compatible
        if (WHOLE && is(k) && n <= lim && (f != 10 || utf8(D))) { CHECK(d.err() == mpack_ok && got == n && !memcmp(out.p, D.data(), n), "%s(%zu) of %s: %s, returned %zu", fn, lim, what().c_str(), err_name(d.err()), got); if (k == EXT) CHECK(et == T.et, "%s gave type %i", fn, et); for (size_t i = n; i < out.scan; i++) CHECK(out.p[i] == 0x5c, "%s(%zu) wrote past the %zu bytes of %s", fn, lim, n, what().c_str()); consumed(d, fn, lim); }
        else { refused(d, fn, lim, is(k) && n > lim ? mpack_error_too_big : alt(), is(k) && n > lim && f != 10 ? mpack_error_type : mpack_ok); CHECK(got == 0, "%s(%zu) failed on %s and returned %zu", fn, lim, what().c_str(), got); if (f == 12) CHECK(et == 0, "%s failed on %s leaving type %i", fn, what().c_str(), et); }
        break; }
    case 13: { // bin_size_buf
        Box out(lim); mpack_expect_bin_size_buf(r, out.p, (uint32_t)lim); bool str = is(STR) && d.err() == mpack_ok;
        if (WHOLE && (is(BIN) || str) && n == lim) { CHECK(d.err() == mpack_ok && !memcmp(out.p, D.data(), n), "expect_bin_size_buf of %s: %s", what().c_str(), err_name(d.err())); consumed(d, "expect_bin_size_buf", lim); } else refused(d, "expect_bin_size_buf", lim, alt(), mpack_error_type);
        break; }
    case 14: case 15: { // cstr
        if (!lim) lim = 1; lim = big_limit(lim); OutBuf out(lim, n); const char* fn = f == 14 ? "expect_cstr" : "expect_utf8_cstr"; if (f == 14) mpack_expect_cstr(r, out.p, lim); else mpack_expect_utf8_cstr(r, out.p, lim);
        if (WHOLE && is(STR) && n < lim && no_nul(D) && (f == 14 || utf8(D))) { CHECK(d.err() == mpack_ok && !memcmp(out.p, D.data(), n) && out.p[n] == 0, "%s(%zu) of %s: %s", fn, lim, what().c_str(), err_name(d.err())); for (size_t i = n + 1; i < out.scan; i++) CHECK(out.p[i] == 0x5c, "%s(%zu) wrote past the terminator of %s", fn, lim, what().c_str()); consumed(d, fn, lim); }
        else { refused(d, fn, lim, is(STR) && n >= lim ? mpack_error_too_big : alt()); CHECK(out.p[0] == 0, "%s(%zu) failed on %s without leaving an empty string", fn, lim, what().c_str()); }
        break; }
    case 16: case 17: { // cstr_alloc
        lim = chance(1, 10) ? SIZE_MAX : big_limit(lim); const char* fn = f == 16 ? "expect_cstr_alloc" : "expect_utf8_cstr_alloc"; vt.allow_break = lim == 0;
        char* p = f == 16 ? mpack_expect_cstr_alloc(r, lim) : mpack_expect_utf8_cstr_alloc(r, lim);
        if (lim == 0) { CHECK(d.err() == mpack_error_bug && !p, "%s(0): %s", fn, err_name(d.err())); break; }
        if (WHOLE && is(STR) && n < lim && no_nul(D) && (f == 16 || utf8(D))) { CHECK(d.err() == mpack_ok && p, "%s(%zu) of %s: %s", fn, lim, what().c_str(), err_name(d.err())); CHECK(vt_size(p) >= n + 1 && !memcmp(p, D.data(), n) && p[n] == 0, "%s(%zu) of %s: wrong string", fn, lim, what().c_str()); MPACK_FREE(p); consumed(d, fn, lim); }
        else { CHECK(!p, "%s(%zu) failed on %s (%s) and returned a string", fn, lim, what().c_str(), err_name(d.err())); refused(d, fn, lim, is(STR) && n >= lim ? mpack_error_too_big : alt()); }
        break; }
    case 18: case 19: { // bin_alloc, ext_alloc
        if (f == 19 && !EXTS) return; lim = chance(1, 10) ? SIZE_MAX : big_limit(lim); int8_t et = 77; size_t sz = 12345; Kind k = f == 18 ? BIN : EXT; char* p = NULL; const char* fn = f == 18 ? "expect_bin_alloc" : "expect_ext_alloc";
        if (f == 18) p = mpack_expect_bin_alloc(r, lim, &sz);
#if MPACK_EXTENSIONS
        else p = mpack_expect_ext_alloc(r, &et, lim, &sz);
#endif
        if (WHOLE && is(k) && n <= lim) { CHECK(d.err() == mpack_ok && sz == n && (n == 0 || p), "%s(%zu) of %s: %s, size %zu", fn, lim, what().c_str(), err_name(d.err()), sz); if (n) CHECK(vt_size(p) >= n && !memcmp(p, D.data(), n), "%s(%zu) of %s: wrong bytes", fn, lim, what().c_str()); if (k == EXT) CHECK(et == T.et, "%s of %s gave type %i", fn, what().c_str(), et); if (p) MPACK_FREE(p); consumed(d, fn, lim); }
        else { CHECK(!p, "%s failed on %s and returned data", fn, what().c_str()); refused(d, fn, lim, alt(), mpack_error_type); CHECK(sz == 0, "%s(%zu) failed on %s and gave size %zu", fn, lim, what().c_str(), sz); if (k == EXT) CHECK(et == 0, "%s failed on %s leaving type %i", fn, what().c_str(), et); }
        break; }
    case 20: case 21: { // match
        Bytes m = D; switch (draw(6)) { case 0: case 1: break; case 2: if (n) m[(size_t)draw(n)] ^= (char)(1u << draw(8)); break; case 3: m += (char)draw(256); break; case 4: if (n) m.pop_back(); break; default: m = gen_textish((size_t)draw(n + 3)); }
        if (f == 21) { size_t z = m.find('\0'); if (z != Bytes::npos) m.resize(z); Box c(m + '\0'); mpack_expect_cstr_match(r, c.p); } else { Box c(m); mpack_expect_str_match(r, c.p, c.n); }
        const char* fn = f == 21 ? "expect_cstr_match" : "expect_str_match";
        if (WHOLE && is(STR) && m == D) consumed(d, fn, m.size()); else refused(d, fn, m.size(), alt(), mpack_error_type);
        break; }
    default: { // tag followed by an untyped read of the data
        mpack_tag_t t = mpack_read_tag(r);
        if (!hdr_ok || T.k < STR || T.k > EXT || (!WHOLE && T.len != n)) return;
        CHECK(d.err() == mpack_ok, "tag of %s: %s", what().c_str(), err_name(d.err()));
        auto done = [&]() { if (T.k == STR) mpack_done_str(r); else if (T.k == BIN) mpack_done_bin(r); else mpack_done_type(r, t.type); };
        switch (f) {
        case 22: { if (T.k != STR) return; Box out(n, 0x5c); mpack_read_utf8(r, out.p, n); done(); if (WHOLE && utf8(D)) { CHECK(d.err() == mpack_ok && !memcmp(out.p, D.data(), n), "read_utf8 of %s: %s", what().c_str(), err_name(d.err())); consumed(d, "read_utf8", n); } else refused(d, "read_utf8", n, mpack_error_type); break; }
        case 23: case 24: { if (T.k != STR) return; if (!lim) lim = 1; lim = big_limit(lim); OutBuf out(lim, n); const char* fn = f == 23 ? "read_cstr" : "read_utf8_cstr"; if (f == 23) mpack_read_cstr(r, out.p, lim, n); else mpack_read_utf8_cstr(r, out.p, lim, n); done();
            if (WHOLE && n < lim && no_nul(D) && (f == 23 || utf8(D))) { CHECK(d.err() == mpack_ok && !memcmp(out.p, D.data(), n) && out.p[n] == 0, "%s(%zu) of %s: %s", fn, lim, what().c_str(), err_name(d.err())); for (size_t i = n + 1; i < out.scan; i++) CHECK(out.p[i] == 0x5c, "%s wrote past the terminator", fn); consumed(d, fn, lim); }
            else { refused(d, fn, lim, n >= lim ? mpack_error_too_big : mpack_error_type); CHECK(out.p[0] == 0, "%s(%zu) failed on %s without leaving an empty string", fn, lim, what().c_str()); } break; }
        case 25: { char* p = mpack_read_bytes_alloc(r, n); done(); if (WHOLE) { CHECK(d.err() == mpack_ok && (n ? p && vt_size(p) >= n && !memcmp(p, D.data(), n) : !p), "read_bytes_alloc of %s: %s", what().c_str(), err_name(d.err())); if (p) MPACK_FREE(p); consumed(d, "read_bytes_alloc", n); } else { CHECK(!p, "read_bytes_alloc failed and returned data"); refused(d, "read_bytes_alloc", n, mpack_error_invalid); } break; }
        case 26: case 27: { bool u8 = f == 27; if (u8 && T.k != STR) return; const char* fn = u8 ? "read_utf8_inplace" : "read_bytes_inplace"; const char* p = u8 ? mpack_read_utf8_inplace(r, n) : mpack_read_bytes_inplace(r, n);
            bool big = STREAM && n > RBUF; if (WHOLE && !big && (!u8 || utf8(D))) { CHECK(d.err() == mpack_ok && p && !memcmp(p, D.data(), n), "%s of %s: %s", fn, what().c_str(), err_name(d.err())); done(); consumed(d, fn, n); }
            else { CHECK(!p, "%s failed on %s and returned data", fn, what().c_str()); refused(d, fn, n, big ? mpack_error_too_big : mpack_error_type); } break; }
        case 28: { bool in = mpack_should_read_bytes_inplace(r, n); if (STREAM) CHECK(!in || n <= RBUF, "should_read_bytes_inplace for %zu bytes with a buffer of %zu", n, RBUF); if (in) { const char* p = mpack_read_bytes_inplace(r, n); if (WHOLE) CHECK(d.err() == mpack_ok && p && !memcmp(p, D.data(), n), "suggested in-place read of %s: %s", what().c_str(), err_name(d.err())); else CHECK(!p, "in-place read of truncated data"); } else { Box o(n); mpack_read_bytes(r, o.p, n); if (WHOLE) CHECK(d.err() == mpack_ok && !memcmp(o.p, D.data(), n), "read_bytes of %s", what().c_str()); } if (WHOLE) { done(); consumed(d, "should_inplace", n); } break; }
        }
        break; }
    }
}
uint64_t pbt_exhaustive_total() { return 33 + 256; }
void pbt::property_case() {
    int64_t ex = enumerated(); STREAM = coin(); RBUF = pick<size_t>({MPACK_READER_MINIMUM_BUFFER_SIZE, 33, 64, 300, 4096}); if (RBUF < MPACK_READER_MINIMUM_BUFFER_SIZE) RBUF = MPACK_READER_MINIMUM_BUFFER_SIZE;
    SIZES = {1}; if (coin()) SIZES = {(size_t)range(1, 40), (size_t)range(1, 400)};
    WHOLE = true; E.clear(); D.clear();
    if (ex >= 33) { // every first byte: wrong types, reserved and overlong forms
        E = Bytes(1, (char)(ex - 33)); for (int i = 0; i < 5; i++) E += (char)(i == (int)draw(5) ? draw(4) : 0); T = ref_tok((const uint8_t*)E.data(), E.size(), EXTS); if (T.st == T_TRUNC) { E += Bytes(8, '\0'); T = ref_tok((const uint8_t*)E.data(), E.size(), EXTS); }
        if (T.st == T_OK) { E.resize(T.hdr); if (T.k >= STR && T.k <= EXT) { if (T.len > 70000) { WHOLE = false; } else E += D = gen_textish(T.len); } }
        for (unsigned f = 0; f < 29; f++) one(f);
        nontrivial((uint64_t)ex * 3 + 5); label("all-first-bytes"); return;
    }
    Value v; GenOpt go; go.ext = EXTS; go.max_depth = 1; go.max_len = 40;
    if (ex >= 0) v = mk_data(STR, gen_textish((size_t)ex));
    else switch (draw(10)) { case 0: case 1: case 2: case 3: v = mk_data(STR, gen_textish(gen_len(400, chance(1, 400)))); break; case 4: case 5: v = mk_data(BIN, gen_bytes(gen_len(400, chance(1, 400)))); break; case 6: case 7: if (EXTS) { v = mk_data(EXT, gen_bytes(chance(1, 2) ? (size_t)pick({1, 2, 4, 8, 16, 12, 0}) : gen_len(400, chance(1, 400))), (int8_t)pick<int>({0, 1, -1, -1, -2, 127, -128, 5})); break; } // fallthrough
        default: v = gen_value(go); if (!v.c.empty()) v.c.clear(); }
    if (coin()) set_overlong(v, EXTS);
    E = enc(v); D = v.s; T = ref_tok((const uint8_t*)E.data(), E.size(), EXTS);
    if (chance(1, 12)) { size_t k = (size_t)draw(E.size()); if (k < E.size()) { E.resize(k); WHOLE = false; D = k > T.hdr ? v.s : v.s; label("truncated"); } }
    note("%s%s", show(v).c_str(), WHOLE ? "" : " truncated");
    for (unsigned f = 0; f < 29; f++) one(f);
    label(kind_name(T.k)); nontrivial(hash_bytes(E.data(), E.size(), (uint64_t)STREAM));
}
