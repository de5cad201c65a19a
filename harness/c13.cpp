// C13: typed integer and real reads return the exact value or a type error.
#include "drv.h"
#include <math.h>
#include <float.h>
#include <limits.h>
using namespace pbt;
const char* pbt::harness_name = "c13";
#ifdef VT_NO_EXT
static const bool EXTS = false;
#else
static const bool EXTS = true;
#endif
typedef __int128_t I;
typedef mpack_reader_t* RP;
struct IntFn { const char* name; bool sgn; int bits; int form; uint64_t (*call)(RP, uint64_t, uint64_t); }; // form 0 plain, 1 range, 2 max
#define P(n, T) {"expect_" #n, (T)-1 < 0, (int)sizeof(T) * 8, 0, [](RP r, uint64_t, uint64_t) { return (uint64_t)mpack_expect_##n(r); }}, \
    {"expect_" #n "_range", (T)-1 < 0, (int)sizeof(T) * 8, 1, [](RP r, uint64_t a, uint64_t b) { return (uint64_t)mpack_expect_##n##_range(r, (T)a, (T)b); }}, \
    {"expect_" #n "_max", (T)-1 < 0, (int)sizeof(T) * 8, 2, [](RP r, uint64_t, uint64_t b) { return (uint64_t)mpack_expect_##n##_max(r, (T)b); }},
static const IntFn FNS[] = { P(u8, uint8_t) P(u16, uint16_t) P(u32, uint32_t) P(u64, uint64_t) P(uint, unsigned) P(i8, int8_t) P(i16, int16_t) P(i32, int32_t) P(i64, int64_t) P(int, int) };
static const int NF = sizeof FNS / sizeof *FNS;
static I tmin(const IntFn& f) { return f.sgn ? -((I)1 << (f.bits - 1)) : 0; }
static I tmax(const IntFn& f) { return f.sgn ? ((I)1 << (f.bits - 1)) - 1 : ((I)1 << f.bits) - 1; }
static std::string istr(I v) { bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v; std::string s; do { s.insert(s.begin(), (char)('0' + (int)(u % 10))); u /= 10; } while (u); return n ? "-" + s : s; }
// the element is followed by a sentinel so that consumption shows
static const char SENT = 0x2a;
struct Rd {
    mpack_reader_t r; Box b; Source src; char buf[MPACK_READER_MINIMUM_BUFFER_SIZE];
    Rd(const Bytes& e, bool stream) : b(e + SENT) {
        if (stream) { src.p = b.p; src.n = b.n; src.sizes = {1}; mpack_reader_init(&r, buf, sizeof buf, 0); mpack_reader_set_context(&r, &src); mpack_reader_set_fill(&r, source_fill); }
        else mpack_reader_init_data(&r, b.p, b.n);
    }
    void ok(const char* fn, const Bytes& e) {
        mpack_error_t er = mpack_reader_error(&r); CHECK(er == mpack_ok, "%s of %s flagged %s", fn, hex(e.data(), e.size()).c_str(), err_name(er));
        mpack_tag_t t = mpack_read_tag(&r); CHECK(mpack_reader_error(&r) == mpack_ok && t.type == mpack_type_uint && t.v.u == (uint64_t)SENT, "%s of %s did not consume exactly the element", fn, hex(e.data(), e.size()).c_str());
        CHECK(mpack_reader_destroy(&r) == mpack_ok, "destroy");
    }
    void bad(const char* fn, const Bytes& e, mpack_error_t w, mpack_error_t w2 = mpack_ok) { mpack_error_t er = mpack_reader_error(&r); CHECK(er == w || (w2 != mpack_ok && er == w2), "%s of %s: error %s, expected %s", fn, hex(e.data(), e.size()).c_str(), err_name(er), err_name(w)); mpack_reader_destroy(&r); }
};
// what the element is: an integer of this value, or why not. 0 ok 1 wrong type 2 malformed
static mpack_error_t other_error(const Tok& t, bool stream) { return t.st == T_RESERVED ? mpack_error_invalid : t.st == T_NOEXT ? mpack_error_unsupported : stream ? mpack_error_io : mpack_error_invalid; }
static void check_int(const IntFn& f, const Bytes& e, const Tok& t, I lo, I hi, bool stream) {
    bool isint = t.st == T_OK && (t.k == INT || t.k == UINT); I v = isint ? (t.k == INT ? (I)(int64_t)t.u : (I)t.u) : 0;
    if (f.form == 0) lo = tmin(f), hi = tmax(f); else if (f.form == 2) lo = 0;
    Rd rd(e, stream);
    uint64_t got = f.call(&rd.r, (uint64_t)lo, (uint64_t)hi);
    I g = f.sgn ? (I)(int64_t)got : (I)got, fb = f.form == 1 ? lo : 0;
    if (isint && v >= lo && v <= hi) { rd.ok(f.name, e); CHECK(g == v, "%s(%s, %s) of %s returned %s, the encoded value is %s", f.name, istr(lo).c_str(), istr(hi).c_str(), hex(e.data(), e.size()).c_str(), istr(g).c_str(), istr(v).c_str()); }
    else {
        mpack_error_t er = mpack_reader_error(&rd.r);
        CHECK(er != mpack_ok, "%s(%s, %s) accepted %s = %s and returned %s", f.name, istr(lo).c_str(), istr(hi).c_str(), hex(e.data(), e.size()).c_str(), isint ? istr(v).c_str() : kind_name(t.k), istr(g).c_str());
        CHECK(g == fb, "%s(%s, %s) failed on %s and returned %s instead of %s", f.name, istr(lo).c_str(), istr(hi).c_str(), hex(e.data(), e.size()).c_str(), istr(g).c_str(), istr(fb).c_str());
        if (t.st == T_OK) rd.bad(f.name, e, mpack_error_type); else rd.bad(f.name, e, other_error(t, stream), t.st == T_TRUNC ? mpack_ok : mpack_error_type);
    }
}
static void check_match(const Bytes& e, const Tok& t, I want, bool sgn, bool stream) {
    bool isint = t.st == T_OK && (t.k == INT || t.k == UINT); I v = isint ? (t.k == INT ? (I)(int64_t)t.u : (I)t.u) : 0; Rd rd(e, stream);
    if (sgn) mpack_expect_int_match(&rd.r, (int64_t)want); else mpack_expect_uint_match(&rd.r, (uint64_t)want);
    const char* n = sgn ? "expect_int_match" : "expect_uint_match";
    if (isint && v == want) rd.ok(n, e); else { CHECK(mpack_reader_error(&rd.r) != mpack_ok, "%s(%s) accepted %s", n, istr(want).c_str(), hex(e.data(), e.size()).c_str()); if (t.st == T_OK) rd.bad(n, e, mpack_error_type); else rd.bad(n, e, other_error(t, stream), t.st == T_TRUNC ? mpack_ok : mpack_error_type); }
}
#if MPACK_FLOAT
static bool same(float a, float b) { return (isnan(a) && isnan(b)) || (a == b && signbit(a) == signbit(b)); }
static bool f_of(const Tok& t, float& o, float& o2) { // o2: an alternative result (no-double builds truncate)
    if (t.st != T_OK) return false;
    switch (t.k) { case UINT: o = (float)t.u; break; case INT: o = (float)(int64_t)t.u; break; case FLT: o = f32_of(t.u); break; case DBL: o = (float)f64_of(t.u); break; default: return false; }
    o2 = o;
#if !MPACK_DOUBLE
    if (t.k == DBL && !isnan(o)) { double d = f64_of(t.u); if (fabs(d) < FLT_MIN) o2 = copysignf(0.0f, (float)d); else if (fabs(d) < 0x1p128) { float x = o; if (fabs((double)x) > fabs(d)) x = nextafterf(x, 0.0f); o2 = x; } }
#endif
    return true;
}
static void check_float(const Bytes& e, const Tok& t, bool stream, int form, float lo, float hi) {
    float w = 0, w2 = 0; bool conv = f_of(t, w, w2), strict = form == 1; if (strict && t.st == T_OK && t.k != FLT) conv = false;
    const char* n = form == 0 ? "expect_float" : strict ? "expect_float_strict" : "expect_float_range"; Rd rd(e, stream);
    float g = form == 0 ? mpack_expect_float(&rd.r) : strict ? mpack_expect_float_strict(&rd.r) : mpack_expect_float_range(&rd.r, lo, hi);
    bool in = conv && (form != 2 || (w >= lo && w <= hi)), in2 = conv && (form != 2 || (w2 >= lo && w2 <= hi));
    if (in != in2) { mpack_reader_flag_error(&rd.r, mpack_error_data); mpack_reader_destroy(&rd.r); return; }
    if (in) { rd.ok(n, e); CHECK(same(g, w) || same(g, w2), "%s of %s returned %.9g (%08x), expected %.9g (%08x)", n, hex(e.data(), e.size()).c_str(), g, (unsigned)raw_of(g), w, (unsigned)raw_of(w)); if (t.k == FLT && !isnan(w)) CHECK(raw_of(g) == raw_of(w), "bits changed"); }
    else { CHECK(mpack_reader_error(&rd.r) != mpack_ok, "%s(%g,%g) accepted %s", n, lo, hi, hex(e.data(), e.size()).c_str()); CHECK(same(g, form == 2 ? lo : 0.0f), "%s failed and returned %g", n, g); if (t.st == T_OK) rd.bad(n, e, mpack_error_type); else rd.bad(n, e, other_error(t, stream), t.st == T_TRUNC ? mpack_ok : mpack_error_type); }
}
#endif
#if MPACK_DOUBLE
static bool same(double a, double b) { return (isnan(a) && isnan(b)) || (a == b && signbit(a) == signbit(b)); }
static bool d_of(const Tok& t, double& o) { if (t.st != T_OK) return false; switch (t.k) { case UINT: o = (double)t.u; return true; case INT: o = (double)(int64_t)t.u; return true; case FLT: o = (double)f32_of(t.u); return true; case DBL: o = f64_of(t.u); return true; default: return false; } }
static void check_double(const Bytes& e, const Tok& t, bool stream, int form, double lo, double hi) {
    double w = 0; bool conv = d_of(t, w), strict = form == 1; if (strict && t.st == T_OK && t.k != FLT && t.k != DBL) conv = false;
    const char* n = form == 0 ? "expect_double" : strict ? "expect_double_strict" : "expect_double_range"; Rd rd(e, stream);
    double g = form == 0 ? mpack_expect_double(&rd.r) : strict ? mpack_expect_double_strict(&rd.r) : mpack_expect_double_range(&rd.r, lo, hi);
    bool in = conv && (form != 2 || (w >= lo && w <= hi));
    if (in) { rd.ok(n, e); CHECK(same(g, w), "%s of %s returned %.17g, expected %.17g", n, hex(e.data(), e.size()).c_str(), g, w); if (t.k == DBL && !isnan(w)) CHECK(raw_of(g) == raw_of(w), "bits changed"); }
    else { CHECK(mpack_reader_error(&rd.r) != mpack_ok, "%s(%g,%g) accepted %s", n, lo, hi, hex(e.data(), e.size()).c_str()); CHECK(same(g, form == 2 ? lo : 0.0), "%s failed and returned %g", n, g); if (t.st == T_OK) rd.bad(n, e, mpack_error_type); else rd.bad(n, e, other_error(t, stream), t.st == T_TRUNC ? mpack_ok : mpack_error_type); }
}
#endif
static void reals(const Bytes& e, const Tok& t, bool stream) {
    (void)e; (void)t; (void)stream;
#if MPACK_FLOAT
    float fw = 0, f2; bool fc = f_of(t, fw, f2); check_float(e, t, stream, 0, 0, 0); check_float(e, t, stream, 1, 0, 0);
    for (int i = 0; i < 3; i++) {
        auto near = [&]() -> float { if (fc && !isnan(fw) && coin()) return coin() ? fw : nextafterf(fw, coin() ? INFINITY : -INFINITY); float x = coin() ? f32_of(gen_f32()) : (float)gen_i64(); return isnan(x) ? 0 : x; };
        float a = near(), b = near(); if (a > b) { float x = a; a = b; b = x; } check_float(e, t, stream, 2, a, b);
    }
#else
    { Rd rd(e, stream); uint32_t g = mpack_expect_raw_float(&rd.r); if (t.st == T_OK && t.k == FLT) { rd.ok("expect_raw_float", e); CHECK(g == t.u, "raw float"); } else { CHECK(g == 0, "raw float on error"); if (t.st == T_OK) rd.bad("expect_raw_float", e, mpack_error_type); else rd.bad("expect_raw_float", e, other_error(t, stream), t.st == T_TRUNC ? mpack_ok : mpack_error_type); } }
#endif
#if MPACK_DOUBLE
    double dw = 0; bool dc = d_of(t, dw); check_double(e, t, stream, 0, 0, 0); check_double(e, t, stream, 1, 0, 0);
    for (int i = 0; i < 3; i++) {
        auto near = [&]() -> double { if (dc && !isnan(dw) && coin()) return coin() ? dw : nextafter(dw, coin() ? INFINITY : -INFINITY); double x = coin() ? f64_of(gen_f64()) : (double)gen_i64(); return isnan(x) ? 0 : x; };
        double a = near(), b = near(); if (a > b) { double x = a; a = b; b = x; } check_double(e, t, stream, 2, a, b);
    }
#else
    { Rd rd(e, stream); uint64_t g = mpack_expect_raw_double(&rd.r); if (t.st == T_OK && t.k == DBL) { rd.ok("expect_raw_double", e); CHECK(g == t.u, "raw double"); } else { CHECK(g == 0, "raw double on error"); if (t.st == T_OK) rd.bad("expect_raw_double", e, mpack_error_type); else rd.bad("expect_raw_double", e, other_error(t, stream), t.st == T_TRUNC ? mpack_ok : mpack_error_type); } }
#endif
}
static void all_for(const Bytes& e, bool stream, bool ranged) {
    Tok t = ref_tok((const uint8_t*)e.data(), e.size(), EXTS);
    bool trunc = t.st == T_TRUNC; if (trunc) return; // the sentinel would complete it
    bool isint = t.st == T_OK && (t.k == INT || t.k == UINT); I v = isint ? (t.k == INT ? (I)(int64_t)t.u : (I)t.u) : 0;
    for (int i = 0; i < NF; i++) {
        const IntFn& f = FNS[i]; if (f.form && !ranged) continue;
        I lo = 0, hi = 0;
        if (f.form) {
            auto pt = [&]() -> I { I x; switch (draw(6)) { case 0: x = tmin(f); break; case 1: x = tmax(f); break; case 2: x = v; break; case 3: x = v + (coin() ? 1 : -1); break; case 4: x = (I)(int64_t)draw(300) - 150; break; default: x = f.sgn ? (I)gen_i64() : (I)gen_u64(); } return x < tmin(f) ? tmin(f) : x > tmax(f) ? tmax(f) : x; };
            lo = pt(); hi = pt(); if (f.form == 2) { lo = 0; if (hi < 0) hi = -(hi + 1); } if (lo > hi) { I x = lo; lo = hi; hi = x; }
        }
        check_int(f, e, t, lo, hi, stream);
    }
}
uint64_t pbt_exhaustive_total() { return 512 + 256; }
void pbt::property_case() {
    int64_t ex = enumerated();
    if (ex >= 0 && ex < 512) { // every 16-bit value in every width and signedness that holds it
        bool neg = ex >= 256; int hi = (int)(ex & 255);
        for (int lo = 0; lo < 256; lo++) {
            int64_t n = (hi << 8) | lo; if (neg) n = n - 65536;
            for (int k = 0; k < 2; k++) for (int form = 0; form <= 5; form++) {
                if (k == 0 && neg) continue;
                Value v = mk(k ? INT : UINT, (uint64_t)n); v.form = (uint8_t)form;
                if (form == 1 && (n > 127 || n < -32)) continue;
                if (form == 2 && (k ? n > 127 || n < -128 : n > 255)) continue;
                if (form == 3 && (k ? n > 32767 || n < -32768 : n > 65535)) continue;
                if (form == 0 && k) continue;
                Bytes e = enc(v); all_for(e, lo & 1, false);
            }
        }
        nontrivial((uint64_t)ex + 1); label("all-16-bit"); return;
    }
    if (ex >= 512) { // every first byte, with boundary payloads
        int b = (int)(ex - 512);
        static const uint8_t pat[] = {0x00, 0x01, 0x7f, 0x80, 0xff, 0x3f, 0xc0};
        for (size_t i = 0; i < sizeof pat; i++) for (size_t j = 0; j < sizeof pat; j++) for (int z = 0; z < 3; z++) {
            Bytes e(1, (char)b); e += (char)pat[i]; for (int q = 0; q < 3; q++) e += (char)(z == 0 ? 0 : z == 1 ? 0xff : pat[j]); for (int q = 0; q < 4; q++) e += (char)pat[j];
            Tok t = ref_tok((const uint8_t*)e.data(), e.size(), EXTS); if (t.st == T_TRUNC) continue; if (t.st == T_OK) e.resize(t.hdr);
            all_for(e, (i + j) & 1, true); reals(e, t, (i + j) & 1);
        }
        nontrivial((uint64_t)ex + 1); label("all-first-bytes"); return;
    }
    // random element: mostly numbers
    Value v; GenOpt go; go.ext = EXTS; go.max_depth = 1; go.max_len = 20;
    switch (draw(8)) { case 0: case 1: v = mk(UINT, gen_u64()); break; case 2: case 3: v = mk(INT, (uint64_t)gen_i64()); break; case 4: v = mk(FLT, gen_f32()); break; case 5: v = mk(DBL, chance(1, 3) ? raw_of((double)f32_of(gen_f32())) : chance(1, 3) ? (uint64_t)((0x380 + draw(0x100)) << 52) | (draw(0) >> 12) | (draw(2) << 63) : gen_f64()); break; case 6: v = mk(coin() ? UINT : INT, 1ull << draw(64)); v.u += draw(3) - 1; if (v.k == INT && coin()) v.u = 0 - v.u; break; default: v = gen_value(go); }
    if (v.k == INT || v.k == UINT || coin()) set_overlong(v, EXTS);
    Bytes e; Tok t; bool stream = coin();
    if (v.k <= DBL) e = enc(v); else { e = enc(v); t = ref_tok((const uint8_t*)e.data(), e.size(), EXTS); e.resize(t.hdr); }
    note("%s", show(v).c_str());
    if (e.size() > 1 && chance(1, 20)) { // truncated: nothing may be returned
        e.resize((size_t)draw(e.size())); t = ref_tok((const uint8_t*)e.data(), e.size(), EXTS);
        Box b(e); mpack_reader_t r; mpack_reader_init_data(&r, b.p, b.n); const IntFn& f = FNS[draw(NF)]; uint64_t g = f.call(&r, 3, 100); CHECK(mpack_reader_error(&r) == mpack_error_invalid && g == (f.form == 1 ? 3u : 0u), "%s of truncated %s: %s, returned %llu", f.name, hex(e.data(), e.size()).c_str(), err_name(mpack_reader_error(&r)), (unsigned long long)g); mpack_reader_destroy(&r); label("truncated"); return;
    }
    t = ref_tok((const uint8_t*)e.data(), e.size(), EXTS);
    all_for(e, stream, true); reals(e, t, stream);
    for (int i = 0; i < 4; i++) { I x = t.k == INT ? (I)(int64_t)t.u : (I)t.u; if (i & 1) { I y = x + (I)draw(3) - 1; if (y >= INT64_MIN && y <= INT64_MAX) check_match(e, t, y, true, stream); else check_match(e, t, (I)gen_i64(), true, stream); } else { I y = x + (I)draw(3) - 1; if (y < 0 || y > (I)UINT64_MAX) y = (I)gen_u64(); check_match(e, t, y, false, stream); } }
    // match against the same low bits with the other signedness
    if (t.k == UINT) check_match(e, t, (I)(int64_t)t.u, true, stream); else if (t.k == INT) check_match(e, t, (I)(uint64_t)t.u, false, stream);
    label(kind_name(t.k)); nontrivial(hash_bytes(e.data(), e.size(), (uint64_t)stream));
}
