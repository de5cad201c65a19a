// C16: scalar node accessors return the exact value or a type error.
#include "nodectx.h"
#include <math.h>
#include <float.h>
using namespace pbt;
const char* pbt::harness_name = "c16";
#ifdef VT_NO_EXT
static const bool EXTS = false;
#else
static const bool EXTS = true;
#endif
typedef __int128_t I;
struct IntFn { const char* name; bool sgn; int bits; uint64_t (*call)(mpack_node_t); };
#define P(n, T) {"node_" #n, (T)-1 < 0, (int)sizeof(T) * 8, [](mpack_node_t x) { return (uint64_t)mpack_node_##n(x); }},
static const IntFn FNS[] = { P(u8, uint8_t) P(u16, uint16_t) P(u32, uint32_t) P(u64, uint64_t) P(uint, unsigned) P(i8, int8_t) P(i16, int16_t) P(i32, int32_t) P(i64, int64_t) P(int, int) };
static const int NF = sizeof FNS / sizeof *FNS;
static I tmin(const IntFn& f) { return f.sgn ? -((I)1 << (f.bits - 1)) : 0; }
static I tmax(const IntFn& f) { return f.sgn ? ((I)1 << (f.bits - 1)) - 1 : ((I)1 << f.bits) - 1; }
#if MPACK_FLOAT
static bool same(float a, float b) { return (isnan(a) && isnan(b)) || (a == b && signbit(a) == signbit(b)); }
static bool f_of(const Tok& t, float& o, float& o2) { // o2: an alternative result (no-double builds truncate)
    if (t.st != T_OK) return false;
    switch (t.k) { case UINT: o = (float)t.u; break; case INT: o = (float)(int64_t)t.u; break; case FLT: o = f32_of(t.u); break; case DBL: o = (float)f64_of(t.u); break; default: return false; }
    o2 = o;
#if !MPACK_DOUBLE
    if (t.k == DBL && !isnan(o)) { double d = f64_of(t.u); if (fabs(d) < FLT_MIN) o2 = copysignf(0.0f, (float)d); else if (fabs(d) < 0x1p128) { float x = o; if (fabs((double)x) > fabs(d)) x = nextafterf(x, 0.0f); o2 = x; } }
#endif
    return true;
}
#endif
#if MPACK_DOUBLE
static bool same(double a, double b) { return (isnan(a) && isnan(b)) || (a == b && signbit(a) == signbit(b)); }
static bool d_of(const Tok& t, double& o) { if (t.st != T_OK) return false; switch (t.k) { case UINT: o = (double)t.u; return true; case INT: o = (double)(int64_t)t.u; return true; case FLT: o = (double)f32_of(t.u); return true; case DBL: o = f64_of(t.u); return true; default: return false; } }
#endif
static std::string H(const Bytes& e) { return hex(e.data(), e.size(), 60); }
static void expect_err(mpack_tree_t* t, mpack_error_t w, const char* fn, const Bytes& e) { CHECK(mpack_tree_error(t) == w, "%s of %s: %s, expected %s", fn, H(e).c_str(), err_name(mpack_tree_error(t)), err_name(w)); }
static void ints(const NodeCtx& c, const Bytes& e, const Tok& t) {
    bool isint = t.k == INT || t.k == UINT; I v = t.k == INT ? (I)(int64_t)t.u : (I)t.u;
    for (int i = 0; i < NF; i++) c.run([&](mpack_node_t x, mpack_tree_t* tr, const char*) {
        const IntFn& f = FNS[i]; uint64_t got = f.call(x); I g = f.sgn ? (I)(int64_t)got : (I)got; bool in = isint && v >= tmin(f) && v <= tmax(f);
        expect_err(tr, in ? mpack_ok : mpack_error_type, f.name, e); CHECK(g == (in ? v : 0), "%s of %s returned %lld", f.name, H(e).c_str(), (long long)g);
    });
}
static void others(const NodeCtx& c, const Bytes& e, const Tok& t) {
    for (int f = 0; f < 14; f++) c.run([&](mpack_node_t x, mpack_tree_t* tr, const char*) {
        bool ok = false, b; const char* n = "?";
        switch (f) {
        case 0: n = "node_nil"; mpack_node_nil(x); ok = t.k == NIL; break;
        case 1: n = "node_missing"; mpack_node_missing(x); break;
        case 2: n = "node_bool"; b = mpack_node_bool(x); ok = t.k == BOOL; CHECK(b == (ok && t.u), "node_bool of %s returned %i", H(e).c_str(), b); break;
        case 3: n = "node_true"; mpack_node_true(x); ok = t.k == BOOL && t.u; break;
        case 4: n = "node_false"; mpack_node_false(x); ok = t.k == BOOL && !t.u; break;
#if MPACK_FLOAT
        case 5: { n = "node_float"; float w = 0, w2 = 0, g = mpack_node_float(x); ok = f_of(t, w, w2); CHECK(ok ? same(g, w) || same(g, w2) : same(g, 0.0f), "node_float of %s returned %.9g, expected %.9g", H(e).c_str(), g, w); if (ok && t.k == FLT && !isnan(w)) CHECK(raw_of(g) == t.u, "bits changed"); break; }
        case 6: { n = "node_float_strict"; float g = mpack_node_float_strict(x); ok = t.k == FLT; CHECK(same(g, ok ? f32_of(t.u) : 0.0f), "node_float_strict of %s returned %.9g", H(e).c_str(), g); break; }
#else
        case 5: { n = "node_raw_float"; uint32_t g = mpack_node_raw_float(x); ok = t.k == FLT; CHECK(g == (ok ? t.u : 0), "node_raw_float of %s returned %x", H(e).c_str(), g); break; }
#endif
#if MPACK_DOUBLE
        case 7: { n = "node_double"; double w = 0, g = mpack_node_double(x); ok = d_of(t, w); CHECK(same(g, ok ? w : 0.0), "node_double of %s returned %.17g, expected %.17g", H(e).c_str(), g, w); if (ok && t.k == DBL && !isnan(w)) CHECK(raw_of(g) == t.u, "bits changed"); break; }
        case 8: { n = "node_double_strict"; double w = 0, g = mpack_node_double_strict(x); ok = t.k == FLT || t.k == DBL; if (ok) d_of(t, w); CHECK(same(g, w), "node_double_strict of %s returned %.17g", H(e).c_str(), g); break; }
#else
        case 7: { n = "node_raw_double"; uint64_t g = mpack_node_raw_double(x); ok = t.k == DBL; CHECK(g == (ok ? t.u : 0), "node_raw_double of %s", H(e).c_str()); break; }
#endif
        case 9: { n = "node_type"; static const mpack_type_t ty[] = {mpack_type_nil, mpack_type_bool, mpack_type_uint, mpack_type_int, mpack_type_float, mpack_type_double, mpack_type_str, mpack_type_bin,
#if MPACK_EXTENSIONS
            mpack_type_ext,
#else
            mpack_type_nil,
#endif
            mpack_type_array, mpack_type_map}; mpack_type_t g = mpack_node_type(x); ok = true; CHECK(g == ty[t.k] || (t.k == INT && (int64_t)t.u >= 0 && g == mpack_type_uint), "node_type of %s is %s", H(e).c_str(), mpack_type_to_string(g)); break; }
        case 10: n = "node_is_nil"; ok = true; CHECK(mpack_node_is_nil(x) == (t.k == NIL), "node_is_nil of %s", H(e).c_str()); break;
        case 11: n = "node_is_missing"; ok = true; CHECK(!mpack_node_is_missing(x), "node_is_missing of %s", H(e).c_str()); break;
        case 12: { n = "node_tag"; ok = true; uint32_t len = 0; Value v = tag_value(mpack_node_tag(x), &len); CHECK(v.k == t.k && v.u == t.u && v.et == t.et && len == t.len, "node_tag of %s is %s len %u", H(e).c_str(), show(v).c_str(), len); break; }
        default: n = "queries"; ok = true; mpack_node_type(x); mpack_node_is_nil(x); mpack_node_is_missing(x); mpack_node_tag(x); CHECK(mpack_node_error(x) == mpack_ok, "queries"); break;
        }
        if (n[0] != '?') expect_err(tr, ok ? mpack_ok : mpack_error_type, n, e);
    });
}
// a missing node: only mpack_node_missing() accepts it, and queries say so
static void missing(const Bytes& e) {
    Bytes m = Bytes("\x82\xa1k", 3) + e + Bytes("\xa1q\x01", 3);
    for (int f = 0; f < NF + 12; f++) {
        Box b(m); mpack_tree_t t; mpack_tree_init_data(&t, b.p, b.n); mpack_tree_parse(&t); if (mpack_tree_error(&t)) fail("parsing %s", H(m).c_str());
        mpack_node_t x = f & 1 ? mpack_node_map_cstr_optional(mpack_tree_root(&t), "none") : mpack_node_map_int_optional(mpack_tree_root(&t), 7);
        CHECK(mpack_tree_error(&t) == mpack_ok, "optional lookup flagged %s", err_name(mpack_tree_error(&t)));
        CHECK(mpack_node_is_missing(x) && !mpack_node_is_nil(x) && mpack_node_type(x) == mpack_type_missing && mpack_node_tag(x).type == mpack_type_missing && mpack_tree_error(&t) == mpack_ok, "queries on a missing node");
        mpack_error_t w = mpack_error_type;
        if (f < NF) CHECK(FNS[f].call(x) == 0, "%s of a missing node", FNS[f].name);
        else switch (f - NF) { case 0: mpack_node_missing(x); w = mpack_ok; break; case 1: mpack_node_nil(x); break; case 2: CHECK(!mpack_node_bool(x), "bool"); break; case 3: mpack_node_true(x); break; case 4: mpack_node_false(x); break;
#if MPACK_FLOAT
        case 5: CHECK(mpack_node_float(x) == 0, "float"); break; case 6: CHECK(mpack_node_float_strict(x) == 0, "float"); break;
#endif
#if MPACK_DOUBLE
        case 7: CHECK(mpack_node_double(x) == 0, "double"); break; case 8: CHECK(mpack_node_double_strict(x) == 0, "double"); break;
#endif
        case 9: CHECK(mpack_node_data_len(x) == 0, "data_len"); break; case 10: CHECK(mpack_node_map_count(x) == 0, "map_count"); break; case 11: CHECK(mpack_node_str(x) == NULL, "str"); break;
        default: w = mpack_ok; }
        CHECK(mpack_tree_error(&t) == w, "accessor %i of a missing node: %s", f, err_name(mpack_tree_error(&t))); mpack_tree_destroy(&t);
    }
}
uint64_t pbt_exhaustive_total() { return 512 + 256; }
void pbt::property_case() {
    int64_t ex = enumerated();
    if (ex >= 0 && ex < 512) {
        bool neg = ex >= 256; int hi = (int)(ex & 255);
        for (int lo = 0; lo < 256; lo++) {
            int64_t n = (hi << 8) | lo; if (neg) n = n - 65536;
            for (int k = 0; k < 2; k++) for (int form = 0; form <= 5; form++) {
                if (k == 0 && neg) continue; if (form == 0) continue;
                Value v = mk(k ? INT : UINT, (uint64_t)n); v.form = (uint8_t)form;
                if (form == 1 && (n > 127 || n < -32)) continue;
                if (form == 2 && (k ? n > 127 || n < -128 : n > 255)) continue;
                if (form == 3 && (k ? n > 32767 || n < -32768 : n > 65535)) continue;
                Bytes e = enc(v); NodeCtx c(e); ints(c, e, ref_tok((const uint8_t*)e.data(), e.size(), EXTS));
            }
        }
        nontrivial((uint64_t)ex + 1); label("all-16-bit"); return;
    }
    if (ex >= 512) {
        int b = (int)(ex - 512); static const uint8_t pat[] = {0x00, 0x01, 0x7f, 0x80, 0xff};
        for (size_t i = 0; i < sizeof pat; i++) for (int z = 0; z < 3; z++) {
            Bytes e(1, (char)b); e += (char)pat[i]; for (int q = 0; q < 7; q++) e += (char)(z == 0 ? 0 : z == 1 ? 0xff : pat[i]);
            Tok t = ref_tok((const uint8_t*)e.data(), e.size(), EXTS); if (t.st != T_OK) continue; e.resize(t.hdr);
            if (t.k >= STR) { if (t.len > 300) continue; e += Bytes(t.k == MAP ? 2 * t.len : t.len, '\x05'); }
            NodeCtx c(e); ints(c, e, t); others(c, e, t);
        }
        nontrivial((uint64_t)ex + 1); label("all-first-bytes"); return;
    }
    Value v; GenOpt go; go.ext = EXTS; go.max_depth = 2; go.max_len = 20; go.max_nodes = 8;
    switch (draw(9)) { case 0: case 1: v = mk(UINT, gen_u64()); break; case 2: case 3: v = mk(INT, (uint64_t)gen_i64()); break; case 4: v = mk(FLT, gen_f32()); break; case 5: v = mk(DBL, chance(1, 3) ? raw_of((double)f32_of(gen_f32())) : chance(1, 3) ? (uint64_t)((0x380 + draw(0x100)) << 52) | (draw(0) >> 12) | (draw(2) << 63) : gen_f64()); break; case 6: v = mk(coin() ? UINT : INT, 1ull << draw(64)); v.u += draw(3) - 1; if (v.k == INT && coin()) v.u = 0 - v.u; break; case 7: v = mk(coin() ? NIL : BOOL, 0); if (v.k == BOOL) v.u = draw(2); break; default: v = gen_value(go); }
    if (v.k == INT || v.k == UINT || coin()) set_overlong(v, EXTS);
    Bytes e = enc(v); Tok t = ref_tok((const uint8_t*)e.data(), e.size(), EXTS); note("%s", show(v).c_str());
    NodeCtx c(e); ints(c, e, t); others(c, e, t); if (chance(1, 4)) missing(e);
    label(kind_name(t.k)); nontrivial(hash_bytes(c.msg.data(), c.msg.size()));
}
