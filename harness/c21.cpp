// C21: tag comparison is a consistent total order over values; tags preserve what they are made of.
#include "drv.h"
using namespace pbt;
const char* pbt::harness_name = "c21";
#ifdef VT_NO_EXT
static const bool EXTS = false;
#else
static const bool EXTS = true;
#endif
struct M { Kind k; uint64_t u; int8_t et; uint32_t n; bool missing = false; };
static std::string S(const M& m) { char b[100]; snprintf(b, sizeof b, "%s(%llx,%i,%u)", m.missing ? "missing" : kind_name(m.k), (unsigned long long)m.u, m.et, m.n); return b; }
static uint64_t pool_u(unsigned i) { static const uint64_t p[] = {0, 1, 2, 127, 128, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001, 0xffffffffffffff80, 0xfffffffffffffffe, 0xffffffffffffffff, 0x00ff, 0xff00, 0x7f800000, 0x7fc00000, 0x3f800000, 0x3ff0000000000000}; return p[i % 25]; }
static M gen_m() {
    M m{NIL, 0, 0, 0}; uint64_t u = chance(3, 4) ? pool_u((unsigned)draw(25)) : gen_u64(); m.k = (Kind)draw(11); if (coin()) m.k = coin() ? INT : UINT;
    switch (m.k) { case BOOL: m.u = u & 1; break; case UINT: case INT: case DBL: m.u = u; break; case FLT: m.u = (uint32_t)u; break; case NIL: if (chance(1, 4)) m.missing = true; break; case EXT: m.et = (int8_t)pick<int>({0, 1, -1, -128, 127, 5}); m.n = (uint32_t)u; if (!EXTS) m.k = STR, m.et = 0; break; default: m.n = (uint32_t)u; }
    return m;
}
static mpack_tag_t make(const M& m, int how) {
    mpack_tag_t t = mpack_tag_make_nil();
    if (m.missing) { mpack_tree_t tr; mpack_node_data_t pool[4]; mpack_tree_init_pool(&tr, "\x80", 1, pool, 4); mpack_tree_parse(&tr); t = mpack_node_tag(mpack_node_map_int_optional(mpack_tree_root(&tr), 1)); CHECK(mpack_tree_destroy(&tr) == mpack_ok, "missing tag"); return t; }
    if (how == 0) switch (m.k) {
        case NIL: break; case BOOL: switch (draw(3)) { case 0: t = mpack_tag_make_bool(m.u != 0); break; case 1: t = m.u ? mpack_tag_make_true() : mpack_tag_make_false(); break; default: t = m.u ? mpack_tag_true() : mpack_tag_false(); } break; case UINT: t = mpack_tag_make_uint(m.u); break; case INT: t = mpack_tag_make_int((int64_t)m.u); break;
#if MPACK_FLOAT
        case FLT: t = mpack_tag_make_float(f32_of(m.u)); break;
#else
        case FLT: t = mpack_tag_make_raw_float((uint32_t)m.u); break;
#endif
#if MPACK_DOUBLE
        case DBL: t = mpack_tag_make_double(f64_of(m.u)); break;
#else
        case DBL: t = mpack_tag_make_raw_double(m.u); break;
#endif
        case STR: t = mpack_tag_make_str(m.n); break; case BIN: t = mpack_tag_make_bin(m.n); break; case ARR: t = mpack_tag_make_array(m.n); break; case MAP: t = mpack_tag_make_map(m.n); break;
#if MPACK_EXTENSIONS
        case EXT: t = mpack_tag_make_ext(m.et, m.n); break;
#endif
        default: break; }
    else { // read from an encoding, possibly not the shortest
        Bytes e; if (m.k <= DBL) { Value v = mk(m.k, m.u); if (v.k == INT || v.k == UINT) set_overlong(v, EXTS); e = enc(v); } else ref_header(e, m.k, m.n, m.et, 4);
        Box b(e); mpack_reader_t r; mpack_reader_init_data(&r, b.p, b.n); t = how == 1 ? mpack_read_tag(&r) : mpack_peek_tag(&r); CHECK(mpack_reader_error(&r) == mpack_ok, "reading %s: %s", hex(e.data(), e.size()).c_str(), err_name(mpack_reader_error(&r))); if (m.k > DBL) mpack_reader_flag_error(&r, mpack_error_data); mpack_reader_destroy(&r);
    }
    return t;
}
static bool same(const M& a, const M& b) {
    if (a.missing || b.missing) return a.missing == b.missing;
    bool ai = a.k == INT || a.k == UINT, bi = b.k == INT || b.k == UINT;
    if (ai && bi) return a.u == b.u && ((a.k == INT && (int64_t)a.u < 0) == (b.k == INT && (int64_t)b.u < 0));
    return a.k == b.k && a.u == b.u && a.et == b.et && a.n == b.n;
}
static int num(const M& a, const M& b) { bool an = a.k == INT && (int64_t)a.u < 0, bn = b.k == INT && (int64_t)b.u < 0; if (an != bn) return an ? -1 : 1; return a.u == b.u ? 0 : a.u < b.u ? -1 : 1; } // two's complement orders negatives too
static int sg(int x) { return x < 0 ? -1 : x > 0; }
static void accessors(const M& m, mpack_tag_t t) {
    if (m.missing) { CHECK(mpack_tag_type(&t) == mpack_type_missing, "missing tag"); return; }
    bool nn = m.k == INT && (int64_t)m.u >= 0 && t.type == mpack_type_uint; Kind k = nn ? UINT : m.k;
    static const mpack_type_t ty[] = {mpack_type_nil, mpack_type_bool, mpack_type_uint, mpack_type_int, mpack_type_float, mpack_type_double, mpack_type_str, mpack_type_bin,
#if MPACK_EXTENSIONS
        mpack_type_ext,
#else
        mpack_type_nil,
#endif
        mpack_type_array, mpack_type_map};
    CHECK(mpack_tag_type(&t) == ty[k], "type of %s is %s", S(m).c_str(), mpack_type_to_string(t.type)); bool ok = true; uint64_t g = 0;
    switch (k) { case NIL: break; case BOOL: ok = mpack_tag_bool_value(&t) == (m.u != 0); break; case UINT: ok = (g = mpack_tag_uint_value(&t)) == m.u; break; case INT: ok = (g = (uint64_t)mpack_tag_int_value(&t)) == m.u; break;
#if MPACK_FLOAT
    case FLT: ok = (g = raw_of(mpack_tag_float_value(&t))) == m.u; break;
#else
    case FLT: ok = (g = mpack_tag_raw_float_value(&t)) == m.u; break;
#endif
#if MPACK_DOUBLE
    case DBL: ok = (g = raw_of(mpack_tag_double_value(&t))) == m.u; break;
#else
    case DBL: ok = (g = mpack_tag_raw_double_value(&t)) == m.u; break;
#endif
    case STR: ok = mpack_tag_str_length(&t) == m.n && mpack_tag_bytes(&t) == m.n; break; case BIN: ok = mpack_tag_bin_length(&t) == m.n && mpack_tag_bytes(&t) == m.n; break; case ARR: ok = mpack_tag_array_count(&t) == m.n; break; case MAP: ok = mpack_tag_map_count(&t) == m.n; break;
#if MPACK_EXTENSIONS
    case EXT: ok = mpack_tag_ext_length(&t) == m.n && mpack_tag_ext_exttype(&t) == m.et && mpack_tag_bytes(&t) == m.n; break;
#endif
    default: break; }
    CHECK(ok, "accessor of %s gives %llx", S(m).c_str(), (unsigned long long)g);
}
static int cmp2(const M& a, mpack_tag_t x, const M& b, mpack_tag_t y) {
    int c = mpack_tag_cmp(x, y), d = mpack_tag_cmp(y, x); bool q = mpack_tag_equal(x, y), s = same(a, b);
    CHECK(q == s && mpack_tag_equal(y, x) == s, "tag_equal(%s, %s) is %i", S(a).c_str(), S(b).c_str(), q);
    CHECK((c == 0) == s, "tag_cmp(%s, %s) is %i", S(a).c_str(), S(b).c_str(), c);
    CHECK(sg(c) == -sg(d), "tag_cmp(%s, %s) is %i but reversed %i", S(a).c_str(), S(b).c_str(), c, d);
    if (!a.missing && !b.missing && (a.k == INT || a.k == UINT) && (b.k == INT || b.k == UINT)) CHECK(sg(c) == num(a, b), "tag_cmp(%s, %s) is %i", S(a).c_str(), S(b).c_str(), c);
    return sg(c);
}
uint64_t pbt_exhaustive_total() { return 25 * 2; }
void pbt::property_case() {
    int64_t ex = enumerated();
    if (ex >= 0) { // each pool integer against every other, in both signednesses; small and neighbouring values
        M a{ex & 1 ? INT : UINT, pool_u((unsigned)ex / 2), 0, 0}; mpack_tag_t x = make(a, 0);
        for (unsigned i = 0; i < 25; i++) for (int d = -1; d <= 1; d++) for (int k = 0; k < 2; k++) { M b{k ? INT : UINT, pool_u(i) + (uint64_t)d, 0, 0}; cmp2(a, x, b, make(b, 0)); cmp2(a, x, b, make(b, 1)); }
        nontrivial((uint64_t)ex + 1); return;
    }
    size_t n = 3 + (size_t)draw(4); std::vector<M> m; std::vector<mpack_tag_t> t; uint64_t h = 7;
    for (size_t i = 0; i < n; i++) {
        M x = gen_m(); if (i && chance(1, 2)) { x = m[(size_t)draw(i)]; if (coin()) switch (draw(5)) { case 0: if (x.k >= UINT && x.k <= DBL) { x.u += coin() ? 1 : -1; if (x.k == FLT) x.u &= 0xffffffff; } break; case 1: if (x.k >= STR) x.n += coin() ? 1 : -1; break; case 2: if (x.k == EXT) x.et = (int8_t)(x.et + 1); break; case 3: if (x.k == UINT) x.k = INT; else if (x.k == INT) x.k = UINT; break; default: if (x.k == STR) x.k = BIN; else if (x.k == ARR) x.k = MAP; else if (x.k == FLT) x.k = DBL; } }
        m.push_back(x); t.push_back(make(x, (int)draw(3))); h = hash_mix(h, hash_mix(x.u ^ x.n, (uint64_t)x.k * 256 + (uint8_t)x.et)); note("%s", S(x).c_str()); accessors(x, t.back());
    }
    std::vector<std::vector<int>> c(n, std::vector<int>(n));
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) c[i][j] = cmp2(m[i], t[i], m[j], t[j]);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) if (c[i][j] <= 0 && c[j][k] <= 0) CHECK(c[i][k] <= 0 && (c[i][k] < 0 || (c[i][j] == 0 && c[j][k] == 0)), "not transitive: %s, %s, %s", S(m[i]).c_str(), S(m[j]).c_str(), S(m[k]).c_str());
    // renamed constructors
    uint32_t u = (uint32_t)gen_u64(); CHECK(mpack_tag_equal(mpack_tag_array((int32_t)u), mpack_tag_make_array(u)) && mpack_tag_equal(mpack_tag_str((int32_t)u), mpack_tag_make_str(u)) && mpack_tag_equal(mpack_tag_map((int32_t)u), mpack_tag_make_map(u)) && mpack_tag_equal(mpack_tag_bin((int32_t)u), mpack_tag_make_bin(u)), "old constructors");
    nontrivial(h);
}
