// C18: node lookups find exactly the unique matching entry.
#include "nodectx.h"
using namespace pbt;
const char* pbt::harness_name = "c18";
#ifdef VT_NO_EXT
static const bool EXTS = false;
#else
static const bool EXTS = true;
#endif
static Value V; static std::vector<size_t> OFF; // offsets of the direct children in the encoding of V
static Bytes E;
static uint64_t key_u64() { switch (draw(6)) { case 0: case 1: return draw(6); case 2: return (uint64_t)-(int64_t)draw(5); case 3: return (1ull << pick<int>({7, 8, 15, 16, 31, 32, 63})) + draw(3) - 1; case 4: return 0 - (1ull << pick<int>({5, 7, 15, 31, 63})) + draw(3) - 1; default: return gen_u64(); } }
static Bytes key_str() { static const char* b[] = {"", "a", "ab", "abc", "b", "A", "key", "\xc3\xa9", "aa"}; switch (draw(9)) { case 0: return gen_textish((size_t)draw(chance(1, 8) ? 400 : 40)); case 8: return Bytes("a\0c", 3); case 1: return Bytes("a\0b", 3); case 2: return Bytes("a\0", 2); case 3: return Bytes("\0", 1); default: return b[draw(9)]; } }
static Value gen_key() {
    GenOpt go; go.ext = EXTS; go.max_depth = 2; go.max_nodes = 5; go.max_len = 20; Value v;
    switch (draw(8)) { case 0: case 1: { uint64_t u = key_u64(); v = (int64_t)u < 0 && coin() ? mk(INT, u) : (int64_t)u >= 0 && coin() ? mk(INT, u) : mk(UINT, u); break; }
    case 2: v = mk((int64_t)0 <= 0 && coin() ? UINT : INT, draw(6)); break; case 3: case 4: case 5: v = mk_data(STR, key_str()); break; case 6: v = mk_data(coin() && EXTS ? EXT : BIN, key_str()); break; default: v = gen_value(go); }
    set_overlong(v, EXTS); return v;
}
// -1 none, -2 several, else the index
static long find(bool (*m)(const Value&, const void*), const void* k) { long f = -1; for (size_t i = 0; i < V.c.size() / 2; i++) if (m(V.c[2 * i], k)) { if (f >= 0) return -2; f = (long)i; } return f; }
static bool is_int(const Value& v, const void* k) { int64_t n = *(const int64_t*)k; return (v.k == INT && (int64_t)v.u == n) || (v.k == UINT && n >= 0 && v.u == (uint64_t)n); }
static bool is_uint(const Value& v, const void* k) { uint64_t n = *(const uint64_t*)k; return (v.k == UINT && v.u == n) || (v.k == INT && (int64_t)v.u >= 0 && v.u == n); }
static bool is_str(const Value& v, const void* k) { return v.k == STR && v.s == *(const Bytes*)k; }
static void lookup(const NodeCtx& c, unsigned f) {
    static const char* nm[] = {"map_int", "map_uint", "map_str", "map_cstr", "map_int_optional", "map_uint_optional", "map_str_optional", "map_cstr_optional", "map_contains_int", "map_contains_uint", "map_contains_str", "map_contains_cstr"};
    int64_t i = (int64_t)key_u64(); uint64_t u = (uint64_t)i; Bytes s = key_str();
    if (V.k == MAP && !V.c.empty() && chance(2, 3)) { const Value& k = V.c[2 * draw(V.c.size() / 2)]; if (k.k == STR || k.k == BIN || k.k == EXT) s = k.s; else if (k.k == INT || k.k == UINT) i = (int64_t)(u = k.u);
        if (chance(1, 4)) { // nearly that key
            if (!s.empty()) switch (draw(3)) { case 0: s[draw(s.size())] ^= (char)(1 << draw(8)); break; case 1: s.pop_back(); break; default: s += (char)draw(256); }
            u ^= 1ull << draw(64); i = (int64_t)u; } }
    unsigned kt = f % 4, form = f / 4; if (kt == 3) { size_t z = s.find('\0'); if (z != Bytes::npos) s.resize(z); }
    long w = V.k != MAP ? -3 : kt == 0 ? find(is_int, &i) : kt == 1 ? find(is_uint, &u) : find(is_str, &s);
    c.run([&](mpack_node_t x, mpack_tree_t* tr, const char*) {
        Box sb(kt == 3 ? s + '\0' : s); mpack_node_t g = x; bool has = false; size_t n = s.size(); const char* p = n || kt == 3 ? sb.p : NULL;
        switch (f) { case 0: g = mpack_node_map_int(x, i); break; case 1: g = mpack_node_map_uint(x, u); break; case 2: g = mpack_node_map_str(x, p, n); break; case 3: g = mpack_node_map_cstr(x, p); break;
        case 4: g = mpack_node_map_int_optional(x, i); break; case 5: g = mpack_node_map_uint_optional(x, u); break; case 6: g = mpack_node_map_str_optional(x, p, n); break; case 7: g = mpack_node_map_cstr_optional(x, p); break;
        case 8: has = mpack_node_map_contains_int(x, i); break; case 9: has = mpack_node_map_contains_uint(x, u); break; case 10: has = mpack_node_map_contains_str(x, p, n); break; default: has = mpack_node_map_contains_cstr(x, p); }
        mpack_error_t e = mpack_tree_error(tr), we = w == -3 ? mpack_error_type : w == -2 ? mpack_error_data : w == -1 && form == 0 ? mpack_error_data : mpack_ok;
        std::string key = kt == 0 ? std::to_string(i) : kt == 1 ? std::to_string(u) : "'" + s + "'";
        CHECK(e == we, "%s(%s) in %s: %s, expected %s", nm[f], key.c_str(), show(V).c_str(), err_name(e), err_name(we));
        if (form == 2) { CHECK(has == (w >= 0), "%s(%s) in %s returned %i", nm[f], key.c_str(), show(V).c_str(), has); return; }
        if (w >= 0) { Value got; const char* why = ""; CHECK(node_value(g, got, &why), "reading the found value: %s", why); CHECK(eq(got, V.c[2 * w + 1]), "%s(%s) in %s found %s", nm[f], key.c_str(), show(V).c_str(), show(got).c_str());
            mpack_node_t want = mpack_node_map_value_at(x, (size_t)w); if (V.c[2 * w + 1].k >= STR && V.c[2 * w + 1].k <= EXT) CHECK(mpack_node_data(want) == mpack_node_data(g), "another entry with the same value"); }
        else if (w == -1 && form == 1) CHECK(mpack_node_is_missing(g) && mpack_node_type(g) == mpack_type_missing, "%s(%s) in %s: not missing", nm[f], key.c_str(), show(V).c_str());
        else CHECK(!mpack_node_is_missing(g) && mpack_node_is_nil(g) && mpack_node_type(g) == mpack_type_nil, "%s(%s) in %s: not nil after an error", nm[f], key.c_str(), show(V).c_str());
    });
}
static void positional(const NodeCtx& c, unsigned f) {
    size_t n = V.count(), i; switch (draw(7)) { case 0: i = n; break; case 1: i = n + 1; break; case 2: i = SIZE_MAX; break; case 3: i = 0; break; case 4: i = (size_t)1 << draw(8 * sizeof(size_t)); break; default: i = n ? (size_t)draw(n) : 0; }
    c.run([&](mpack_node_t x, mpack_tree_t* tr, const char*) {
        bool arr = V.k == ARR, map = V.k == MAP, right = f == 0 || f == 3 ? arr : map; mpack_error_t we = !right ? mpack_error_type : i >= n && f < 3 ? mpack_error_data : mpack_ok;
        static const char* nm[] = {"array_at", "map_key_at", "map_value_at", "array_length", "map_count"};
        if (f >= 3) { size_t g = f == 3 ? mpack_node_array_length(x) : mpack_node_map_count(x); CHECK(g == (right ? n : 0), "%s of %s is %zu", nm[f], show(V).c_str(), g); CHECK(mpack_tree_error(tr) == we, "%s of %s: %s", nm[f], show(V).c_str(), err_name(mpack_tree_error(tr))); return; }
        mpack_node_t g = f == 0 ? mpack_node_array_at(x, i) : f == 1 ? mpack_node_map_key_at(x, i) : mpack_node_map_value_at(x, i);
        CHECK(mpack_tree_error(tr) == we, "%s(%zu) of %s: %s, expected %s", nm[f], i, show(V).c_str(), err_name(mpack_tree_error(tr)), err_name(we));
        if (we == mpack_ok) { const Value& w = f == 0 ? V.c[i] : V.c[2 * i + (f == 2)]; Value got; const char* why = ""; CHECK(node_value(g, got, &why), "%s", why); CHECK(eq(got, w), "%s(%zu) of %s is %s", nm[f], i, show(V).c_str(), show(got).c_str()); }
        else CHECK(mpack_node_is_nil(g) && !mpack_node_is_missing(g), "%s(%zu): not nil after an error", nm[f], i);
    });
}
static void enums(const NodeCtx& c) {
    std::vector<Bytes> ks; std::vector<const char*> kp; size_t n = (size_t)draw(8); for (size_t i = 0; i < n; i++) { Bytes s = key_str(); if (V.k >= STR && V.k <= EXT && chance(1, 3)) { s = V.s; if (!s.empty() && coin()) { char& c = s[draw(s.size())]; c = c == 'q' ? 'r' : 'q'; } } size_t z = s.find('\0'); if (z != Bytes::npos) s.resize(z); ks.push_back(s); } for (auto& s : ks) kp.push_back(s.c_str()); kp.push_back("sentinel");
    size_t w = n; if (V.k == STR) for (size_t i = 0; i < n; i++) if (ks[i] == V.s) { w = i; break; }
    for (int opt = 0; opt < 2; opt++) c.run([&](mpack_node_t x, mpack_tree_t* tr, const char*) {
        size_t g = opt ? mpack_node_enum_optional(x, kp.data(), n) : mpack_node_enum(x, kp.data(), n);
        CHECK(g == w, "enum%s of %s returned %zu, expected %zu of %zu", opt ? "_optional" : "", show(V).c_str(), g, w, n); mpack_error_t we = w == n && !opt ? mpack_error_type : mpack_ok; CHECK(mpack_tree_error(tr) == we, "enum%s of %s: %s", opt ? "_optional" : "", show(V).c_str(), err_name(mpack_tree_error(tr)));
    });
}
void pbt::property_case() {
    (void)enumerated(); GenOpt go; go.ext = EXTS; go.max_depth = 2; go.max_nodes = 6; go.max_len = 20; V = Value();
    switch (draw(8)) { case 0: V = gen_value(go); break; case 1: V = mk_data(STR, key_str()); break; case 2: { V.k = ARR; size_t n = gen_len(30, false); for (size_t i = 0; i < n; i++) V.c.push_back(gen_value(go)); break; }
    case 3: if (chance(1, 60)) { // a large map, with or without a key that comes twice
        V.k = MAP; size_t n = 200 + (size_t)draw(600); uint64_t m = 1 + 2 * draw(1000); bool str = coin(); for (size_t i = 0; i < n; i++) { uint64_t u = i * m % 65521; V.c.push_back(str ? mk_data(STR, std::to_string(u)) : mk(coin() ? UINT : INT, u)); V.c.push_back(mk(UINT, i)); }
        if (coin()) { size_t a = (size_t)draw(n), b = coin() ? n - 1 : (size_t)draw(n); V.c[2 * a] = V.c[2 * b]; } label("large map"); break; }
        /* fallthrough */
    default: { V.k = MAP; size_t n = (size_t)draw(chance(1, 10) ? 40 : 7); for (size_t i = 0; i < n; i++) { Value k = gen_key(); if (chance(3, 4)) for (int t = 0; t < 10; t++) { bool dup = false; for (size_t j = 0; j < i; j++) dup |= eq(V.c[2 * j], k); if (!dup) break; k = gen_key(); } V.c.push_back(k); V.c.push_back(coin() ? mk(UINT, i + 1000) : gen_value(go)); } } }
    if (coin()) set_overlong(V, EXTS);
    E = enc(V); note("%s", show(V).c_str()); NodeCtx c(E);
    for (unsigned f = 0; f < 12; f++) lookup(c, f); for (unsigned f = 0; f < 5; f++) positional(c, f); if (V.k <= EXT || chance(1, 8)) enums(c);
    label(kind_name(V.k)); if (V.k == MAP ? V.c.size() > 2 : V.k >= STR) nontrivial(hash_bytes(c.msg.data(), c.msg.size(), c.kind));
}
