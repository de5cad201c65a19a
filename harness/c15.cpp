// C15: typed reads of containers, keys, enums and constants.
#include "drv.h"
using namespace pbt;
const char* pbt::harness_name = "c15";
#ifdef VT_NO_EXT
static const bool EXTS = false;
#else
static const bool EXTS = true;
#endif
static const char SENT = 0x2a;
static Bytes E; static Tok T; static bool WHOLE, STREAM; static size_t RBUF; static std::vector<size_t> SIZES;
struct Rd {
    mpack_reader_t r; Box b; Source src; Box buf;
    Rd() : b(WHOLE ? E + SENT : E), buf(RBUF) {
        if (STREAM) { src.p = b.p; src.n = b.n; src.sizes = SIZES; mpack_reader_init(&r, buf.p, buf.n, 0); mpack_reader_set_context(&r, &src); mpack_reader_set_fill(&r, source_fill); }
        else mpack_reader_init_data(&r, b.p, b.n);
    }
    ~Rd() { if (err() == mpack_ok) mpack_reader_flag_error(&r, mpack_error_data); mpack_reader_destroy(&r); }
    mpack_error_t err() { return mpack_reader_error(&r); }
};
static std::string what() { return hex(E.data(), E.size(), 60); }
#if MPACK_EXTENSIONS
static void done_ext(mpack_reader_t* r) { mpack_done_ext(r); }
#else
static void done_ext(mpack_reader_t*) {}
#endif
static void sentinel(Rd& d, const char* fn) {
    CHECK(d.err() == mpack_ok, "%s of %s, then reading the rest: %s", fn, what().c_str(), err_name(d.err()));
    mpack_tag_t t = mpack_read_tag(&d.r); CHECK(d.err() == mpack_ok && t.type == mpack_type_uint && t.v.u == (uint64_t)SENT, "%s of %s did not consume exactly the element", fn, what().c_str());
    CHECK(mpack_reader_destroy(&d.r) == mpack_ok, "destroy after %s", fn); mpack_reader_init_error(&d.r, mpack_error_data);
}
// consumes the contents of the element whose header was read, then the sentinel
static void rest(Rd& d, const char* fn) {
    if (!WHOLE) return;
    switch (T.k) {
    case ARR: for (uint32_t i = 0; i < T.len && d.err() == mpack_ok; i++) mpack_discard(&d.r); mpack_done_array(&d.r); break;
    case MAP: for (uint64_t i = 0; i < 2ull * T.len && d.err() == mpack_ok; i++) mpack_discard(&d.r); mpack_done_map(&d.r); break;
    case STR: mpack_skip_bytes(&d.r, T.len); mpack_done_str(&d.r); break;
    case BIN: mpack_skip_bytes(&d.r, T.len); mpack_done_bin(&d.r); break;
    case EXT: mpack_skip_bytes(&d.r, T.len); done_ext(&d.r); break;
    default: break;
    }
    sentinel(d, fn);
}
static void refused(Rd& d, const char* fn, uint32_t a, uint32_t b) {
    CHECK(d.err() != mpack_ok, "%s(%u, %u) accepted %s", fn, a, b, what().c_str());
    mpack_error_t e = d.err();
    if (T.st == T_OK) CHECK(e == mpack_error_type, "%s(%u, %u) of %s flagged %s, expected type", fn, a, b, what().c_str(), err_name(e));
    else if (T.st == T_RESERVED) CHECK(e == mpack_error_invalid || e == mpack_error_type, "%s of %s flagged %s", fn, what().c_str(), err_name(e));
    else if (T.st == T_NOEXT) CHECK(e == mpack_error_unsupported || e == mpack_error_type, "%s of %s flagged %s", fn, what().c_str(), err_name(e));
    else CHECK(e == mpack_error_type || e == (STREAM ? mpack_error_io : mpack_error_invalid), "%s of truncated %s flagged %s", fn, what().c_str(), err_name(e));
}
static uint32_t near_count() { uint32_t n = T.st == T_OK && T.k >= ARR ? T.len : 0; switch (draw(8)) { case 0: return n; case 1: return n + 1; case 2: return n ? n - 1 : 0; case 3: return 0; case 4: return UINT32_MAX; case 5: return 1; case 6: return (uint32_t)draw(20); default: return n ^ (1u << draw(32)); } }
typedef struct { char x[24]; } Big;
static mpack_tag_t near_tag() { // a tag equal or close to what is there
    mpack_tag_t t = mpack_tag_nil();
    if (T.st == T_OK) { Value v; v.k = T.k; v.u = T.u; v.et = T.et; switch (T.k) { case NIL: break; case BOOL: t = mpack_tag_bool(T.u); break; case UINT: t = mpack_tag_uint(T.u); break; case INT: t = mpack_tag_int((int64_t)T.u); break;
#if MPACK_FLOAT
        case FLT: t = mpack_tag_float(f32_of(T.u)); break;
#endif
#if MPACK_DOUBLE
        case DBL: t = mpack_tag_double(f64_of(T.u)); break;
#endif
        case STR: t = mpack_tag_str(T.len); break; case BIN: t = mpack_tag_bin(T.len); break; case ARR: t = mpack_tag_array(T.len); break; case MAP: t = mpack_tag_map(T.len); break;
#if MPACK_EXTENSIONS
        case EXT: t = mpack_tag_ext(T.et, T.len); break;
#endif
        default: break; } }
    switch (draw(8)) { case 0: case 1: case 2: case 3: return t;
    case 4: return mpack_tag_int((int64_t)(T.st == T_OK ? T.u : 0)); case 5: return mpack_tag_uint(T.st == T_OK ? T.u : 0);
    case 6: { uint32_t n = near_count(), l = T.st == T_OK ? T.len : 0; if (coin()) n = l; switch (draw(6)) { case 0: return mpack_tag_str(n); case 1: return mpack_tag_bin(n); case 2: return mpack_tag_array(n); case 3: return mpack_tag_map(n); case 4: return mpack_tag_bool(l & 1);
        default:
#if MPACK_EXTENSIONS
            return mpack_tag_ext((int8_t)(T.et + (coin() ? 0 : 1)), l + (coin() ? 0 : 1));
#endif
            return mpack_tag_nil(); } }
    default: return draw(2) ? mpack_tag_int(gen_i64()) : mpack_tag_uint(gen_u64()); }
}
static bool tag_matches(mpack_tag_t t) { // model equality with the element
    switch (t.type) {
    case mpack_type_nil: return T.k == NIL; case mpack_type_bool: return T.k == BOOL && (bool)T.u == t.v.b;
    case mpack_type_uint: return (T.k == UINT && T.u == t.v.u) || (T.k == INT && (int64_t)T.u >= 0 && T.u == t.v.u);
    case mpack_type_int: return (T.k == INT && (int64_t)T.u == t.v.i) || (T.k == UINT && t.v.i >= 0 && T.u == (uint64_t)t.v.i);
#if MPACK_FLOAT
    case mpack_type_float: return T.k == FLT && raw_of(t.v.f) == T.u;
#endif
#if MPACK_DOUBLE
    case mpack_type_double: return T.k == DBL && raw_of(t.v.d) == T.u;
#endif
    case mpack_type_str: return T.k == STR && T.len == mpack_tag_str_length(&t); case mpack_type_bin: return T.k == BIN && T.len == mpack_tag_bin_length(&t);
    case mpack_type_array: return T.k == ARR && T.len == mpack_tag_array_count(&t); case mpack_type_map: return T.k == MAP && T.len == mpack_tag_map_count(&t);
#if MPACK_EXTENSIONS
    case mpack_type_ext: return T.k == EXT && T.len == mpack_tag_ext_length(&t) && T.et == mpack_tag_ext_exttype(&t);
#endif
    default: return false; }
}
static void header_fn(unsigned f) {
    vt.nfailed = 0;
    Rd d; mpack_reader_t* r = &d.r; bool ok = T.st == T_OK, big;
    uint32_t a = near_count(), b = near_count(), got = 0, cnt = 12345; if (a > b) { uint32_t x = a; a = b; b = x; }
    switch (f) {
    case 0: mpack_expect_nil(r); if (ok && T.k == NIL) rest(d, "expect_nil"); else refused(d, "expect_nil", 0, 0); break;
    case 1: { bool g = mpack_expect_bool(r); if (ok && T.k == BOOL) { CHECK(g == (bool)T.u, "expect_bool of %s gave %i", what().c_str(), g); rest(d, "expect_bool"); } else { refused(d, "expect_bool", 0, 0); CHECK(!g, "expect_bool failed and returned true"); } break; }
    case 2: mpack_expect_true(r); if (ok && T.k == BOOL && T.u) rest(d, "expect_true"); else refused(d, "expect_true", 0, 0); break;
    case 3: mpack_expect_false(r); if (ok && T.k == BOOL && !T.u) rest(d, "expect_false"); else refused(d, "expect_false", 0, 0); break;
    case 4: case 5: { Kind k = f == 4 ? MAP : ARR; const char* n = f == 4 ? "expect_map" : "expect_array"; got = f == 4 ? mpack_expect_map(r) : mpack_expect_array(r); if (ok && T.k == k) { CHECK(d.err() == mpack_ok && got == T.len, "%s of %s: %u, %s", n, what().c_str(), got, err_name(d.err())); rest(d, n); } else { refused(d, n, 0, 0); CHECK(got == 0, "%s failed and returned %u", n, got); } break; }
    case 6: case 7: { Kind k = f == 6 ? MAP : ARR; const char* n = f == 6 ? "expect_map_range" : "expect_array_range"; got = f == 6 ? mpack_expect_map_range(r, a, b) : mpack_expect_array_range(r, a, b); if (ok && T.k == k && T.len >= a && T.len <= b) { CHECK(d.err() == mpack_ok && got == T.len, "%s(%u,%u) of %s: %u, %s", n, a, b, what().c_str(), got, err_name(d.err())); rest(d, n); } else { refused(d, n, a, b); CHECK(got == a, "%s(%u,%u) failed on %s and returned %u", n, a, b, what().c_str(), got); } break; }
    case 8: case 9: { Kind k = f == 8 ? MAP : ARR; const char* n = f == 8 ? "expect_map_max" : "expect_array_max"; got = f == 8 ? mpack_expect_map_max(r, b) : mpack_expect_array_max(r, b); if (ok && T.k == k && T.len <= b) { CHECK(d.err() == mpack_ok && got == T.len, "%s(%u) of %s: %u, %s", n, b, what().c_str(), got, err_name(d.err())); rest(d, n); } else { refused(d, n, 0, b); CHECK(got == 0, "%s(%u) failed on %s and returned %u", n, b, what().c_str(), got); } break; }
    case 10: case 11: { Kind k = f == 10 ? MAP : ARR; const char* n = f == 10 ? "expect_map_match" : "expect_array_match"; if (f == 10) mpack_expect_map_match(r, a); else mpack_expect_array_match(r, a); if (ok && T.k == k && T.len == a) rest(d, n); else refused(d, n, a, a); break; }
    case 12: case 13: case 14: case 15: { Kind k = f & 1 ? ARR : MAP; bool mx = f >= 14; static const char* nm[] = {"expect_map_or_nil", "expect_array_or_nil", "expect_map_max_or_nil", "expect_array_max_or_nil"}; const char* n = nm[f - 12];
        bool g = f == 12 ? mpack_expect_map_or_nil(r, &cnt) : f == 13 ? mpack_expect_array_or_nil(r, &cnt) : f == 14 ? mpack_expect_map_max_or_nil(r, b, &cnt) : mpack_expect_array_max_or_nil(r, b, &cnt);
        if (ok && T.k == NIL) { CHECK(!g && cnt == 0, "%s of nil: %i, count %u", n, g, cnt); rest(d, n); }
        else if (ok && T.k == k && (!mx || T.len <= b)) { CHECK(g && cnt == T.len && d.err() == mpack_ok, "%s(%u) of %s: %i, count %u, %s", n, b, what().c_str(), g, cnt, err_name(d.err())); rest(d, n); }
        else { refused(d, n, 0, b); CHECK(!g && cnt == 0, "%s(%u) failed on %s: %i, count %u", n, b, what().c_str(), g, cnt); }
        break; }
    case 16: case 17: case 18: { bool nil = f >= 17; const char* n = nil ? "expect_array_or_nil_alloc" : "expect_array_alloc"; void* p; size_t es;
        if (f == 16) { p = coin() ? (void*)mpack_expect_array_alloc(r, uint32_t, b, &cnt) : (void*)mpack_expect_array_alloc(r, Big, b, &cnt); es = 4; } else if (f == 17) { p = mpack_expect_array_or_nil_alloc(r, Big, b, &cnt); es = sizeof(Big); } else { p = mpack_expect_array_or_nil_alloc(r, char, b, &cnt); es = 1; }
        big = ok && T.k == ARR && T.len <= b && (vt.nfailed > 0 || (T.len > 1000000 && d.err() == mpack_error_memory));
        if (ok && nil && T.k == NIL) { CHECK(!p && cnt == 0, "%s of nil", n); rest(d, n); }
        else if (ok && T.k == ARR && T.len <= b && T.len == 0) { CHECK(!p && cnt == 0 && d.err() == mpack_ok, "%s of an empty array", n); if (nil) sentinel(d, n); else rest(d, n); }
        else if (ok && T.k == ARR && T.len <= b && !big) { CHECK(d.err() == mpack_ok && p && cnt == T.len, "%s(%u) of %s: count %u, %s", n, b, what().c_str(), cnt, err_name(d.err())); CHECK(vt_size(p) / es >= T.len, "%s allocated %zu bytes for %u elements", n, vt_size(p), T.len); MPACK_FREE(p); if (nil && WHOLE) { for (uint32_t i = 0; i < T.len; i++) mpack_discard(r); mpack_done_array(r); sentinel(d, n); } else rest(d, n); }
        else { CHECK(!p && cnt == 0, "%s(%u) failed on %s: count %u", n, b, what().c_str(), cnt); if (!big) refused(d, n, 0, b); else CHECK(d.err() == mpack_error_memory, "%s failed to allocate: %s", n, err_name(d.err())); }
        break; }
    default: { mpack_tag_t t = near_tag(); mpack_expect_tag(r, t); if (ok && tag_matches(t)) { CHECK(d.err() == mpack_ok, "expect_tag of %s flagged %s", what().c_str(), err_name(d.err())); rest(d, "expect_tag"); } else refused(d, "expect_tag", (uint32_t)t.type, 0); break; }
    }
}
// ---- enums and keys ----
static std::vector<Bytes> KEYS; static std::vector<const char*> KP;
static void gen_keys() {
    KEYS.clear(); KP.clear(); size_t n = 1 + (size_t)draw(chance(1, 10) ? 80 : 8);
    static const char* base[] = {"", "a", "ab", "abc", "b", "key", "keys", "schema", "compact", "id", "\xc3\xa9", "A", "ke"};
    for (size_t i = 0; i < n; i++) { if (i < 13 && coin()) KEYS.push_back(base[draw(13)]); else if (i && chance(1, 4)) { Bytes t = KEYS[draw(i)]; if (t.size()) { char& c = t[chance(1, 3) ? t.size() - 1 : (size_t)draw(t.size())]; c = c == 'q' ? 'r' : 'q'; } KEYS.push_back(t); } else { Bytes t = gen_textish((size_t)draw(chance(1, 10) ? chance(1, 4) ? 400 : 70 : 6)); size_t z = t.find('\0'); if (z != Bytes::npos) t.resize(z); KEYS.push_back(t); } }
    for (auto& k : KEYS) KP.push_back(k.c_str());
}
static Value gen_key() {
    GenOpt go; go.ext = EXTS; go.max_depth = 3; go.max_nodes = 10; go.max_len = 30; Value v;
    switch (draw(8)) { case 0: case 1: case 2: case 3: v = mk_data(STR, pick(KEYS)); break;
    case 4: { Bytes s = pick(KEYS); switch (draw(5)) { case 0: s += '\0'; break; case 1: s += 'x'; break; case 2: if (s.size()) s.pop_back(); break; case 3: if (s.size()) s[(size_t)draw(s.size())] ^= 0x20; break; default: s = Bytes(1, '\0') + s; } v = mk_data(coin() ? STR : BIN, s); break; }
    case 5: v = mk_data(STR, gen_textish((size_t)draw(60))); break; default: v = gen_value(go); }
    if (coin()) set_overlong(v, EXTS);
    return v;
}
static size_t index_of(const Value& v) { if (v.k == STR) for (size_t i = 0; i < KEYS.size(); i++) if (KEYS[i] == v.s) return i; return KEYS.size(); }
static void enum_case() {
    gen_keys(); Value v = gen_key(); E = enc(v); T = ref_tok((const uint8_t*)E.data(), E.size(), EXTS); WHOLE = true; if (chance(1, 10)) { E.resize((size_t)draw(E.size())); WHOLE = false; }
    note("keys %zu element %s", KEYS.size(), show(v).c_str());
    for (int opt = 0; opt < 2; opt++) {
        Rd d; const char* fn = opt ? "expect_enum_optional" : "expect_enum"; size_t g = opt ? mpack_expect_enum_optional(&d.r, KP.data(), KP.size()) : mpack_expect_enum(&d.r, KP.data(), KP.size()), w = index_of(v);
        if (!WHOLE) { CHECK(d.err() != mpack_ok && g == KP.size(), "%s of truncated %s returned %zu, %s", fn, what().c_str(), g, err_name(d.err())); continue; }
        if (STREAM && v.k == STR && v.s.size() > RBUF) { CHECK(d.err() == mpack_error_too_big && g == KP.size(), "%s of a string longer than the buffer: %s", fn, err_name(d.err())); continue; }
        if (w < KP.size()) { CHECK(d.err() == mpack_ok && g == w, "%s of %s returned %zu (%s), expected %zu", fn, what().c_str(), g, err_name(d.err()), w); sentinel(d, fn); }
        else { CHECK(g == KP.size(), "%s of unlisted %s returned %zu", fn, what().c_str(), g); if (opt) sentinel(d, fn); else CHECK(d.err() == mpack_error_type, "%s of unlisted %s flagged %s", fn, what().c_str(), err_name(d.err())); }
    }
    nontrivial(hash_bytes(E.data(), E.size(), KEYS.size() + 1)); label("enum");
}
static void key_case() {
    gen_keys(); bool str = coin(); size_t n = (size_t)draw(chance(1, 8) ? 40 : 8), count = str ? KP.size() : (size_t)pick<size_t>({1, 2, 5, 17, 200, 300}); if (n > 15 && !str) count = 300;
    struct { bool before; bool f[400]; bool after; } fl; memset(&fl, 0, sizeof fl); std::vector<bool> model(count, false);
    Value m; m.k = MAP; GenOpt go; go.ext = EXTS; go.max_depth = 2; go.max_nodes = 6; go.max_len = 40;
    std::vector<uint64_t> used;
    for (size_t i = 0; i < n; i++) {
        Value k; if (str) { k = gen_key(); size_t w = index_of(k); if (w < KEYS.size() && !chance(1, 12)) { for (size_t j = 0; j < i; j++) if (eq(m.c[2 * j], k)) { k = gen_key(); if (index_of(k) < KEYS.size()) k = mk_data(STR, "unknown-key"); break; } } }
        else { switch (draw(5)) { case 0: case 1: case 2: { uint64_t u = draw(count + 2); if (chance(11, 12)) for (int t = 0; t < 30; t++) { bool dup = false; for (auto x : used) dup |= x == u; if (!dup) break; u = draw(count + 2); } used.push_back(u); k = mk(coin() ? UINT : INT, u); break; } case 3: k = chance(1, 3) ? mk(INT, (uint64_t)-(int64_t)draw(200)) : mk(UINT, chance(1, 2) ? gen_u64() : count + draw(3)); break; default: k = gen_value(go); } if (coin()) set_overlong(k, EXTS); }
        Value v = gen_value(go); if (coin()) set_overlong(v, EXTS); m.c.push_back(k); m.c.push_back(v);
    }
    E = enc(m); T = ref_tok((const uint8_t*)E.data(), E.size(), EXTS); WHOLE = true; size_t cut = E.size(); if (chance(1, 10)) { cut = (size_t)draw(E.size()); E.resize(cut); WHOLE = false; }
    note("%s keys of %s", str ? "string" : "integer", show(m).c_str());
    Rd d; mpack_reader_t* r = &d.r; uint32_t c = mpack_expect_map_max(r, 1000); if (d.err() != mpack_ok) { CHECK(!WHOLE, "expect_map_max: %s", err_name(d.err())); return; }
    CHECK(c == n, "map count %u", c);
    for (size_t i = 0; i < n; i++) {
        const Value& k = m.c[2 * i]; const Value& v = m.c[2 * i + 1]; const char* fn = str ? "expect_key_cstr" : "expect_key_uint";
        size_t w = str ? index_of(k) : (k.k == UINT || (k.k == INT && (int64_t)k.u >= 0)) && k.u < count ? (size_t)k.u : count;
        size_t g = str ? mpack_expect_key_cstr(r, KP.data(), fl.f, count) : mpack_expect_key_uint(r, fl.f, count);
        if (str && k.k == STR && STREAM && k.s.size() > RBUF && d.err() == mpack_error_too_big) { CHECK(g == count, "key too long returned %zu", g); return; }
        if (d.err() != mpack_ok && !WHOLE) { CHECK(g == count, "%s of truncated data returned %zu", fn, g); break; }
        if (w < count && model[w]) { CHECK(d.err() == mpack_error_invalid, "%s of duplicate key %s flagged %s", fn, show(k).c_str(), err_name(d.err())); CHECK(g == count, "%s of a duplicate returned %zu", fn, g); label("duplicate"); nontrivial(hash_bytes(E.data(), E.size(), 7)); return; }
        CHECK(d.err() == mpack_ok, "%s of key %s flagged %s", fn, show(k).c_str(), err_name(d.err()));
        CHECK(g == w, "%s of key %s returned %zu, expected %zu", fn, show(k).c_str(), g, w); if (w < count) model[w] = true;
        for (size_t j = 0; j < count; j++) CHECK(fl.f[j] == model[j], "%s of key %s: found[%zu] is %i", fn, show(k).c_str(), j, fl.f[j]);
        if (coin()) mpack_discard(r); else { Value o; ReadOpt ro; ro.max_inplace = STREAM ? RBUF : (size_t)-1; if (read_value(r, o, ro)) CHECK(eq(o, v), "value after key %s is %s", show(k).c_str(), show(o).c_str()); }
        if (d.err() != mpack_ok) { CHECK(!WHOLE, "reading the value of key %zu of %s: %s", i, show(m).c_str(), err_name(d.err())); return; }
    }
    if (d.err() == mpack_ok) { mpack_done_map(r); if (WHOLE) sentinel(d, "key dispatch"); }
    CHECK(!fl.before && !fl.after, "found array overrun"); for (size_t j = count; j < 400; j++) CHECK(!fl.f[j], "found array overrun");
    label(str ? "key_cstr" : "key_uint"); if (n > 1) nontrivial(hash_bytes(E.data(), E.size(), count));
}
uint64_t pbt_exhaustive_total() { return 256; }
void pbt::property_case() {
    int64_t ex = enumerated(); STREAM = coin(); RBUF = pick<size_t>({MPACK_READER_MINIMUM_BUFFER_SIZE, 33, 64, 300, 4096}); if (RBUF < MPACK_READER_MINIMUM_BUFFER_SIZE) RBUF = MPACK_READER_MINIMUM_BUFFER_SIZE;
    SIZES = {1}; if (coin()) SIZES = {(size_t)range(1, 40), (size_t)range(1, 400)};
    if (ex < 0 && chance(1, 3)) { if (chance(1, 3)) enum_case(); else key_case(); return; }
    WHOLE = true;
    if (ex >= 0) {
        for (int z = 0; z < 6; z++) {
            E = Bytes(1, (char)ex); for (int i = 0; i < 9; i++) E += (char)(z == 0 ? 0 : z == 1 ? 0xff : z == 2 ? (i == 1) : z == 3 ? (i == 3) : z == 4 ? i : (int)draw(256)); T = ref_tok((const uint8_t*)E.data(), E.size(), EXTS); E.resize(T.st == T_OK ? T.hdr : E.size());
            WHOLE = T.st == T_OK && (T.k < STR || T.len < 3000); if (WHOLE && T.k >= STR) E += Bytes(T.k == MAP ? 2 * T.len : T.len, 0x01);
            for (unsigned f = 0; f < 22; f++) header_fn(f);
        }
        nontrivial((uint64_t)ex + 11); label("all-first-bytes"); return;
    }
    Value v; GenOpt go; go.ext = EXTS; go.max_depth = 1; go.max_len = 30; go.max_nodes = 6;
    switch (draw(8)) { case 0: v = mk(NIL); break; case 1: v = mk(BOOL, draw(2)); break; case 2: case 3: case 4: case 5: { v.k = coin() ? ARR : MAP; size_t n = gen_len(40, chance(1, 300)); for (size_t i = 0; i < (v.k == MAP ? 2 * n : n); i++) v.c.push_back(n > 20 ? mk(NIL) : gen_value(go)); break; } default: v = gen_value(go); }
    if (coin()) set_overlong(v, EXTS);
    E = enc(v); T = ref_tok((const uint8_t*)E.data(), E.size(), EXTS);
    if (chance(1, 20)) { E.resize((size_t)draw(E.size())); WHOLE = false; T = ref_tok((const uint8_t*)E.data(), E.size(), EXTS); label("truncated"); }
    else if (chance(1, 20)) { E.clear(); ref_header(E, coin() ? ARR : MAP, (uint64_t)(uint32_t)gen_u64(), 0, 4); T = ref_tok((const uint8_t*)E.data(), E.size(), EXTS); WHOLE = T.len == 0; label("claims"); }
    note("%s%s", show(v).c_str(), WHOLE ? "" : " truncated");
    for (unsigned f = 0; f < 22; f++) { vt.nfailed = 0; header_fn(f); }
    label(kind_name(T.k)); nontrivial(hash_bytes(E.data(), E.size(), (uint64_t)STREAM));
}
