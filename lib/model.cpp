#include "model.h"
using namespace pbt;
const char* kind_name(Kind k) { static const char* n[] = {"nil","bool","uint","int","float","double","str","bin","ext","array","map"}; return n[k]; }
bool num_is_int(const Value& v) { return v.k == UINT || v.k == INT; }
bool eq(const Value& a, const Value& b, bool strict) {
    if (a.k != b.k) {
        if (strict || !num_is_int(a) || !num_is_int(b)) return false;
        const Value& i = a.k == INT ? a : b;
        return (int64_t)i.u >= 0 && a.u == b.u;
    }
    if (a.u != b.u) return false;
    if (a.k == EXT && a.et != b.et) return false;
    if (a.s != b.s) return false;
    if (a.c.size() != b.c.size()) return false;
    for (size_t i = 0; i < a.c.size(); i++) if (!eq(a.c[i], b.c[i], strict)) return false;
    return true;
}
static void show_(const Value& v, std::string& o, size_t max) {
    if (o.size() > max) return;
    char b[64];
    switch (v.k) {
    case NIL: o += "nil"; break;
    case BOOL: o += v.u ? "true" : "false"; break;
    case UINT: snprintf(b, sizeof b, "%lluu", (unsigned long long)v.u); o += b; break;
    case INT: snprintf(b, sizeof b, "%lldi", (long long)v.u); o += b; break;
    case FLT: snprintf(b, sizeof b, "f32:%08llx", (unsigned long long)v.u); o += b; break;
    case DBL: snprintf(b, sizeof b, "f64:%016llx", (unsigned long long)v.u); o += b; break;
    case STR: case BIN: snprintf(b, sizeof b, "%s[%zu]:", kind_name(v.k), v.s.size()); o += b; o += hex(v.s.data(), v.s.size(), 24); break;
    case EXT: snprintf(b, sizeof b, "ext(%d)[%zu]:", v.et, v.s.size()); o += b; o += hex(v.s.data(), v.s.size(), 24); break;
    case ARR: case MAP:
        snprintf(b, sizeof b, "%s%zu%c", v.k == ARR ? "A" : "M", v.count(), v.k == ARR ? '[' : '{'); o += b;
        for (size_t i = 0; i < v.c.size(); i++) { if (i) o += v.k == MAP && (i & 1) ? ':' : ','; show_(v.c[i], o, max); if (o.size() > max) { o += "..."; break; } }
        o += v.k == ARR ? ']' : '}';
    }
    if (v.form) { snprintf(b, sizeof b, "'%d", v.form); o += b; }
}
std::string show(const Value& v, size_t max) { std::string o; show_(v, o, max); return o; }
uint64_t hash_value(const Value& v, uint64_t h) {
    h = hash_mix(h, v.k * 16 + v.form); h = hash_mix(h, v.u); h = hash_mix(h, (uint64_t)v.et);
    h = hash_bytes(v.s.data(), v.s.size(), h);
    for (auto& x : v.c) h = hash_value(x, h);
    return hash_mix(h, v.c.size());
}
size_t node_count(const Value& v) { size_t n = 1; for (auto& x : v.c) n += node_count(x); return n; }
int depth(const Value& v) { int d = 0; for (auto& x : v.c) { int e = depth(x); if (e > d) d = e; } return d + 1; }

void be(Bytes& o, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) o += (char)(uint8_t)(v >> (8 * i)); }

static int canon_form(const Value& v, int version) {
    size_t n = v.s.size();
    switch (v.k) {
    case UINT: return v.u <= 127 ? 1 : v.u <= 255 ? 2 : v.u <= 65535 ? 3 : v.u <= 0xffffffffull ? 4 : 5;
    case INT: { int64_t i = (int64_t)v.u; return i >= -32 ? 1 : i >= -128 ? 2 : i >= -32768 ? 3 : i >= -2147483648ll ? 4 : 5; }
    case STR: return n <= 31 ? 1 : (n <= 255 && version == V5) ? 2 : n <= 65535 ? 3 : 4;
    case BIN: return version == V4 ? (n <= 31 ? 1 : n <= 65535 ? 3 : 4) : n <= 255 ? 2 : n <= 65535 ? 3 : 4;
    case EXT: return (n == 1 || n == 2 || n == 4 || n == 8 || n == 16) ? 1 : n <= 255 ? 2 : n <= 65535 ? 3 : 4;
    case ARR: case MAP: { size_t c = v.count(); return c <= 15 ? 1 : c <= 65535 ? 3 : 4; }
    default: return 1;
    }
}
void ref_header(Bytes& o, Kind k, uint64_t n, int8_t et, int form, int version) {
    switch (k) {
    case BIN:
        if (version == V5) { o += (char)(form == 2 ? 0xc4 : form == 3 ? 0xc5 : 0xc6); be(o, n, 1 << (form - 2)); break; }
        /* old spec raw */ // fallthrough
    case STR:
        if (form == 1) o += (char)(0xa0 | n);
        else { o += (char)(form == 2 ? 0xd9 : form == 3 ? 0xda : 0xdb); be(o, n, 1 << (form - 2)); }
        break;
    case EXT:
        if (form == 1) { o += (char)(n == 1 ? 0xd4 : n == 2 ? 0xd5 : n == 4 ? 0xd6 : n == 8 ? 0xd7 : 0xd8); }
        else { o += (char)(form == 2 ? 0xc7 : form == 3 ? 0xc8 : 0xc9); be(o, n, 1 << (form - 2)); }
        o += (char)et;
        break;
    case ARR: case MAP: {
        bool a = k == ARR;
        if (form == 1) o += (char)((a ? 0x90 : 0x80) | n);
        else { o += (char)((a ? 0xdc : 0xde) + (form == 4)); be(o, n, form == 3 ? 2 : 4); }
        break;
    }
    default: break;
    }
}
void ref_encode(const Value& v0, Bytes& o, int version) {
    // Integers that are non-negative are canonically unsigned.
    const Value& v = v0;
    int form = v.form;
    Kind k = v.k;
    if (!form && k == INT && (int64_t)v.u >= 0) { Value t; t.k = UINT; t.u = v.u; ref_encode(t, o, version); return; }
    if (!form) form = canon_form(v, version);
    switch (k) {
    case NIL: o += (char)0xc0; break;
    case BOOL: o += (char)(v.u ? 0xc3 : 0xc2); break;
    case UINT: if (form == 1) o += (char)v.u; else { o += (char)(0xcc + form - 2); be(o, v.u, 1 << (form - 2)); } break;
    case INT: if (form == 1) o += (char)v.u; else { o += (char)(0xd0 + form - 2); be(o, v.u, 1 << (form - 2)); } break;
    case FLT: o += (char)0xca; be(o, v.u, 4); break;
    case DBL: o += (char)0xcb; be(o, v.u, 8); break;
    case STR: case BIN: case EXT: ref_header(o, k, v.s.size(), v.et, form, version); o += v.s; break;
    case ARR: case MAP:
        ref_header(o, k, v.count(), 0, form, version);
        for (auto& x : v.c) ref_encode(x, o, version);
        break;
    }
}
static uint64_t rd(const uint8_t* p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | p[i]; return v; }
Tok ref_tok(const uint8_t* p, size_t n, bool ext) {
    Tok t; memset(&t, 0, sizeof t); t.st = T_TRUNC; t.hdr = 1;
    if (n < 1) return t;
    uint8_t b = p[0];
    auto need = [&](size_t k) { t.hdr = k; return n >= k; };
    auto lenform = [&](Kind k, int w) { if (!need(1 + w)) return t; t.st = T_OK; t.k = k; t.len = (uint32_t)rd(p + 1, w); return t; };
    if (b < 0x80) { t.st = T_OK; t.k = UINT; t.u = b; return t; }
    if (b < 0x90) { t.st = T_OK; t.k = MAP; t.len = b & 15; return t; }
    if (b < 0xa0) { t.st = T_OK; t.k = ARR; t.len = b & 15; return t; }
    if (b < 0xc0) { t.st = T_OK; t.k = STR; t.len = b & 31; return t; }
    if (b >= 0xe0) { t.st = T_OK; t.k = INT; t.u = (uint64_t)(int64_t)(int8_t)b; return t; }
    bool is_ext = (b >= 0xc7 && b <= 0xc9) || (b >= 0xd4 && b <= 0xd8);
    if (is_ext && !ext) { t.st = T_NOEXT; t.hdr = 1; return t; }
    switch (b) {
    case 0xc0: t.st = T_OK; t.k = NIL; return t;
    case 0xc1: t.st = T_RESERVED; return t;
    case 0xc2: case 0xc3: t.st = T_OK; t.k = BOOL; t.u = b & 1; return t;
    case 0xc4: return lenform(BIN, 1);
    case 0xc5: return lenform(BIN, 2);
    case 0xc6: return lenform(BIN, 4);
    case 0xc7: case 0xc8: case 0xc9: { int w = 1 << (b - 0xc7); if (!need(2 + w)) return t; t.st = T_OK; t.k = EXT; t.len = (uint32_t)rd(p + 1, w); t.et = (int8_t)p[1 + w]; return t; }
    case 0xca: if (!need(5)) return t; t.st = T_OK; t.k = FLT; t.u = rd(p + 1, 4); return t;
    case 0xcb: if (!need(9)) return t; t.st = T_OK; t.k = DBL; t.u = rd(p + 1, 8); return t;
    case 0xcc: case 0xcd: case 0xce: case 0xcf: { int w = 1 << (b - 0xcc); if (!need(1 + w)) return t; t.st = T_OK; t.k = UINT; t.u = rd(p + 1, w); return t; }
    case 0xd0: case 0xd1: case 0xd2: case 0xd3: { int w = 1 << (b - 0xd0); if (!need(1 + w)) return t; t.st = T_OK; t.k = INT; uint64_t v = rd(p + 1, w);
        if (w < 8 && (v >> (8 * w - 1))) { v |= ~0ull << (8 * w); }
        t.u = v; return t; }
    case 0xd4: case 0xd5: case 0xd6: case 0xd7: case 0xd8: if (!need(2)) return t; t.st = T_OK; t.k = EXT; t.len = 1u << (b - 0xd4); t.et = (int8_t)p[1]; return t;
    case 0xd9: return lenform(STR, 1);
    case 0xda: return lenform(STR, 2);
    case 0xdb: return lenform(STR, 4);
    case 0xdc: return lenform(ARR, 2);
    case 0xdd: return lenform(ARR, 4);
    case 0xde: return lenform(MAP, 2);
    case 0xdf: return lenform(MAP, 4);
    }
    abort();
}
Parse ref_scan(const uint8_t* p, size_t n, bool ext) {
    Parse r; memset(&r, 0, sizeof r);
    uint64_t todo = 1; size_t pos = 0;
    std::vector<uint64_t> ends; // remaining at which each level closes
    r.maxdepth = 0;
    while (todo) {
        Tok t = ref_tok(p + pos, n - pos, ext);
        if (t.st != T_OK) { r.st = t.st; r.used = pos; return r; }
        todo--; r.nodes++;
        size_t at = pos;
        pos += t.hdr;
        if (t.k == STR || t.k == BIN || t.k == EXT) {
            if (n - pos < t.len) { r.st = T_TRUNC; r.used = at; r.in_data = true; return r; }
            pos += t.len;
        } else if (t.k == ARR || t.k == MAP) {
            if (t.len) { ends.push_back(todo); if (ends.size() > r.maxdepth) r.maxdepth = ends.size(); }
            todo += t.k == ARR ? (uint64_t)t.len : (uint64_t)t.len * 2;
        }
        while (!ends.empty() && todo == ends.back()) ends.pop_back();
    }
    r.st = T_OK; r.used = pos; return r;
}
Value ref_decode(const uint8_t* p, size_t n, size_t& pos) {
    Tok t = ref_tok(p + pos, n - pos, true);
    if (t.st != T_OK) abort();
    pos += t.hdr;
    Value v; v.k = t.k; v.u = t.u; v.et = t.et;
    if (t.k == STR || t.k == BIN || t.k == EXT) { v.s.assign((const char*)p + pos, t.len); pos += t.len; }
    else if (t.k == ARR || t.k == MAP) { size_t m = t.k == ARR ? t.len : (size_t)t.len * 2; for (size_t i = 0; i < m; i++) v.c.push_back(ref_decode(p, n, pos)); }
    return v;
}
Bytes ts_payload(int64_t sec, uint32_t ns) {
    Bytes b;
    if (ns == 0 && sec >= 0 && sec <= 0xffffffffll) be(b, (uint64_t)sec, 4);
    else if (sec >= 0 && sec < (1ll << 34)) be(b, (uint64_t)ns << 34 | (uint64_t)sec, 8);
    else { be(b, ns, 4); be(b, (uint64_t)sec, 8); }
    return b;
}
bool ref_utf8(const uint8_t* p, size_t n) {
    for (size_t i = 0; i < n;) {
        uint8_t b = p[i];
        if (b < 0x80) { i++; continue; }
        int k; uint32_t cp, min;
        if (b >= 0xc0 && b < 0xe0) { k = 1; cp = b & 31; min = 0x80; }
        else if (b >= 0xe0 && b < 0xf0) { k = 2; cp = b & 15; min = 0x800; }
        else if (b >= 0xf0 && b < 0xf8) { k = 3; cp = b & 7; min = 0x10000; }
        else return false;
        if (n - i < (size_t)k + 1) return false;
        for (int j = 1; j <= k; j++) { if ((p[i + j] & 0xc0) != 0x80) return false; cp = cp << 6 | (p[i + j] & 63); }
        if (cp < min || cp > 0x10ffff || (cp >= 0xd800 && cp <= 0xdfff)) return false;
        i += k + 1;
    }
    return true;
}

// ------------------------------------------------------------- generators
// next to the middle between two floats or doubles
static uint64_t gen_half(unsigned top) {
    unsigned b = coin() ? 24 : 53; uint64_t m = (1ull << (b - 1)) | (draw(0) >> (65 - b)); unsigned s = 1 + (unsigned)draw(top - b); return (m << s) + (1ull << (s - 1)) + draw(3) - 1;
}
uint64_t gen_u64() {
    switch (draw(7)) {
    case 5: return gen_half(64);
    case 0: return draw(300);
    case 1: { // around a power of two
        uint64_t p = 1ull << draw(64); return p + draw(5) - 2; }
    case 2: return pick<uint64_t>({0, 1, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull});
    case 3: { unsigned b = (unsigned)draw(64); return b ? draw(0) >> (64 - b) : 0; }
    case 4: return ~(uint64_t)draw(300);
    default: return draw(0);
    }
}
int64_t gen_i64() {
    switch (draw(6)) {
    case 4: { int64_t v = (int64_t)gen_half(63); return coin() ? -v : v; }
    case 0: return (int64_t)draw(400) - 200;
    case 1: { uint64_t p = 1ull << draw(63); int64_t v = (int64_t)(p + draw(5) - 2); return coin() ? (int64_t)(0 - (uint64_t)v) : v; }
    case 2: return pick<int64_t>({0, -1, -31, -32, -33, -127, -128, -129, -32767, -32768, -32769, -2147483647ll, -2147483648ll, -2147483649ll, INT64_MIN, INT64_MIN + 1, INT64_MAX, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll});
    case 3: { unsigned b = (unsigned)draw(63); int64_t v = b ? (int64_t)(draw(0) >> (64 - b)) : 0; return coin() ? -v : v; }
    default: return (int64_t)draw(0);
    }
}
// The 32-bit x86 calling convention passes reals through x87 registers, which
// quiet signalling NaNs; those values cannot be asked for there.
static uint32_t q32(uint32_t r) {
#ifdef __i386__
    if ((r & 0x7f800000u) == 0x7f800000u && (r & 0x7fffffu)) r |= 0x400000u;
#endif
    return r;
}
static uint64_t q64(uint64_t r) {
#ifdef __i386__
    if ((r & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (r & 0xfffffffffffffull)) r |= 0x8000000000000ull;
#endif
    return r;
}
static uint32_t gen_f32_raw(); static uint64_t gen_f64_raw();
uint32_t gen_f32() { return q32(gen_f32_raw()); }
uint64_t gen_f64() { return q64(gen_f64_raw()); }
static uint32_t gen_f32_raw() {
    switch (draw(5)) {
    case 0: { float f = (float)(int)(draw(2000)) - 1000; uint32_t r; memcpy(&r, &f, 4); return r; }
    case 1: return pick<uint32_t>({0, 0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0x7f800001u, 0x7fffffffu, 0x00000001u, 0x007fffffu, 0x00800000u, 0x7f7fffffu, 0xff7fffffu, 0x3f800000u, 0xbf800000u, 0x5f000000u, 0x4f000000u});
    case 2: return (uint32_t)(draw(2) << 31 | pick<uint32_t>({0u, 1u, 2u, 126u, 127u, 128u, 157u, 158u, 159u, 189u, 190u, 191u, 253u, 254u, 255u}) << 23 | (uint32_t)(draw(1 << 23)));
    default: return (uint32_t)draw(0x100000000ull);
    }
}
static uint64_t gen_f64_raw() {
    switch (draw(6)) {
    case 0: { double f = (double)((int)draw(2000) - 1000) / pick<double>({1.0, 2.0, 4.0, 3.0, 10.0}); uint64_t r; memcpy(&r, &f, 8); return r; }
    case 1: return pick<uint64_t>({0, 0x8000000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0x7ff0000000000001ull, 0x7fffffffffffffffull, 1, 0x000fffffffffffffull, 0x0010000000000000ull, 0x7fefffffffffffffull, 0x3ff0000000000000ull, 0xbff0000000000000ull});
    case 2: { uint64_t e = pick<uint64_t>({0, 1, 873, 874, 895, 896, 897, 898, 1022, 1023, 1024, 1149, 1150, 1151, 1152, 2045, 2046, 2047}); return draw(2) << 63 | e << 52 | draw(1ull << 52); }
    case 3: { uint32_t r = gen_f32(); float f; memcpy(&f, &r, 4); double d = f; uint64_t q; memcpy(&q, &d, 8); return q; }
    default: return draw(0);
    }
}
size_t gen_len(size_t max, bool big) {
    size_t r;
    switch (draw(6)) {
    case 0: case 1: r = (size_t)draw(8); break;
    case 2: r = (size_t)draw(40); break;
    case 3: r = pick<size_t>({0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 254, 255, 256, 257}); break;
    case 4: if (big) { r = pick<size_t>({65535, 65536, 65537, 4095, 4096, 4097, 4091, 8192, 32767, 32768}); return r; } // fallthrough
    default: r = (size_t)draw(max + 1); break;
    }
    return r > max ? max : r;
}
Bytes gen_bytes(size_t n) {
    Bytes b(n, '\0');
    if (n > 64) { // long payloads: pattern + a few edits, keeps choice sequences short
        uint64_t x = draw(0) | 1;
        for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[i] = (char)x; }
        return b;
    }
    for (size_t i = 0; i < n; i++) b[i] = (char)draw(256);
    return b;
}
static void put_cp(Bytes& b, uint32_t cp) {
    if (cp < 0x80) b += (char)cp;
    else if (cp < 0x800) { b += (char)(0xc0 | cp >> 6); b += (char)(0x80 | (cp & 63)); }
    else if (cp < 0x10000) { b += (char)(0xe0 | cp >> 12); b += (char)(0x80 | (cp >> 6 & 63)); b += (char)(0x80 | (cp & 63)); }
    else { b += (char)(0xf0 | cp >> 18); b += (char)(0x80 | (cp >> 12 & 63)); b += (char)(0x80 | (cp >> 6 & 63)); b += (char)(0x80 | (cp & 63)); }
}
Bytes gen_text(size_t n, bool nul) {
    Bytes b;
    bool ascii = chance(1, 2) ? false : true;
    uint64_t x = n > 64 ? (draw(0) | 1) : 0;
    while (b.size() < n) {
        size_t left = n - b.size();
        uint32_t cp;
        if (x && b.size() > 48 && left > 16) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b += (char)(' ' + x % 95); continue; }
        switch (ascii ? 0 : draw(4)) {
        case 0: cp = (uint32_t)range(nul ? 0 : 1, 127); if (cp == 0 && !chance(1, 4)) cp = 'a'; break;
        case 1: cp = pick<uint32_t>({0x80, 0x7ff, 0x100, 0xe9}); break;
        case 2: cp = pick<uint32_t>({0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0xfeff, 0x20ac}); break;
        default: cp = pick<uint32_t>({0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff, 0x1f600}); break;
        }
        size_t k = cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4;
        if (k > left) cp = 'z';
        put_cp(b, cp);
    }
    return b;
}
Bytes gen_textish(size_t n) {
    switch (draw(6)) {
    case 0: case 1: return gen_text(n, false);
    case 2: { Bytes b = gen_text(n, true); if (n && chance(1, 2)) b[draw(n)] = 0; return b; }
    case 3: { Bytes b = gen_text(n, false); if (n) b[draw(n)] = (char)draw(256); return b; }
    case 4: { // near-valid sequences
        Bytes b;
        while (b.size() < n) {
            switch (draw(10)) {
            case 0: b += "\xc0\x80"; break; case 1: b += "\xc1\xbf"; break; case 2: b += "\xe0\x80\x80"; break; case 3: b += "\xed\xa0\x80"; break;
            case 4: b += "\xf4\x90\x80\x80"; break; case 5: b += "\xf0\x8f\xbf\xbf"; break; case 6: b += "\xf5\x80\x80\x80"; break;
            case 7: b += "\xe2\x82"; break; case 8: b += (char)(0x80 | draw(64)); break; default: b += "ok"; }
            if (b.size() > 60 && n > 100) { b += Bytes(n - b.size() > n ? 0 : n - b.size(), 'q'); }
        }
        b.resize(n); return b; }
    default: return gen_bytes(n);
    }
}
static void pick_form(Value& v) {
    int lo;
    Value t = v; t.form = 0; lo = canon_form(t, V5);
    switch (v.k) {
    case UINT: v.form = (uint8_t)range(lo, 5); break;
    case INT: { int64_t i = (int64_t)v.u; int m = i < 0 && i >= -32 ? 1 : (i >= -128 && i <= 127) ? 2 : (i >= -32768 && i <= 32767) ? 3 : (i >= -2147483648ll && i <= 2147483647ll) ? 4 : 5; v.form = (uint8_t)range(m, 5); break; }
    case STR: v.form = (uint8_t)range(lo, 4); break;
    case BIN: v.form = (uint8_t)range(lo < 2 ? 2 : lo, 4); break;
    case EXT: { size_t n = v.s.size(); int m = n <= 255 ? 2 : n <= 65535 ? 3 : 4; v.form = lo == 1 && coin() ? 1 : (uint8_t)range(m, 4); break; }
    case ARR: case MAP: { v.form = (uint8_t)(lo == 1 ? pick<int>({1, 3, 4}) : (int)range(lo, 4)); break; }
    default: break;
    }
}
void set_overlong(Value& v, bool ext) { (void)ext; if (chance(1, 2)) pick_form(v); for (auto& x : v.c) set_overlong(x); }
Value gen_str(const GenOpt& o) {
    Value v = mk_data(STR, gen_textish(gen_len(o.max_len, o.big)));
    return v;
}
Value gen_scalar(const GenOpt& o) {
    Value v;
    switch (draw(9)) {
    case 0: v = mk(NIL); break;
    case 1: v = mk(BOOL, draw(2)); break;
    case 2: v = mk(UINT, gen_u64()); break;
    case 3: { int64_t i = gen_i64(); v = mk(i >= 0 ? UINT : INT, (uint64_t)i); if (o.overlong && chance(1, 2)) v.k = INT; break; }
    case 4: v = o.flt ? mk(FLT, gen_f32()) : mk(NIL); break;
    case 5: v = o.dbl ? mk(DBL, gen_f64()) : mk(NIL); break;
    case 6: v = gen_str(o); break;
    case 7: v = mk_data(BIN, gen_bytes(gen_len(o.max_len, o.big))); break;
    default:
        if (!o.ext) { v = mk(NIL); break; }
        if (chance(1, 4)) { // timestamps, sometimes malformed
            Bytes p = chance(3, 4) ? ts_payload(chance(1, 2) ? (int64_t)gen_u64() >> draw(64) : gen_i64(), (uint32_t)pick<uint64_t>({0, 1, 999999999, 500, 1000000000, 0xffffffff})) : gen_bytes(pick<size_t>({0, 3, 4, 5, 8, 11, 12, 13, 16}));
            v = mk_data(EXT, p, -1);
        } else
            v = mk_data(EXT, gen_bytes(gen_len(o.max_len, o.big)), (int8_t)draw(256));
    }
    if (v.k == INT && (int64_t)v.u >= 0 && !o.overlong) v.k = UINT;
    if (o.overlong) { if (v.k == INT && (int64_t)v.u >= 0) pick_form(v); else if (coin()) pick_form(v); }
    return v;
}
static Value gen_rec(const GenOpt& o, int d, size_t& budget) {
    if (budget) budget--;
    if (d <= 0 || budget == 0 || !chance(1, 2)) return gen_scalar(o);
    Value v; v.k = coin() ? ARR : MAP;
    size_t n;
    switch (draw(5)) {
    case 0: n = (size_t)draw(3); break;
    case 1: n = pick<size_t>({0, 1, 2, 14, 15, 16, 17}); break;
    case 2: if (o.big && chance(1, 12)) { n = pick<size_t>({65535, 65536, 255, 256}); break; } // fallthrough
    default: n = (size_t)draw(6); break;
    }
    if (n > 300) { // huge flat container of small constants
        size_t m = v.k == MAP ? 2 * n : n; Value x = mk(UINT, draw(128));
        v.c.assign(m, x);
        if (o.overlong) pick_form(v);
        return v;
    }
    if (n > budget + 20) n = budget;
    size_t m = v.k == MAP ? 2 * n : n;
    for (size_t i = 0; i < m; i++) {
        if (v.k == MAP && !(i & 1) && o.text_keys) { GenOpt k = o; k.max_len = 12; k.big = false; v.c.push_back(gen_str(k)); }
        else if (n > 8) { GenOpt k = o; k.max_len = 8; k.big = false; v.c.push_back(gen_scalar(k)); }
        else v.c.push_back(gen_rec(o, d - 1, budget));
    }
    if (o.overlong && coin()) pick_form(v);
    return v;
}
Value gen_value(const GenOpt& o) {
    size_t b = 1 + (size_t)draw(o.max_nodes);
    return gen_rec(o, (int)draw(o.max_depth + 1), b);
}
Bytes gen_deep(size_t levels, bool closed) {
    Bytes b;
    int kind = (int)draw(4);
    for (size_t i = 0; i < levels; i++) {
        switch (kind) {
        case 0: b += (char)0x91; break;
        case 1: b += (char)0x81; b += (char)0xc0; break;
        case 2: b += (char)0x81; break; // as key
        default: if (i & 1) b += (char)0x91; else { b += "\xde"; b += '\0'; b += '\1'; b += (char)0x01; }
        }
    }
    if (closed) { b += (char)0xc0; if (kind == 2) b.append(levels, (char)0xc0); }
    return b;
}
Bytes gen_wire(size_t max, bool ext) {
    GenOpt o; o.ext = ext || chance(1, 4); o.max_len = max; o.overlong = coin();
    Bytes b;
    switch (draw(8)) {
    case 0: case 1: b = enc(gen_value(o)); break;
    case 2: { b = enc(gen_value(o)); if (b.size()) b.resize(draw(b.size())); break; } // truncated
    case 3: { // mutated
        b = enc(gen_value(o));
        size_t k = 1 + draw(4);
        for (size_t i = 0; i < k && b.size(); i++) {
            size_t at = draw(b.size());
            switch (draw(4)) {
            case 0: b[at] = (char)draw(256); break;
            case 1: b.erase(at, 1 + draw(3)); break;
            case 2: b.insert(at, gen_bytes(1 + draw(3))); break;
            default: b[at] = (char)pick<int>({0xc1, 0xdd, 0xdf, 0xdb, 0xc6, 0xc9, 0xdc, 0xc7, 0xd9, 0xc4, 0xff, 0x9f, 0x8f}); break;
            }
        }
        break; }
    case 4: { size_t n = draw(24); for (size_t i = 0; i < n; i++) b += (char)(chance(1, 2) ? range(0x80, 0xdf) : draw(256)); break; }
    case 5: { // header with a claimed size, then some bytes
        Kind k = pick<Kind>({STR, BIN, EXT, ARR, MAP}); if (k == EXT && !ext && !chance(1, 4)) k = STR;
        int f = (int)range(k == ARR || k == MAP ? 3 : 2, 4);
        uint64_t cl = chance(1, 2) ? gen_u64() : draw(40);
        ref_header(b, k, cl, (int8_t)draw(256), f);
        size_t n = draw(60); Bytes t; while (t.size() < n) { if (k == ARR || k == MAP) t += enc(gen_scalar(o)); else t += gen_bytes(n); } b += t;
        break; }
    case 6: { // several messages then perhaps garbage
        size_t n = 1 + draw(4); for (size_t i = 0; i < n; i++) b += enc(gen_value(o)); if (coin()) b += gen_bytes(draw(6)); break; }
    default: b = gen_deep(1 + draw(60), chance(3, 4)); if (coin() && b.size() > 1) b.resize(draw(b.size())); break;
    }
    return b;
}
// ---- size boundaries ----
static const uint32_t BSIZES[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 64, 127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 8192, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131071, 131072};
static const unsigned NBS = sizeof BSIZES / sizeof *BSIZES;
uint64_t boundary_total() { return 5ull * NBS * 4; }
Value boundary_value(uint64_t i) {
    Kind k = (Kind)(STR + i % 5); i /= 5; uint32_t n = BSIZES[i % NBS]; i /= NBS; int f = (int)(i % 4) + 1;
    Value v; v.k = k; v.et = (int8_t)(n * 7 + f); if (v.et == -1) v.et = 5;
    if (k == STR || k == BIN || k == EXT) { v.s.resize(n); for (uint32_t j = 0; j < n; j++) v.s[j] = (char)('a' + (j * 7 + j / 251) % 26); }
    else { uint32_t c = k == MAP ? 2 * n : n; v.c.resize(c); for (uint32_t j = 0; j < c; j++) v.c[j] = mk(UINT, (j * 5 + j / 127) % 128); }
    bool okf = false;
    switch (k) {
    case STR: okf = f == 1 ? n <= 31 : f == 2 ? n <= 255 : f == 3 ? n <= 65535 : true; break;
    case BIN: okf = f == 2 ? n <= 255 : f == 3 ? n <= 65535 : f == 4; break;
    case EXT: okf = f == 1 ? (n == 1 || n == 2 || n == 4 || n == 8 || n == 16) : f == 2 ? n <= 255 : f == 3 ? n <= 65535 : true; break;
    default: okf = f == 1 ? n <= 15 : f == 3 ? n <= 65535 : f == 4; break;
    }
    v.form = okf ? (uint8_t)f : 0;
    return v;
}
