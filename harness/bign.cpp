// Nodes over data longer than 24, 31 and nearly 32 bits can count, and arrays and maps of more than 2^24 nodes (C04, C17, C18).
#include "big.h"
using namespace pbt;
const char* pbt::harness_name = "bign";
enum { LEN, COPY_DATA, COPY_UTF8, COPY_CSTR, COPY_UTF8_CSTR, COPY_TIGHT, CSTR_TIGHT, CHECK_UTF8, CHECK_UTF8_CSTR, BAD_END, NUL_END, DATA_ALLOC, CSTR_ALLOC, UTF8_CSTR_ALLOC, MAP_STR, CONTAINS, OPTIONAL, OTHER_KEY, SHORT, MANY_ARRAY, MANY_MAP, MANY_ENUM, PRINT, NOP };
static const char* const NAME[] = {"lengths and pointers", "copy_data", "copy_utf8", "copy_cstr", "copy_utf8_cstr", "copy_data one byte short", "copy_cstr without room for the NUL", "check_utf8", "check_utf8_cstr", "bad UTF-8 at the end", "a NUL at the end", "data_alloc", "cstr_alloc", "utf8_cstr_alloc", "map_str", "map_contains_str", "map_str_optional", "a key that differs at its end", "data one byte short", "a long array", "a large map", "a long enum", "printing"};
enum { DATA, POOL, STREAM, FILE_, NSRC };
static const char* const SRC[] = {"memory", "a node pool", "a stream", "a file"};
static const bool EXTS = MPACK_EXTENSIONS;
uint64_t pbt_exhaustive_total() { return NOP * NSRC * 3; }
static bool scans(int op) { return (op >= COPY_UTF8 && op <= OTHER_KEY && op != COPY_TIGHT) || op == BAD_END; }
#if MPACK_DEBUG || MPACK_OPTIMIZE_FOR_SIZE
static const bool SLOW = true;
#else
static const bool SLOW = false;
#endif
static size_t big_tread(mpack_tree_t* t, char* b, size_t n) { return ((BigStream*)mpack_tree_context(t))->read(b, n); }
static void many(int op, int src) {
    if (src == FILE_ || (src == POOL && op == MANY_ENUM)) return; if (SLOW && src != DATA) return;
#ifndef __LP64__
    return;
#endif
    if (op == MANY_ENUM) {
        size_t n = ((size_t)1 << 24) + 3 + (size_t)draw(100), at = n - 1 - (size_t)draw(2), odd = (size_t)draw(3); const char** v = (const char**)malloc(n * sizeof *v); const char other[] = "aother", hit[] = "ahit"; for (size_t i = 0; i < n; i++) v[i] = other; if (odd != 2) v[at] = hit;
        Bytes m = odd == 1 ? "\x93\x01\xa3hit\xa4" "ahit" : "\x93\x01\xa3hit\xa4" "ahit"; Box b(m); mpack_tree_t t; mpack_tree_init_data(&t, b.p, b.n); mpack_tree_parse(&t); mpack_node_t x = mpack_node_array_at(mpack_tree_root(&t), 2); size_t g = src == STREAM ? mpack_node_enum(x, v, n) : mpack_node_enum_optional(x, v, n), w = odd != 2 ? at : n;
        note("enum of %zu strings, found at %zu", n, w); CHECK(g == w, "enum of %zu strings returned %zu, expected %zu", n, g, w); CHECK(mpack_tree_error(&t) == (odd == 2 && src == STREAM ? mpack_error_type : mpack_ok), "%s", err_name(mpack_tree_error(&t))); mpack_tree_destroy(&t); free(v); label("long enum"); nontrivial(n); return; }
    bool map = op == MANY_MAP; uint32_t n = (map ? 1u << 23 : 1u << 24) + 3 + (uint32_t)draw(200); Bytes m = "\x93\x05" + big_head(map ? MAP : ARR, n); size_t h = m.size(); m.resize(h + (map ? 2 : 1) * (size_t)n, (char)0xc0); // small integers in an order of their own
    for (size_t i = h; i < m.size(); i++) { size_t j = map ? (i - h) / 2 : i - h; m[i] = (char)(map && !((i - h) & 1) ? 0xc2 + j % 2 : (j * 7 + j / 100) % 100); }
    m += "\xa3" "end"; note("%s of %u elements", map ? "map" : "array", n); size_t limit0 = vt.limit; vt.limit = (size_t)2 << 30; mpack_tree_t t; mpack_node_data_t* pool = NULL; size_t poolsize = 0;
    if (src == STREAM) { Source q; q.p = m.data(); q.n = m.size(); q.sizes = {(size_t)1 << 20}; mpack_tree_init_stream(&t, source_tree_read, &q, m.size(), (size_t)1 << 26); mpack_tree_parse(&t); } else if (src == POOL) { poolsize = m.size() + 10; pool = (mpack_node_data_t*)malloc(poolsize * sizeof *pool); mpack_tree_init_pool(&t, m.data(), m.size(), pool, poolsize); mpack_tree_parse(&t); } else { mpack_tree_init_data(&t, m.data(), m.size()); mpack_tree_parse(&t); }
    CHECK(mpack_tree_error(&t) == mpack_ok, "%s", err_name(mpack_tree_error(&t))); if (src == DATA) CHECK(mpack_tree_size(&t) == m.size(), "size %zu, expected %zu", mpack_tree_size(&t), m.size());
    mpack_node_t r = mpack_tree_root(&t), x = mpack_node_array_at(r, 1); CHECK((map ? mpack_node_map_count(x) : mpack_node_array_length(x)) == n, "count %zu", map ? mpack_node_map_count(x) : mpack_node_array_length(x));
    for (uint32_t k = 0; k < 4000; k++) { uint32_t j = k < 200 ? n - 1 - k : (uint32_t)draw(n); unsigned w = (j * 7ull + j / 100) % 100; mpack_node_t y = map ? mpack_node_map_value_at(x, j) : mpack_node_array_at(x, j); CHECK(mpack_node_u8(y) == w, "element %u is %u, expected %u", j, mpack_node_u8(y), w); if (map) CHECK(mpack_node_bool(mpack_node_map_key_at(x, j)) == (j % 2 == 1), "key %u", j); }
    mpack_node_t last = mpack_node_array_at(r, 2); CHECK(mpack_node_strlen(last) == 3 && !memcmp(mpack_node_str(last), "end", 3), "the element behind it: %s", err_name(mpack_tree_error(&t)));
    if (coin()) { (void)(map ? mpack_node_map_value_at(x, n) : mpack_node_array_at(x, n)); CHECK(mpack_tree_error(&t) == mpack_error_data, "index %u accepted", n); }
    mpack_tree_destroy(&t); free(pool); vt.limit = limit0; label("more than 2^24 nodes"); nontrivial(n);
}
static void blob(int i) {
    int op = i % NOP, src = i / NOP % NSRC, si = i / NOP / NSRC; if (si >= BIG_NSIZES) return; size_t n = BIG_SIZES[si]; bool big = si > 0; if (op >= MANY_ARRAY && op <= MANY_ENUM) { if (!si) many(op, src); return; }
    bool alloc = op == DATA_ALLOC || op == CSTR_ALLOC || op == UTF8_CSTR_ALLOC, key = op >= MAP_STR && op <= OTHER_KEY, bad = op == BAD_END || op == NUL_END;
    if (big && (src == STREAM || src == FILE_ || alloc || (scans(op) && (SLOW || si == 2 || src == POOL)) || op == OTHER_KEY)) return;
    if (op == PRINT && (src != DATA || !MPACK_DEBUG)) return;
    Kind k = scans(op) || bad || op == CSTR_TIGHT ? STR : op == PRINT ? BIN : pick({STR, BIN, EXT}); if (k == EXT && !EXTS) k = BIN; int8_t et = (int8_t)draw(255);
    BigStream s; s.pl = Payload(n); size_t pre = (size_t)draw(14); s.head = Bytes(1, (char)(0x90 | (pre + 2))); for (size_t j = 0; j < pre; j++) s.head += (char)draw(128); if (key) s.head += "\x82\xc3\x05"; s.head += big_head(k, n, et); s.tail = "\x2a"; s.tail += "\x07"; if (!key) s.tail = "\x2a"; s.end = s.total(); bool shrt = op == SHORT; if (shrt) s.end -= 2 + (size_t)draw(100); if (chance(1, 2)) s.piece = 1 + (size_t)draw(1) + 900000;
    char* msg = big_message(s.head, s.pl, s.tail); size_t off = s.head.size(); char* last = msg + off + n - 1 - draw(3); if (bad) *last = op == BAD_END ? (char)pick({0xff, 0xc3, 0x80, 0xf4}) : 0; size_t limit0 = vt.limit; vt.limit = (size_t)200 << 20; mpack_tree_t t; FILE* f = NULL; Box poolb(20 * sizeof(mpack_node_data_t) + 16); mpack_node_data_t pool[20];
    note("%s of %zu bytes in %s, %zu elements before it, kind %s", NAME[op], n, SRC[src], pre, kind_name(k));
    bool maxed = false; uint64_t total = s.total();
    switch (src) { case POOL: mpack_tree_init_pool(&t, msg, (size_t)s.end, pool, 20); break; case DATA: mpack_tree_init_data(&t, msg, (size_t)s.end); break;
    case FILE_: if (bad || shrt) { vt.limit = limit0; big_src_reset(); return; } f = big_file(&s, false, true); mpack_tree_init_stdfile(&t, f, coin() ? 0 : (size_t)total + (size_t)draw(3), true); break;
    default: { size_t lim = (size_t)total + (size_t)draw(3); if (chance(1, 6)) { lim = (size_t)total - 1 - (size_t)draw(50); maxed = true; } mpack_tree_init_stream(&t, big_tread, &s, lim, coin() ? 20 : SIZE_MAX); } }
    if (src == STREAM && bad) { vt.limit = limit0; mpack_tree_destroy(&t); big_src_reset(); return; }
    mpack_tree_parse(&t); mpack_error_t e = mpack_tree_error(&t);
    if (shrt || maxed) { CHECK(maxed ? e == mpack_error_too_big || (shrt && e == mpack_error_io) : src == STREAM ? e == mpack_error_io : e == mpack_error_invalid, "parsing with %llu of %llu bytes%s: %s", (unsigned long long)s.end, (unsigned long long)total, maxed ? " and a lower limit" : "", err_name(e)); mpack_tree_destroy(&t); vt.limit = limit0; big_src_reset(); label("too short"); nontrivial((uint64_t)i); return; }
    CHECK(e == mpack_ok, "parsing: %s", err_name(e)); CHECK(mpack_tree_size(&t) == total, "size %zu, expected %llu", mpack_tree_size(&t), (unsigned long long)total);
    mpack_node_t r = mpack_tree_root(&t), m = mpack_node_array_at(r, pre), x = key ? mpack_node_map_key_at(m, 1) : m; bool str = k == STR, bin = k == BIN; const char* p0 = msg + off; CHECK(mpack_node_int(mpack_node_array_at(r, pre + 1)) == (key ? 7 : 42) || key, "the element behind it");
    if (key) CHECK(mpack_node_int(mpack_node_array_at(r, pre + 1)) == 7, "the element behind the map");
    mpack_error_t want = mpack_ok; bool str0 = op == COPY_CSTR || op == COPY_UTF8_CSTR; BigDst* dst = NULL; char* own = NULL; const char* at = mpack_node_data(x);
    CHECK(at && mpack_node_data_len(x) == n, "data_len %u", mpack_node_data_len(x)); if (src <= POOL) CHECK(at == p0, "the data is elsewhere"); else { for (size_t j = 0; j < n; j++) CHECK((unsigned char)at[j] == s.pl.at(j), "byte %zu of the data", j); }
    switch (op) {
    case LEN: if (str) CHECK(mpack_node_strlen(x) == n && mpack_node_str(x) == at, "strlen"); else if (bin) CHECK(mpack_node_bin_size(x) == n && mpack_node_bin_data(x) == at, "bin_size");
#if MPACK_EXTENSIONS
        else CHECK(mpack_node_exttype(x) == et, "exttype");
#endif
        { mpack_tag_t g = mpack_node_tag(x); uint32_t l = 0; Value v = tag_value(g, &l); CHECK(v.k == k && l == n, "the tag"); } break;
    case COPY_DATA: dst = new BigDst(n); CHECK(mpack_node_copy_data(x, dst->p, n) == n, "copy_data returned another size"); break;
    case COPY_TIGHT: dst = new BigDst(n - 1); CHECK(mpack_node_copy_data(x, dst->p, n - 1) == 0, "copy_data failed and returned a size"); want = mpack_error_too_big; break;
    case CSTR_TIGHT: dst = new BigDst(n); mpack_node_copy_cstr(x, dst->p, n); want = mpack_error_too_big; break;
    case COPY_UTF8: dst = new BigDst(n); CHECK(mpack_node_copy_utf8(x, dst->p, n) == n, "copy_utf8 returned another size"); break;
    case COPY_CSTR: dst = new BigDst(n + 1); mpack_node_copy_cstr(x, dst->p, n + 1); break; case COPY_UTF8_CSTR: dst = new BigDst(n + 1); mpack_node_copy_utf8_cstr(x, dst->p, n + 1); break;
    case CHECK_UTF8: mpack_node_check_utf8(x); break; case CHECK_UTF8_CSTR: mpack_node_check_utf8_cstr(x); break;
    case BAD_END: case NUL_END: want = mpack_error_type; switch ((int)draw(big ? 2 : 5)) { case 0: if (op == BAD_END) mpack_node_check_utf8(x); else mpack_node_check_utf8_cstr(x); break; case 1: mpack_node_check_utf8_cstr(x); break; case 2: own = mpack_node_utf8_cstr_alloc(x, n + 1); break; case 3: dst = new BigDst(n + 1); mpack_node_copy_utf8_cstr(x, dst->p, n + 1); break; default: dst = new BigDst(n + 1); if (op == BAD_END) mpack_node_copy_utf8(x, dst->p, n + 1); else mpack_node_copy_cstr(x, dst->p, n + 1); } CHECK(!own, "a string was returned"); break;
    case DATA_ALLOC: own = mpack_node_data_alloc(x, n); break; case CSTR_ALLOC: own = mpack_node_cstr_alloc(x, n + 1); break; case UTF8_CSTR_ALLOC: own = mpack_node_utf8_cstr_alloc(x, n + 1); break;
    case MAP_STR: CHECK(mpack_node_int(mpack_node_map_str(m, at, n)) == 42, "map_str found something else"); break; case CONTAINS: CHECK(mpack_node_map_contains_str(m, at, n) && !mpack_node_map_contains_str(m, at, n - 1) && !mpack_node_map_contains_str(m, at, n & 0xffff), "map_contains_str"); break;
    case OPTIONAL: CHECK(mpack_node_int(mpack_node_map_str_optional(m, at, n)) == 42 && mpack_node_is_missing(mpack_node_map_str_optional(m, at, n - 1)), "map_str_optional"); break;
    case OTHER_KEY: { char* o = (char*)malloc(n + 1); memcpy(o, at, n); o[n] = 0; o[n - 1 - draw(5)] ^= 8; CHECK(!mpack_node_map_contains_str(m, o, n) && mpack_node_is_missing(mpack_node_map_str_optional(m, o, n)) && !mpack_node_map_contains_cstr(m, o), "another key was found"); memcpy(o, at, n); CHECK(mpack_node_map_contains_cstr(m, o) && mpack_node_int(mpack_node_map_cstr(m, o)) == 42 && mpack_node_int(mpack_node_map_cstr_optional(m, o)) == 42, "map_cstr"); free(o); break; }
#if MPACK_DEBUG && MPACK_STDIO
    case PRINT: { static char b[4096]; memset(b, 0x5c, sizeof b); mpack_node_print_to_buffer(x, b, sizeof b - 8); char w[64]; snprintf(w, sizeof w, "<binary data of length %zu", n); CHECK(strstr(b, w), "printed %s", b); 
        memset(b, 0x5c, sizeof b); mpack_print_data_to_buffer(msg, (size_t)s.end, b, sizeof b - 8); CHECK(strstr(b, w) && strstr(b, "42\n]"), "printed %s", b); break; }
#endif
    default: break; }
    e = mpack_tree_error(&t); CHECK(e == want || (op == CSTR_TIGHT && e == mpack_error_data), "%s of %zu bytes: %s, expected %s", NAME[op], n, err_name(e), err_name(want));
    if (dst) { dst->guard(NAME[op]); if (want == mpack_ok) { dst->check(NAME[op], s.pl); if (str0) CHECK(dst->p[n] == 0, "%s: no NUL at the end", NAME[op]); } }
    if (alloc) { CHECK(own, "NULL"); for (size_t j = 0; j < n; j++) CHECK((unsigned char)own[j] == s.pl.at(j), "%s: byte %zu", NAME[op], j); if (op != DATA_ALLOC) CHECK(own[n] == 0, "no NUL at the end"); vt_free(own); }
    CHECK(mpack_tree_destroy(&t) == e, "destroy lost the error"); delete dst; big_src_reset(); vt.limit = limit0; label(si == 0 ? "over 24 bits" : si == 1 ? "over 31 bits" : "32 bits"); label(SRC[src]); nontrivial((uint64_t)i);
}
// Only the headers are there: claims that large never get nodes or data.
static void claim() {
    uint64_t n = coin() ? draw(0x100000000ull) : (1ull << draw(33)) - draw(2); if (n > 0xffffffff) n = 0xffffffff; if (n < 200) n += 200; Kind k = pick({STR, BIN, ARR, MAP, EXT}); if (k == EXT && !EXTS) k = BIN; Bytes h = Bytes("\x92\x01", 2) + big_head(k, n, 5) + gen_bytes((size_t)draw(40));
    note("%s of %llu claimed in %s", kind_name(k), (unsigned long long)n, hex(h.data(), h.size()).c_str()); Box b(h); mpack_tree_t t; mpack_node_data_t pool[8]; int src = (int)draw(3); Source q; q.p = b.p; q.n = b.n; size_t ml = pick({(size_t)4096, (size_t)1 << 20, (size_t)-1}), nl = pick({(size_t)100, (size_t)1 << 20, (size_t)-1});
    if (src == 0) mpack_tree_init_data(&t, b.p, b.n); else if (src == 1) mpack_tree_init_pool(&t, b.p, b.n, pool, 8); else mpack_tree_init_stream(&t, source_tree_read, &q, ml, nl);
    mpack_tree_parse(&t); mpack_error_t e = mpack_tree_error(&t); bool over = (uint64_t)n * (k == MAP ? 2 : 1) + 100 > SIZE_MAX; bool okk = over ? e == mpack_error_io || e == mpack_error_too_big || e == mpack_error_memory || e == mpack_error_invalid : src == 2 ? e == mpack_error_io || e == mpack_error_too_big || e == mpack_error_memory : e == mpack_error_invalid || (src == 1 && e == mpack_error_too_big); CHECK(okk, "parsing: %s", err_name(e)); mpack_tree_destroy(&t); if (n > 65535) nontrivial(hash_mix(n, hash_mix((uint64_t)k, (uint64_t)src)));
}
// Maps of 2^31 pairs and more, with bytes enough for all of them: only the first few are there to be parsed.
static void huge_map() {
#ifdef __LP64__
    const size_t PAGE = 4096, POOL_USED = (size_t)1 << 20; uint32_t n = coin() ? 0x80000000u + (uint32_t)draw(0x7fffffff) : 0x80000000u + (uint32_t)draw(300); size_t before = (size_t)draw(3), total = 2 * (size_t)n;
    Bytes h(1, (char)(0x90 | (before + 1 + draw(3)))); for (size_t i = 0; i < before; i++) h += (char)draw(128); size_t extra = (size_t)((unsigned char)h[0] & 15) - before - 1; h += big_head(MAP, n);
    Bytes some; size_t kids = (size_t)draw(9); for (size_t i = 0; i < kids; i++) some += (char)draw(128); some += (char)0xc1;
    size_t len = h.size() + total + extra, region = (len + PAGE - 1) / PAGE * PAGE, pn = total + 20, pbytes = pn * sizeof(mpack_node_data_t); char* d = (char*)mmap(NULL, region + PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    char* pool = (char*)mmap(NULL, pbytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (d == (char*)MAP_FAILED || pool == (char*)MAP_FAILED || mprotect(d + region, PAGE, PROT_NONE) || mprotect(pool, POOL_USED, PROT_READ | PROT_WRITE)) { if (d != (char*)MAP_FAILED) munmap(d, region + PAGE); if (pool != (char*)MAP_FAILED) munmap(pool, pbytes); return; }
    char* m = d + region - len; memcpy(m, h.data(), h.size()); memcpy(m + h.size(), some.data(), some.size()); note("map of %u pairs, %zu elements before it, %zu behind it, reserved byte after %zu", n, before, extra, kids);
    mpack_tree_t t; mpack_tree_init_pool(&t, m, len, (mpack_node_data_t*)pool, pn); mpack_tree_parse(&t); mpack_error_t e = mpack_tree_error(&t); CHECK(e == mpack_error_invalid && mpack_tree_destroy(&t) == e, "%s, expected the reserved byte to be found", err_name(e));
    munmap(d, region + PAGE); munmap(pool, pbytes); label("map over 31 bits"); nontrivial(n);
#endif
}
void pbt::property_case() { int64_t ex = enumerated(); if (ex >= 0) blob((int)ex); else if (chance(1, 1500)) blob((int)draw((uint64_t)NOP * NSRC)); else if (chance(1, 40)) huge_map(); else claim(); }
