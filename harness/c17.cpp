// C17: node data accessors return exactly the encoded bytes within the limits.
#include "nodectx.h"
#include <sys/mman.h>
#include <unistd.h>
using namespace pbt;
const char* pbt::harness_name = "c17";
#ifdef VT_NO_EXT
static const bool EXTS = false;
#else
static const bool EXTS = true;
#endif
static Bytes E, D; static Tok T;
static std::string what() { return hex(E.data(), E.size(), 60); }
static bool utf8() { return ref_utf8((const uint8_t*)D.data(), D.size()); }
static bool no_nul() { return D.find('\0') == Bytes::npos; }
static size_t limit() { size_t n = D.size(); switch (draw(9)) { case 0: return n; case 1: return n + 1; case 2: return n ? n - 1 : 0; case 3: return n + 2; case 4: return 0; case 5: return 1; case 6: return (size_t)draw(n + 40); case 7: return n >= 2 ? n - 2 : n; default: return n + 31; } }
static const char* names[] = {"exttype", "bin_size", "data_len", "strlen", "str", "data", "bin_data", "check_utf8", "check_utf8_cstr", "copy_data", "copy_utf8", "copy_cstr", "copy_utf8_cstr", "data_alloc", "cstr_alloc", "utf8_cstr_alloc", "all"};
static void one(const NodeCtx& c, unsigned f) {
    c.run([&](mpack_node_t x, mpack_tree_t* tr, const char* base) {
        size_t n = D.size(), lim = limit(); const char* fn = names[f]; bool str = T.k == STR, bin = T.k == BIN, ext = T.k == EXT, data = str || bin || ext;
        mpack_error_t w = mpack_ok, w2; const char* want = base ? base + T.hdr : NULL;
        auto big = [&](size_t need) { if (need > lim) w = mpack_error_too_big; };
        switch (f) {
#if MPACK_EXTENSIONS
        case 0: { int8_t g = mpack_node_exttype(x); if (!ext) w = mpack_error_type; CHECK(g == (ext ? T.et : 0), "exttype of %s is %i", what().c_str(), g); break; }
#endif
        case 1: { size_t g = mpack_node_bin_size(x); if (!bin) w = mpack_error_type; CHECK(g == (bin ? n : 0), "bin_size of %s is %zu", what().c_str(), g); break; }
        case 2: { uint32_t g = mpack_node_data_len(x); if (!data) w = mpack_error_type; CHECK(g == (data ? n : 0), "data_len of %s is %u", what().c_str(), g); break; }
        case 3: { size_t g = mpack_node_strlen(x); if (!str) w = mpack_error_type; CHECK(g == (str ? n : 0), "strlen of %s is %zu", what().c_str(), g); break; }
        case 4: case 5: case 6: { const char* p = f == 4 ? mpack_node_str(x) : f == 5 ? mpack_node_data(x) : mpack_node_bin_data(x); bool ok = f == 4 ? str : f == 5 ? data : bin; if (!ok) { w = mpack_error_type; CHECK(!p, "%s of %s is not NULL", fn, what().c_str()); } else { CHECK(p && !memcmp(p, D.data(), n), "%s of %s gives other bytes", fn, what().c_str()); if (base) CHECK(p == want, "%s points elsewhere", fn); } break; }
        case 7: mpack_node_check_utf8(x); if (!str || !utf8()) w = mpack_error_type; break;
        case 8: mpack_node_check_utf8_cstr(x); if (!str || !utf8() || !no_nul()) w = mpack_error_type; break;
        case 9: case 10: { lim = big_limit(lim); OutBuf o(lim, n); char* to = lim ? o.p : NULL; size_t g = f == 9 ? mpack_node_copy_data(x, to, lim) : mpack_node_copy_utf8(x, to, lim); if (f == 9 ? !data : !str) w = mpack_error_type; else { if (f == 10 && !utf8()) w = mpack_error_type; big(n); }
            if (w == mpack_ok) { CHECK(g == n && !memcmp(o.p, D.data(), n), "%s(%zu) of %s returned %zu", fn, lim, what().c_str(), g); for (size_t i = n; i < o.scan; i++) CHECK(o.p[i] == 0x5c, "%s(%zu) of %s wrote past the data", fn, lim, what().c_str()); } else CHECK(g == 0, "%s(%zu) failed on %s and returned %zu", fn, lim, what().c_str(), g); break; }
        case 11: case 12: { if (!lim) lim = 1; lim = big_limit(lim); OutBuf o(lim, n); if (f == 11) mpack_node_copy_cstr(x, o.p, lim); else mpack_node_copy_utf8_cstr(x, o.p, lim); if (!str) w = mpack_error_type; else { if (!no_nul() || (f == 12 && !utf8())) w = mpack_error_type; big(n + 1); }
            if (w == mpack_ok) { CHECK(!memcmp(o.p, D.data(), n) && o.p[n] == 0, "%s(%zu) of %s", fn, lim, what().c_str()); for (size_t i = n + 1; i < o.scan; i++) CHECK(o.p[i] == 0x5c, "%s(%zu) of %s wrote past the terminator", fn, lim, what().c_str()); } else CHECK(o.p[0] == 0, "%s(%zu) failed on %s without leaving an empty string", fn, lim, what().c_str());
            break; }
        case 13: { lim = chance(1, 8) ? SIZE_MAX : big_limit(lim); char* p = mpack_node_data_alloc(x, lim); if (!data) w = mpack_error_type; else big(n); if (w == mpack_ok) { CHECK(p || n == 0, "data_alloc returned NULL"); if (p) { CHECK(vt_size(p) >= n && !memcmp(p, D.data(), n), "data_alloc of %s", what().c_str()); MPACK_FREE(p); } } else CHECK(!p, "data_alloc failed and returned data"); break; }
        case 14: case 15: { lim = chance(1, 8) ? SIZE_MAX : big_limit(lim); vt.allow_break = lim == 0; char* p = f == 14 ? mpack_node_cstr_alloc(x, lim) : mpack_node_utf8_cstr_alloc(x, lim); if (!lim) { w = mpack_error_bug; CHECK(!p, "alloc with limit 0"); break; }
            if (!str) w = mpack_error_type; else { if (!no_nul() || (f == 15 && !utf8())) w = mpack_error_type; if (n >= lim) w = mpack_error_too_big; }
            if (w == mpack_ok) { CHECK(p && vt_size(p) >= n + 1 && !memcmp(p, D.data(), n) && p[n] == 0, "%s(%zu) of %s", fn, lim, what().c_str()); MPACK_FREE(p); } else CHECK(!p, "%s failed on %s and returned a string", fn, what().c_str()); break; }
        case 16: if (str && no_nul() && utf8()) { // everything on one tree: no accessor disturbs another
            Box o(n + 1); mpack_node_check_utf8_cstr(x); mpack_node_check_utf8(x); mpack_node_copy_cstr(x, o.p, n + 1); CHECK(!strcmp(o.p, D.c_str()), "copy_cstr"); mpack_node_copy_utf8(x, o.p, n); CHECK(mpack_node_strlen(x) == n && mpack_node_data_len(x) == n && mpack_node_str(x) == mpack_node_data(x), "pointers"); mpack_node_copy_data(x, o.p, n); CHECK(!memcmp(mpack_node_str(x), D.data(), n), "bytes"); } break;
        default: return;
        }
        mpack_error_t e = mpack_tree_error(tr); w2 = w;
        if ((f == 11 || f == 12) && w == mpack_error_too_big) w2 = mpack_error_data; // as documented
        bool both = (f == 10 || f == 12 || f == 11 || f == 14 || f == 15) && w == mpack_error_too_big; // also bad content: either is right
        CHECK(e == w || e == w2 || (both && e == mpack_error_type && (!no_nul() || !utf8())), "%s(%zu) of %s: %s, expected %s", fn, lim, what().c_str(), err_name(e), err_name(w));
        // never outside: the message itself is unchanged
        if (e != mpack_ok) CHECK(mpack_node_type(x) == mpack_type_nil && mpack_node_data(x) == NULL && mpack_node_data_len(x) == 0, "node still readable after an error");
    });
}
// A string of 2^32-1 bytes: the terminator makes 2^32.
static void huge(unsigned which) {
#if defined(__LP64__) && !defined(VT_TINY)
    const size_t chunk = 1 << 20; size_t total = 5 + 0xffffffffull; size_t map = (total + chunk - 1) / chunk * chunk;
    int fd = memfd_create("vt", 0); if (fd < 0 || ftruncate(fd, chunk)) { if (fd >= 0) close(fd); return; }
    char* p = (char*)mmap(NULL, map + chunk, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { close(fd); return; }
    bool ok = true; for (size_t o = chunk; ok && o < map; o += chunk) ok = mmap(p + o, chunk, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED;
    char* h = (char*)mmap(p, chunk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0); if (h == MAP_FAILED) ok = false;
    if (ok) { memset(h, 'a', chunk); h = (char*)mmap(p, chunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); memset(h, 'a', chunk); memcpy(h, "\xdb\xff\xff\xff\xff", 5);
        mpack_tree_t t; mpack_tree_init_data(&t, p, total); mpack_tree_parse(&t); CHECK(mpack_tree_error(&t) == mpack_ok, "parsing a string of 2^32-1 bytes: %s", err_name(mpack_tree_error(&t)));
        mpack_node_t r = mpack_tree_root(&t); CHECK(mpack_node_strlen(r) == 0xffffffffu, "length"); long before = vt.nfailed; char* q = which == 0 ? mpack_node_cstr_alloc(r, SIZE_MAX) : which == 1 ? mpack_node_utf8_cstr_alloc(r, SIZE_MAX) : mpack_node_data_alloc(r, SIZE_MAX);
        CHECK(!q && mpack_tree_error(&t) == mpack_error_memory && vt.nfailed == before + 1 && vt.maxreq >= 0xffffffffu, "allocating a 4 GB string requested %zu bytes: %s", vt.maxreq, err_name(mpack_tree_error(&t)));
        mpack_tree_destroy(&t); }
    munmap(p, map + chunk); close(fd); label("huge");
#else
    (void)which;
#endif
}
uint64_t pbt_exhaustive_total() { return 3 + 256; }
void pbt::property_case() {
    int64_t ex = enumerated(); D.clear();
    if (ex >= 0 && ex < 3) { huge((unsigned)ex); nontrivial((uint64_t)ex + 1); return; }
    if (ex >= 3) {
        for (int z = 0; z < 3; z++) {
            E = Bytes(1, (char)(ex - 3)); for (int i = 0; i < 9; i++) E += (char)(z == 0 ? 0 : z == 1 ? (i == 0) : (i == 1)); T = ref_tok((const uint8_t*)E.data(), E.size(), EXTS); if (T.st != T_OK || T.len > 70000) continue; E.resize(T.hdr); D.clear();
            if (T.k >= ARR) E += Bytes(T.k == MAP ? 2 * T.len : T.len, '\xa0'); else if (T.k >= STR) E += D = gen_textish(T.len);
            NodeCtx c(E); for (unsigned f = 0; f < 17; f++) one(c, f);
        }
        nontrivial((uint64_t)ex * 5); label("all-first-bytes"); return;
    }
    Value v; GenOpt go; go.ext = EXTS; go.max_depth = 2; go.max_len = 30; go.max_nodes = 6;
    switch (draw(10)) { case 0: case 1: case 2: case 3: case 4: v = mk_data(STR, gen_textish(gen_len(300, chance(1, 400)))); break; case 5: case 6: v = mk_data(BIN, gen_bytes(gen_len(300, chance(1, 400)))); break; case 7: case 8: if (EXTS) { v = mk_data(EXT, gen_bytes(coin() ? (size_t)pick({1, 2, 4, 8, 16, 12, 0}) : gen_len(300, false)), (int8_t)pick<int>({0, 1, -1, -1, -2, 127, -128, 5})); break; } // fallthrough
        default: v = gen_value(go); }
    if (coin()) set_overlong(v, EXTS);
    E = enc(v); D = v.s; T = ref_tok((const uint8_t*)E.data(), E.size(), EXTS); note("%s", show(v).c_str());
    if (D.empty() && coin()) { vt.zero_null = true; label("malloc(0) is NULL"); note("malloc(0) gives NULL"); }
    NodeCtx c(E); for (unsigned f = 0; f < 17; f++) one(c, f);
    label(kind_name(T.k)); nontrivial(hash_bytes(c.msg.data(), c.msg.size(), c.kind));
}
