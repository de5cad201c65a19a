// C19: tree parsing uses bounded resources and enforces its limits exactly.
#include "treecmp.h"
#include <sys/mman.h>
using namespace pbt;
const char* pbt::harness_name = "c19";
static const int HUGE_CASES = 12;
uint64_t pbt_exhaustive_total() { return boundary_total() + HUGE_CASES; }
// A container of so many nodes that the size of their page reaches the end of
// a 32-bit address space, in a message of nils that is entirely there. The
// allocator refuses anything over 64 MB, so the parse must end in a memory error.
static void huge_claim(int i) {
    bool map = i & 1; uint64_t nodes = (1u << 28) + (const uint64_t[]){0, 2, 4, 128, 4096, 65536}[i / 2], cnt = map ? nodes / 2 : nodes, len = 5 + nodes;
    char* p = (char*)mmap(NULL, (size_t)len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { label("huge-no-map"); return; }
    p[0] = (char)(map ? 0xdf : 0xdd); for (int k = 0; k < 4; k++) p[1 + k] = (char)(cnt >> (24 - 8 * k));
    note("%s32 of %llu elements, all present", map ? "map" : "array", (unsigned long long)cnt);
    vt.limit = 64u << 20; size_t base = vt.cur;
    mpack_tree_t t; mpack_tree_init_data(&t, p, (size_t)len); mpack_tree_parse(&t);
    mpack_error_t e = mpack_tree_error(&t);
    CHECK(e == mpack_error_memory, "error %s, expected mpack_error_memory", err_name(e));
    CHECK(vt.maxreq >= nodes * sizeof(mpack_node_data_t) || sizeof(void*) == 4, "only %zu bytes requested for %llu nodes", vt.maxreq, (unsigned long long)nodes);
    CHECK(mpack_tree_destroy(&t) == e && vt.cur == base, "destroy"); munmap(p, (size_t)len);
    nontrivial(hash_mix(len, map)); label("huge");
}
static size_t bound(size_t bytes) { return 160 * bytes + 2 * (size_t)MPACK_NODE_PAGE_SIZE + 1024; }
static Bytes claims() { // containers and blobs claiming far more than is there, nested
    Bytes b; size_t k = 1 + (size_t)draw(30);
    for (size_t i = 0; i < k; i++) {
        Kind kd = pick<Kind>({ARR, MAP, ARR, MAP, STR, BIN}); int f = (int)range(3, 4);
        uint64_t cl = pick<uint64_t>({0xffffffffu, 0x80000000u, 0x7fffffffu, 0x10000000u, 65535, 1000, draw(70), 0x55555555u, 0x40000000u}); if (f == 3) cl &= 0xffff;
        ref_header(b, kd, cl, 0, f); if (kd == STR || kd == BIN) { if (f == 3) b += gen_bytes(cl < 100 ? cl : 100); else break; }
    }
    size_t tail = draw(200); while (tail--) b += (char)draw(128);
    return b;
}
// Several messages on one tree: each is held to the limits set last, however
// they change from message to message.
static void series() {
    Bytes in; GenOpt o; o.ext = EXTS; o.max_nodes = 30; size_t k = 2 + (size_t)draw(4);
    for (size_t i = 0; i < k; i++) { if (chance(1, 8)) in += gen_pages(); else in += enc(gen_value(o)); } // (an extra element more is a message more)
    if (chance(1, 6)) in.resize(in.size() - 1 - (size_t)draw(in.size() / 2));
    Box box(in); const uint8_t* p = (const uint8_t*)box.p; size_t n = box.n, off = 0; int mode = (int)draw(3); Source src; Bytes dump = hex(p, n); note("%zu messages, mode %d: %s", k, mode, dump.c_str());
    size_t base = vt.cur; mpack_tree_t t; mpack_node_data_t* pool = NULL; uint64_t pc = (uint64_t)-1; size_t ms = SIZE_MAX; uint64_t mn = SIZE_MAX;
    if (mode == 0) mpack_tree_init_data(&t, box.p, n);
    else if (mode == 1) { pc = 1 + draw(300); pool = (mpack_node_data_t*)malloc(sizeof(mpack_node_data_t) * pc); mpack_tree_init_pool(&t, box.p, n, pool, (size_t)pc); }
    else { src = gen_source(box); if (n > 3000) src.sizes.clear(); ms = pick<size_t>({(size_t)1 << 20, n, n + 50}); mn = 1u << 30; mpack_tree_init_stream(&t, source_tree_read, &src, ms, (size_t)mn); }
    mpack_error_t w = mpack_ok; size_t parsed = 0, changes = 0;
    for (size_t i = 0; i < k + 3; i++) {
        Parse sc = ref_scan(p + off, n - off, EXTS); uint64_t nodes = sc.st == T_OK ? sc.nodes : 10; size_t used = sc.st == T_OK ? sc.used : n - off + 1;
        if (chance(2, 3)) { changes++; ms = pick<size_t>({used, used + 1, used > 1 ? used - 1 : 1, used + (size_t)draw(50), (size_t)1 << 20, (size_t)1 << 20, (size_t)1 << 20}); mn = pick<uint64_t>({nodes, nodes + 1, nodes > 1 ? nodes - 1 : 1, nodes + draw(30), 1u << 30, 1u << 30}); mpack_tree_set_limits(&t, ms, (size_t)mn); note("limits %zu bytes %llu nodes", ms, (unsigned long long)mn); }
        SVerdict v = stream_verdict(p + off, n - off, ms, mn, EXTS, pc); w = v.err != mpack_ok ? v.err : v.wait ? (mode == 2 ? mpack_error_io : mpack_error_invalid) : mpack_ok;
        bool tr = mode == 2 && chance(1, 3); if (tr) { bool ok = false; for (int q = 0; q < 20000 && !ok && mpack_tree_error(&t) == mpack_ok && src.pos <= n; q++) { ok = mpack_tree_try_parse(&t); if (!ok && src.pos == n && w != mpack_ok) { mpack_tree_parse(&t); break; } } } else mpack_tree_parse(&t);
        mpack_error_t e = mpack_tree_error(&t); bool either = sc.st != T_OK && w == mpack_error_too_big && e == mpack_error_invalid; if (mode == 2 && w == mpack_error_io && e == mpack_error_memory && ms > n) either = true;
        CHECK(e == w || either, "message %zu of %zu at %zu: error %s, expected %s under limits of %zu bytes and %llu nodes", i, k, off, err_name(e), err_name(w), ms, (unsigned long long)mn); w = e;
        if (w != mpack_ok) break;
        CHECK(mpack_tree_size(&t) == v.used, "size"); cmp_tree(mpack_tree_root(&t), p + off, v.used, NULL); off += v.used; parsed++;
    }
    CHECK(mpack_tree_destroy(&t) == w, "destroy"); CHECK(vt.cur == base, "%zu bytes still allocated after destroy", vt.cur - base); free(pool);
    label("series"); label(w == mpack_ok ? "series: ok" : w == mpack_error_too_big ? "series: too_big" : "series: other error"); if (parsed >= 1 && changes) nontrivial(hash_bytes(in.data(), n, 77 + mode));
}
void pbt::property_case() {
    int64_t ex = enumerated();
    if (ex < 0 && chance(1, 8)) { series(); return; }
    if (ex >= (int64_t)boundary_total()) { huge_claim((int)(ex - (int64_t)boundary_total())); return; }
    Bytes in; bool deep = false;
    if (ex >= 0) { Value v = boundary_value((uint64_t)ex); if (v.k == EXT && !EXTS) return; in = enc(v); label("boundary"); }
    else if (chance(1, 3000)) { in = gen_deep(100000 + (size_t)draw(200000), chance(3, 4)); deep = true; }
    else if (chance(1, 30)) in = gen_deep(1 + (size_t)draw(800), chance(3, 4));
    else if (chance(1, 12)) { in = gen_pages(); if (chance(1, 6)) in.resize(in.size() - 1 - (size_t)draw(in.size() < 40 ? in.size() - 1 : 39)); label("pages"); }
    else if (chance(1, 4)) in = claims();
    else { GenOpt o; o.ext = EXTS; o.overlong = coin(); o.max_nodes = chance(1, 4) ? 300 : 40; in = enc(gen_value(o)); if (chance(1, 8)) in += gen_bytes(5); if (chance(1, 10) && in.size()) in.resize((size_t)draw(in.size())); }
    Box box(in); const uint8_t* p = (const uint8_t*)box.p; size_t n = box.n;
    Parse sc = ref_scan(p, n, EXTS); uint64_t nodes = sc.st == T_OK ? sc.nodes : 10; size_t used = sc.st == T_OK ? sc.used : n;
    int mode = (int)draw(3);
    uint64_t near_n = pick<uint64_t>({nodes, nodes + 1, nodes > 1 ? nodes - 1 : 1, 1 + draw(2 * nodes), 1, 1u << 30, sizeof(size_t) > 4 ? ((uint64_t)1 << 32) + draw(2 * nodes) : 1u << 30});
    size_t near_s = pick<size_t>({used ? used : 1, used + 1, used > 1 ? used - 1 : 1, 1 + (size_t)draw(2 * used + 1), (size_t)1 << 20, 33, 66, 132, (size_t)(sizeof(size_t) > 4 ? ((uint64_t)1 << 32) + draw(2 * used + 1) : 1u << 20)});
    bool use_limit = chance(1, 2); size_t ms = chance(1, 2) ? near_s : (size_t)-1; // (a size limit on data in memory)
    note("mode %d, input %zu bytes %s (nodes %llu), node limit %llu size limit %zu", mode, n, hex(in.data(), n).c_str(), (unsigned long long)nodes, (unsigned long long)near_n, near_s);
    long a0 = vt.nalloc; (void)a0; vt.peak = vt.cur; size_t base = vt.cur; vt.maxreq = 0;
    mpack_tree_t t; SVerdict v; Source src; size_t membound = bound(n); 
    mpack_node_data_t* pool = NULL;
    if (mode == 0) { // in memory, allocated nodes
        mpack_tree_init_data(&t, box.p, n);
        if (use_limit) mpack_tree_set_limits(&t, ms, (size_t)near_n); else ms = (size_t)-1;
        v = stream_verdict(p, n, ms, use_limit ? near_n : (uint64_t)-1);
    } else if (mode == 1) { // node pool of exactly the given size
        uint64_t pc = near_n > 400000 ? nodes + 3 : near_n; uint64_t lim = (uint64_t)-1;
        pool = (mpack_node_data_t*)malloc(sizeof(mpack_node_data_t) * pc);
        mpack_tree_init_pool(&t, box.p, n, pool, (size_t)pc);
        if (use_limit && coin()) { lim = 1 + draw(2 * nodes); mpack_tree_set_limits(&t, ms, (size_t)lim); } else ms = (size_t)-1;
        v = stream_verdict(p, n, ms, lim, EXTS, pc);
    } else {
        src = gen_source(box);
        if (n > 3000) src.sizes.clear();
        mpack_tree_init_stream(&t, source_tree_read, &src, near_s, (size_t)near_n);
        v = stream_verdict(p, n, near_s, near_n);
        membound += 2 * near_s + 2 * MPACK_BUFFER_SIZE;
    }
    mpack_error_t w = v.err != mpack_ok ? v.err : v.wait ? (mode == 2 ? mpack_error_io : mpack_error_invalid) : mpack_ok;
    mpack_tree_parse(&t);
    mpack_error_t e = mpack_tree_error(&t);
    size_t used_mem = vt.peak - base;
    CHECK(used_mem <= membound, "parsing %zu bytes used %zu bytes of memory (bound %zu)", n, used_mem, membound);
    bool either = mode < 2 && ms != (size_t)-1 && sc.st != T_OK && w == mpack_error_too_big && e == mpack_error_invalid; // over the limit and cut short
    if (mode == 2 && near_s > ((size_t)1 << 24) && w == mpack_error_io && e == mpack_error_memory) either = true; // more than there is was claimed
    CHECK(e == w || either, "error %s, expected %s%s", err_name(e), err_name(w), mode < 2 && ms != (size_t)-1 ? " under a size limit on data in memory" : ""); if (mode < 2 && ms != (size_t)-1 && w == mpack_error_too_big) label("memory-size-limit"); w = e;
    if (mode == 2) CHECK(src.max_request <= near_s || src.max_request <= MPACK_BUFFER_SIZE, "read function asked for %zu bytes with a size limit of %zu", src.max_request, near_s);
    if (w == mpack_ok) { CHECK(mpack_tree_size(&t) == v.used, "size"); cmp_tree(mpack_tree_root(&t), p, v.used, NULL); }
    else CHECK(mpack_tree_size(&t) == 0, "size %zu after an error", mpack_tree_size(&t));
    size_t d = vt.cur; (void)d;
    CHECK(mpack_tree_destroy(&t) == w, "destroy");
    CHECK(vt.cur == base, "%zu bytes still allocated after destroy", vt.cur - base);
    free(pool);
    if (n >= 4) nontrivial(hash_bytes(in.data(), n, (uint64_t)mode * 1000 + near_n * 7 + near_s));
    label(mode == 0 ? "data" : mode == 1 ? "pool" : "stream"); label(w == mpack_ok ? "ok" : err_name(w)); if (deep) label("deep>=100000");
}
