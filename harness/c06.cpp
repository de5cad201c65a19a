// C06: streamed tree parsing does not depend on how the stream is split.
#include "treecmp.h"
using namespace pbt;
const char* pbt::harness_name = "c06";
uint64_t pbt_exhaustive_total() { return boundary_total(); }
struct Gate { const char* p; size_t delivered, pos, pieces_max; int end_mode; size_t calls; size_t total; bool ended; };
static size_t gate_read(mpack_tree_t* t, char* buf, size_t count) {
    Gate* g = (Gate*)mpack_tree_context(t); g->calls++;
    if (count == 0) fail("read function called for zero bytes");
    size_t k = g->delivered - g->pos; 
    if (k == 0) { if (g->pos == g->total && g->end_mode == 1) { g->ended = true; return (size_t)-1; } if (g->pos == g->total && g->end_mode == 2) { g->ended = true; mpack_tree_flag_error(t, mpack_error_eof); } return 0; }
    if (k > count) k = count;
    if (g->pieces_max && k > g->pieces_max) k = 1 + (size_t)draw(g->pieces_max);
    memcpy(buf, g->p + g->pos, k); g->pos += k; return k;
}
void pbt::property_case() {
    int64_t ex = enumerated();
    Bytes in; std::vector<size_t> sizes;
    if (ex >= 0) { Value v = boundary_value((uint64_t)ex); if (v.k == EXT && !EXTS) return; in = enc(v) + Bytes("\x93\x01\xa2hi\xc0", 6) + enc(v); label("boundary"); }
    else {
        size_t m = 1 + (size_t)draw(5);
        GenOpt o; o.ext = EXTS; o.overlong = coin(); o.max_len = chance(1, 8) ? 3000 : 120; o.max_nodes = chance(1, 6) ? 150 : 25;
        for (size_t i = 0; i < m; i++) in += enc(gen_value(o));
        if (chance(1, 40)) in = gen_pages() + in;
        if (chance(1, 3)) in += gen_wire(60, EXTS);
        if (chance(1, 40)) in += gen_deep(200 + (size_t)draw(2000), chance(3, 4));
    }
    Box box(in); const uint8_t* p = (const uint8_t*)box.p; size_t n = box.n;
    Parse first = ref_scan(p, n, EXTS);
    size_t lim = (size_t)1 << 22; uint64_t nlim = (uint64_t)1 << 22;
    if (first.st == T_OK && chance(1, 2)) { size_t f = first.used; lim = pick<size_t>({f, f + 1, f > 1 ? f - 1 : 1, 1 + (size_t)draw(2 * f), lim}); nlim = pick<uint64_t>({first.nodes, first.nodes + 1, first.nodes > 1 ? first.nodes - 1 : 1, 1 + draw(2 * first.nodes), nlim}); }
    bool blocking = chance(1, 3), mixed = chance(1, 4), change = chance(1, 4);
    Gate g{box.p, 0, 0, chance(1, 2) ? 1 + (size_t)draw(60) : 0, (int)draw(3), 0, n, false};
    if (blocking) g.delivered = n;
    size_t style = (size_t)draw(4);
    note("input %zu bytes %s; limits %zu bytes %llu nodes; %s", n, hex(in.data(), n).c_str(), lim, (unsigned long long)nlim, blocking ? "blocking" : "non-blocking");
    mpack_tree_t t; mpack_tree_init_stream(&t, gate_read, &g, lim, (size_t)nlim);
    size_t start = 0, good = 0, waits = 0; bool err = false, waiting = false;
    for (size_t step = 0; step < 100000 && good < 60 && !err; step++) {
        if (!blocking && g.delivered < n) {
            size_t k = style == 0 ? 1 : style == 1 ? 1 + (size_t)draw(6) : style == 2 ? (size_t)draw(50) : (size_t)draw(n + 1);
            if (waits > 300) k = n;
            if (k > n - g.delivered) k = n - g.delivered;
            g.delivered += k;
        }
        // limits can be changed between messages, and raised while one is on its way
        if (change && chance(1, waiting ? 6 : 2)) { Parse nx = ref_scan(p + start, n - start, EXTS); size_t f = nx.st == T_OK ? nx.used : n - start + 1; uint64_t k = nx.st == T_OK ? nx.nodes : 5;
            size_t l2 = pick<size_t>({f, f + 1, f > 1 ? f - 1 : 1, 1 + (size_t)draw(2 * f), (size_t)1 << 22}); uint64_t n2 = pick<uint64_t>({k, k + 1, k > 1 ? k - 1 : 1, 1 + draw(2 * k), (uint64_t)1 << 22, (uint64_t)1 << 22}); if (waiting && l2 < lim) l2 = lim; if (waiting && n2 < nlim) n2 = nlim;
            lim = l2; nlim = n2; mpack_tree_set_limits(&t, lim, (size_t)nlim); label(waiting ? "limits raised meanwhile" : "limits changed"); }
        SVerdict v = stream_verdict(p + start, g.delivered - start, lim, nlim);
        bool at_end = g.delivered == n && v.wait;
        mpack_error_t enderr = g.end_mode == 1 ? mpack_error_io : g.end_mode == 2 ? mpack_error_eof : mpack_ok;
        bool block = blocking || (mixed && !v.wait && coin());
        bool ok;
        if (block) { mpack_tree_parse(&t); ok = mpack_tree_error(&t) == mpack_ok; if (ok) CHECK(!v.wait, "blocking parse succeeded on an incomplete message"); }
        else ok = mpack_tree_try_parse(&t);
        mpack_error_t e = mpack_tree_error(&t), w = v.err;
        if (v.wait && at_end && enderr != mpack_ok) w = enderr;
        else if (v.wait && block) w = mpack_error_io;
        CHECK(e == w, "message %zu at %zu with %zu of %zu bytes delivered (%s): error %s, expected %s", good, start, g.delivered, n, block ? "parse" : "try_parse", err_name(e), err_name(w));
        CHECK(ok == (w == mpack_ok && !v.wait), "message %zu at %zu with %zu of %zu bytes delivered: %s returned %d", good, start, g.delivered, n, block ? "parse" : "try_parse", ok);
        if (w != mpack_ok) { err = true; label(err_name(w)); CHECK(mpack_node_type(mpack_tree_root(&t)) == mpack_type_nil && mpack_tree_size(&t) == 0, "a failed parse exposes a message"); break; }
        if (v.wait) { waits++; waiting = true; if (chance(1, 400)) { // there is no message to look at
                vt.allow_break = true; mpack_node_t r = mpack_tree_root(&t); CHECK(mpack_tree_error(&t) == mpack_error_bug && mpack_node_is_nil(r), "the root of a message that has not arrived: %s", err_name(mpack_tree_error(&t))); label("root too early"); err = true; break; }
            CHECK(mpack_tree_size(&t) == 0, "size of an incomplete message is %zu", mpack_tree_size(&t)); if (at_end) break; continue; }
        CHECK(mpack_tree_size(&t) == v.used, "size %zu, message has %zu", mpack_tree_size(&t), v.used);
        cmp_tree(mpack_tree_root(&t), p + start, v.used, NULL);
        start += v.used; good++; waiting = false;
    }
    mpack_error_t fin = mpack_tree_error(&t);
    CHECK(mpack_tree_destroy(&t) == fin, "destroy changed the error");
    if (good && (waits || g.pieces_max)) nontrivial(hash_bytes(in.data(), n, g.pieces_max * 4 + style));
    label(good == 0 ? "messages=0" : good == 1 ? "messages=1" : "messages>1"); if (waits > 2) label("waits>2");
}
