// C32: reading and writing stay buffered and take memory in proportion to the
// data: calls to sources and sinks, allocations and memory are bounded by the
// size of the data over the size of the buffer. (Bounds have slack of a factor
// of two and more over what the algorithms need.)
#include "drv.h"
#include "files.h"
#include <math.h>
using namespace pbt;
const char* pbt::harness_name = "c32";
static void containers(const Value& v, size_t& n) { if (v.k == ARR || v.k == MAP) n++; for (auto& c : v.c) containers(c, n); }
// a document of up to some 10 kB, of small elements, nested ones or blobs
static Value document() {
    GenOpt go; go.max_nodes = pick<size_t>({1, 4, 30}); go.max_len = pick<size_t>({8, 40, 300});
#if !MPACK_EXTENSIONS
    go.ext = false;
#endif
    Value v = mk(ARR); size_t want = chance(1, 4) ? (size_t)draw(400) : 500 + (size_t)draw(chance(1, 4) ? 60000 : 8000), sum = 0; size_t few = 1 + (size_t)draw(6); bool large = chance(1, 300); if (large) { want = 1000000 + (size_t)draw(3000000); label("over 1 MB"); } std::vector<Value> stock; for (size_t i = 0; i < few; i++) { stock.push_back(large ? mk_data(coin() ? STR : BIN, gen_text(1000 + (size_t)draw(30000), false)) : chance(1, 6) ? mk_data(coin() ? STR : BIN, gen_text((size_t)draw(chance(1, 4) ? 20000 : 700), false)) : gen_value(go)); }
    for (size_t i = 0; sum < want && i < 8000; i++) { v.c.push_back(stock[(i * 7) % few]); sum += enc(v.c.back()).size(); }
    return v;
}
static size_t fl_n, fl_bytes; static void count_flush(mpack_writer_t*, const char*, size_t n) { fl_n++; fl_bytes += n; }
static double lg(double x) { return log2(x < 1 ? 1 : x); }
static void writer_case(const Value& v, const Bytes& want) {
    const size_t PAGE = MPACK_BUILDER_PAGE_SIZE, BUF = MPACK_BUFFER_SIZE; const double B = (double)want.size();
    EmitOpt eo; eo.builders = coin(); eo.all_builders = eo.builders && coin(); size_t builds = 0; if (eo.builders) containers(v, builds);
    double pages = builds ? 4 + 2 * (B + 96.0 * (double)builds) / (double)(PAGE - 96) : 0; // (pages resolved one build after another need no more)
    int kind = (int)draw(4); size_t n = 64 + (size_t)draw(chance(1, 4) ? 8000 : 600); mpack_writer_t w; Box buf(kind == 1 ? n : kind == 0 ? want.size() : 1); char* data = nullptr; size_t size = 0; CookieOut k; FILE* f = nullptr; fl_n = fl_bytes = 0;
    if (kind == 3 && BUF < 256) kind = 2;
    long tracking = MPACK_WRITE_TRACKING ? 12 : 0; long a0 = vt.nalloc; size_t base = vt.cur; vt.peak = vt.cur;
    switch (kind) { case 0: mpack_writer_init(&w, buf.p, buf.n); break; case 1: mpack_writer_init(&w, buf.p, buf.n); mpack_writer_set_flush(&w, count_flush); break; case 2: mpack_writer_init_growable(&w, &data, &size); break; default: f = open_cookie_out(&k, 0); mpack_writer_init_stdfile(&w, f, true); }
    emit(&w, v, eo);
    size_t peak = vt.peak - base; mpack_error_t e = mpack_writer_destroy(&w); if (vt.peak - base > peak) peak = vt.peak - base; CHECK(e == mpack_ok, "writer: %s", err_name(e));
    long allocs = vt.nalloc - a0; note("writer kind %d: %zu bytes, %zu containers, builders %d, buffer %zu: %ld allocations, peak %zu, %zu flushes, %zu writes", kind, want.size(), builds, eo.builders, n, allocs, peak, fl_n, k.writes);
    double mem = pages * (double)PAGE + (MPACK_WRITE_TRACKING ? 4000 + 64.0 * 2 * 200 : 0), al = pages + (double)builds + (double)tracking; // (a build that is not inside another begins with a page of its own)
    if (kind == 2) { mem += 2.0 * (double)BUF + 4 * B; al += 6 + 2 * lg(B / (double)BUF); }
    if (kind == 3) { mem += 2.0 * (double)BUF; al += 2; }
    CHECK((double)allocs <= al, "writing %zu bytes with %zu builds took %ld allocations (kind %d, at most %.0f expected)", want.size(), builds, allocs, kind, al);
    CHECK((double)peak <= mem, "writing %zu bytes with %zu builds took %zu bytes of memory (kind %d, at most %.0f expected)", want.size(), builds, peak, kind, mem);
    if (kind == 1) { double m = 3 + 3 * B / (double)(n - 32); CHECK(fl_bytes == want.size(), "flushed %zu of %zu bytes", fl_bytes, want.size()); CHECK((double)fl_n <= m, "%zu bytes through a buffer of %zu were flushed in %zu pieces (at most %.0f expected)", want.size(), n, fl_n, m); }
    if (kind == 3) { double m = 3 + 3 * B / (double)(BUF - 32); CHECK(k.data == want, "file holds something else"); CHECK((double)k.writes <= m, "%zu bytes were written to the file in %zu pieces (at most %.0f expected)", want.size(), k.writes, m); }
    if (kind == 2) { size_t got = vt_size(data); CHECK(size == want.size() && (double)got <= 2 * B + 64, "a message of %zu bytes was returned in a block of %zu", size, got); vt_free(data); }
    nontrivial(hash_mix(hash_bytes(want.data(), want.size()), hash_mix((uint64_t)kind, eo.builders * 10000 + n))); label(eo.builders ? "build" : "write");
}
// Everything in one call per value: tags, and whole strings copied or in place.
static void read_all(mpack_reader_t* r, size_t n, bool inplace) {
    mpack_tag_t t = mpack_read_tag(r); uint32_t len; Value v = tag_value(t, &len); uint64_t kids = v.k == ARR ? len : v.k == MAP ? 2 * (uint64_t)len : 0;
    if (v.k == STR || v.k == BIN || v.k == EXT) { if (inplace && len <= n) mpack_read_bytes_inplace(r, len); else { Box b(len); mpack_read_bytes(r, b.p, len); } }
    for (uint64_t i = 0; i < kids && mpack_reader_error(r) == mpack_ok; i++) read_all(r, n, inplace);
    switch (v.k) { case STR: mpack_done_str(r); break; case BIN: mpack_done_bin(r); break; case ARR: mpack_done_array(r); break; case MAP: mpack_done_map(r); break;
#if MPACK_EXTENSIONS
    case EXT: mpack_done_ext(r); break;
#endif
    default: break; }
}
static size_t blobs(const Value& v) { size_t n = v.k == STR || v.k == BIN || v.k == EXT; for (auto& c : v.c) n += blobs(c); return n; }
static void reader_case(const Value& v, const Bytes& want) {
    Box b(want); size_t n = 64 + (size_t)draw(chance(1, 4) ? 8000 : 600); Box buf(n); Source s; s.p = b.p; s.n = b.n; mpack_reader_t r; CookieIn k; bool file = MPACK_BUFFER_SIZE >= 256 && chance(1, 4), skips = false; const double B = (double)want.size();
    long a0 = vt.nalloc; size_t base = vt.cur; vt.peak = vt.cur;
    if (file) { n = MPACK_BUFFER_SIZE; k.data = want; mpack_reader_init_stdfile(&r, open_cookie_in(&k, 0), true); } else { mpack_reader_init(&r, buf.p, n, 0); mpack_reader_set_context(&r, &s); mpack_reader_set_fill(&r, source_fill); if (coin()) { mpack_reader_set_skip(&r, source_skip); skips = true; } }
    int how = (int)draw(3);
    if (how == 0) { mpack_discard(&r); }
    else read_all(&r, n, how == 1);
    CHECK(mpack_reader_error(&r) == mpack_ok, "reader: %s", err_name(mpack_reader_error(&r)));
    size_t calls = file ? 0 : s.fills; mpack_reader_destroy(&r); double m = 4 + 4 * B / (double)(n - 32);
    note("reader: %zu bytes, buffer %zu, file %d, how %d: %zu fills, %ld allocations", want.size(), n, file, how, calls, vt.nalloc - a0);
    CHECK((double)calls <= m, "%zu bytes through a buffer of %zu took %zu reads (at most %.0f expected)", want.size(), n, calls, m);
    if (skips) { size_t most = how == 0 ? blobs(v) : 0; CHECK(s.skips <= most, "discarding %zu strings and blobs took %zu skips", most, s.skips); if (s.skips) label("skips"); }
    long al = (file ? 2 : 0) + (MPACK_READ_TRACKING ? 12 : 0); CHECK(vt.nalloc - a0 <= al, "reading without allocating functions made %ld allocations", vt.nalloc - a0); (void)base;
    nontrivial(hash_mix(hash_bytes(want.data(), want.size()), hash_mix((uint64_t)how * 2 + file, n))); label("read");
}
static void tree_case(const Value& v, const Bytes& want) {
    Box b(want); Source s; s.p = b.p; s.n = b.n; mpack_tree_t t; const double BUF = MPACK_BUFFER_SIZE, B = (double)want.size(); double nodes = (double)node_count(v), perpage = (double)(MPACK_NODE_PAGE_SIZE / sizeof(mpack_node_data_t)); size_t conts = 0; containers(v, conts);
    size_t max = want.size() + (size_t)draw(1u << 20); long a0 = vt.nalloc; mpack_tree_init_stream(&t, source_tree_read, &s, max, (size_t)1 << 30); mpack_tree_parse(&t); CHECK(mpack_tree_error(&t) == mpack_ok, "tree: %s", err_name(mpack_tree_error(&t)));
    double m = 4 + 2 * lg(B / BUF + 2); long al = vt.nalloc - a0; double am = 8 + 2 * lg(B / BUF + 2) + 8 * (nodes / (perpage > 1 ? perpage : 1)) + 2 * lg((double)depth(v)) + (perpage < 32 ? (double)conts : 0);
    note("tree: %zu bytes, %.0f nodes: %zu reads, %ld allocations", want.size(), nodes, s.fills, al);
    CHECK((double)s.fills <= m, "a message of %zu bytes took %zu reads (at most %.0f expected)", want.size(), s.fills, m); CHECK((double)al <= am, "a message of %zu bytes and %.0f nodes took %ld allocations (at most %.0f expected)", want.size(), nodes, al, am);
    mpack_tree_destroy(&t); nontrivial(hash_mix(hash_bytes(want.data(), want.size()), 77)); label("tree");
}
// Many messages in one stream: the buffer is used again, the nodes are released.
static void stream_case() {
    std::vector<Value> stock; GenOpt go; go.max_nodes = pick<size_t>({1, 6, 40}); go.max_len = pick<size_t>({8, 40, 300});
#if !MPACK_EXTENSIONS
    go.ext = false;
#endif
    for (size_t k = 1 + (size_t)draw(4); k; k--) stock.push_back(gen_value(go));
    size_t msgs = 20 + (size_t)draw(300); Bytes all; double BUF = MPACK_BUFFER_SIZE, extra = 0, big = 0, mostnodes = 0; for (size_t i = 0; i < msgs; i++) { const Value& v = stock[(i * 5) % stock.size()]; Bytes e = enc(v); all += e; if ((double)e.size() * 4 > BUF) extra += 2; if ((double)e.size() > big) big = (double)e.size(); if ((double)node_count(v) > mostnodes) mostnodes = (double)node_count(v); }
    Box b(all); Source s; s.p = b.p; s.n = b.n; mpack_tree_t t; size_t base = vt.cur; vt.peak = vt.cur; mpack_tree_init_stream(&t, source_tree_read, &s, 1u << 20, 1u << 20);
    for (size_t i = 0; i < msgs; i++) { mpack_tree_parse(&t); CHECK(mpack_tree_error(&t) == mpack_ok, "message %zu: %s", i, err_name(mpack_tree_error(&t))); }
    double B = (double)all.size(), m = 4 + 2 * lg(big / BUF + 2) + 3 * B / BUF + extra, mem = 8 * BUF + 8 * big + (mostnodes * 8 + 64) * (double)sizeof(mpack_node_data_t) + 4 * MPACK_NODE_PAGE_SIZE + 4096; size_t peak = vt.peak - base;
    note("%zu messages of up to %.0f bytes, %.0f in all: %zu reads, peak %zu", msgs, big, B, s.fills, peak);
    CHECK((double)s.fills <= m, "%zu messages, %zu bytes, took %zu reads (at most %.0f expected)", msgs, all.size(), s.fills, m);
    CHECK((double)peak <= mem, "%zu messages of up to %.0f bytes and %.0f nodes took %zu bytes of memory (at most %.0f expected)", msgs, big, mostnodes, peak, mem);
    mpack_tree_destroy(&t); nontrivial(hash_mix(hash_bytes(all.data(), all.size()), 78)); label("stream");
}
void pbt::property_case() {
    (void)enumerated(); if (chance(1, 8)) { stream_case(); return; } Value v = document(); Bytes want = enc(v);
    switch (draw(4)) { case 0: reader_case(v, want); break; case 1: if (coin()) { tree_case(v, want); break; } // fallthrough
        default: writer_case(v, want); }
}
