// C05: buffered reading does not depend on how the source delivers its bytes.
// The same script of reads is run on one contiguous block and on a reader with
// a fill callback; the logs must be identical.
#include "drv.h"
using namespace pbt;
const char* pbt::harness_name = "c05";
uint64_t pbt_exhaustive_total() { return boundary_total() * 2; }
#ifdef VT_NO_EXT
static const bool EXTS = false;
#else
static const bool EXTS = true;
#endif
struct Script { std::vector<uint32_t> d; size_t pos = 0; uint32_t next(uint32_t n) { if (d.empty()) return 0; uint32_t v = d[pos % d.size()] + (uint32_t)(pos / d.size()); pos++; return v % n; } };
struct Log { std::string s; uint64_t h = 7; size_t ops = 0; bool toobig = false;
    void put(const char* op, const void* p, size_t n, uint64_t x = 0) { ops++; h = hash_mix(hash_bytes(p, n, h), x + n); if (s.size() < 6000) { char b[96]; snprintf(b, sizeof b, " %s:%zu:%llx", op, n, (unsigned long long)x); s += b; if (n) s += "=" + hex(p, n, 12); } } };

// One run. Decisions depend only on the script and on what was read so far.
static mpack_error_t run(mpack_reader_t* r, Script sc, Log& L, size_t maxbuf, bool stream, size_t inplace_limit) {
    struct Lv { uint64_t left; Kind k; }; std::vector<Lv> st; size_t elems = 0;
    auto ok = [&] { return mpack_reader_error(r) == mpack_ok; };
    while (ok()) {
        if (elems++ > 400000) break;
        if (st.empty() && sc.next(12) == 11 && elems > 1) break;
        uint32_t how = sc.next(10);
        if (how == 0 || how == 1) { // discard a whole element
            mpack_discard(r); if (!ok()) break; L.put("discard", "", 0);
            if (!st.empty()) st.back().left--;
        } else {
            if (how == 2) { mpack_tag_t q = mpack_peek_tag(r); if (!ok()) break; uint32_t len; Value v = tag_value(q, &len); L.put("peek", &v.k, 1, v.u ^ len ^ ((uint64_t)(uint8_t)v.et << 50)); }
            mpack_tag_t g = mpack_read_tag(r); if (!ok()) break;
            uint32_t len; Value v = tag_value(g, &len);
            L.put(kind_name(v.k), &v.k, 1, v.u ^ len ^ ((uint64_t)(uint8_t)v.et << 50));
            if (!st.empty()) st.back().left--;
            if (v.k == ARR || v.k == MAP) st.push_back({v.k == ARR ? (uint64_t)len : 2 * (uint64_t)len, v.k});
            else if (v.k == STR || v.k == BIN || v.k == EXT) {
                uint32_t m = sc.next(v.k == STR ? 13 : 8); size_t left = len; 
                switch (m) {
                case 0: { if (len > 1000000) { mpack_skip_bytes(r, left); break; } Box b(len); mpack_read_bytes(r, b.p, len); if (ok()) L.put("bytes", b.p, len); break; }
                case 1: case 2: { int g = 0; while (left && ok()) { size_t k = g++ > 20 ? (left > 65536 ? 65536 : left) : 1 + sc.next((uint32_t)(left < 50 ? left : 50)); Box b(k); mpack_read_bytes(r, b.p, k); if (ok()) L.put("chunk", b.p, k); left -= k; } break; }
                case 3: { mpack_skip_bytes(r, left); break; }
                case 4: { size_t k = sc.next(left < 0xfffffff0u ? (uint32_t)left + 1 : 0xfffffff0u); mpack_skip_bytes(r, k); if (!ok()) break; left -= k; k = left < 20 ? left : 20; Box b(k); mpack_read_bytes(r, b.p, k); if (!ok()) break; L.put("mid", b.p, k); mpack_skip_bytes(r, left - k); break; }
                case 5: { // in place, whole or in two parts
                    size_t k = sc.next(2) ? left : left / 2;
                    for (int i = 0; i < 2 && ok(); i++) { 
                        if (k > inplace_limit) { const char* q = mpack_read_bytes_inplace(r, k); if (stream) { CHECK(!ok() && mpack_reader_error(r) == mpack_error_too_big, "in-place read of %zu bytes with a buffer of %zu: %s", k, maxbuf, err_name(mpack_reader_error(r))); CHECK(q == NULL, "non-NULL in-place result"); } else if (ok()) mpack_reader_flag_error(r, mpack_error_too_big); L.toobig = true; return mpack_error_too_big; }
                        const char* q = mpack_read_bytes_inplace(r, k); if (ok()) L.put("inplace", k ? q : "", k); left -= k; k = left; } break; }
                case 6: { if (len > 1000000) { mpack_skip_bytes(r, left); break; } char* q = mpack_read_bytes_alloc(r, len); if (ok()) { L.put("alloc", q ? q : "", len); if (q) vt_free(q); } break; }
                case 7: { // should_read_bytes_inplace as the documentation shows
                    if (len > 1000000) { mpack_skip_bytes(r, left); break; }
                    bool in = mpack_should_read_bytes_inplace(r, len); CHECK(in || stream, "in-place reading not recommended for data in memory"); for (size_t big : {(size_t)0x10001, (size_t)0x1000001, (size_t)0xffffffff, (size_t)-1}) CHECK(mpack_should_read_bytes_inplace(r, big) == !stream, "in-place reading recommended for %zu bytes with a buffer of %zu, streaming: %d", big, maxbuf, stream); if (in) { CHECK(len <= maxbuf || !stream, "in-place reading recommended for %u bytes with a buffer of %zu", len, maxbuf); const char* q = mpack_read_bytes_inplace(r, len); if (ok()) L.put("si", len ? q : "", len); }
                    else { Box b(len); mpack_read_bytes(r, b.p, len); if (ok()) L.put("si", b.p, len); }
                    break; }
                case 8: { if (len > 1000000) { mpack_skip_bytes(r, left); break; } Box b(len); mpack_read_utf8(r, b.p, len); if (ok()) L.put("utf8", b.p, len); break; }
                case 9: { size_t cap = 1 + sc.next(len < 200 ? 2 * len + 3 : 3) + (sc.next(4) ? (size_t)(len < 0xfffffff0u ? len : 0xfffffff0u) : 0); if (cap < 1) cap = 1; if (cap > 2000000) cap = 100; Box b(cap); mpack_read_cstr(r, b.p, cap, len); CHECK(memchr(b.p, 0, cap) != NULL, "C string not terminated"); if (ok()) L.put("cstr", b.p, strlen(b.p)); else CHECK(b.p[0] == 0, "failed C string not empty"); break; }
                case 10: { size_t cap = (size_t)len + 1; if (cap > 2000000 || cap < 1) cap = 100; Box b(cap); mpack_read_utf8_cstr(r, b.p, cap, len); if (ok()) L.put("ucstr", b.p, strlen(b.p)); else CHECK(b.p[0] == 0, "failed C string not empty"); break; }
                default: {
                    if (len > inplace_limit) { const char* q = mpack_read_utf8_inplace(r, len); if (stream) CHECK(!ok() && mpack_reader_error(r) == mpack_error_too_big && !q, "in-place utf8 read of %u bytes with a buffer of %zu: %s", len, maxbuf, err_name(mpack_reader_error(r))); else if (ok()) mpack_reader_flag_error(r, mpack_error_too_big); L.toobig = true; return mpack_error_too_big; }
                    const char* q = mpack_read_utf8_inplace(r, len); if (ok()) L.put("u8in", len ? q : "", len); break; }
                }
                if (!ok()) break;
                mpack_done_type(r, mpack_tag_type(&g));
                L.put("done", "", 0);
            }
        }
        while (ok() && !st.empty() && st.back().left == 0) { if (st.back().k == ARR) mpack_done_array(r); else mpack_done_map(r); st.pop_back(); }
    }
    mpack_error_t e = mpack_reader_error(r);
    if (e == mpack_ok && !st.empty()) mpack_reader_flag_error(r, mpack_error_data);
    return e;
}
void pbt::property_case() {
    int64_t ex = enumerated();
    Bytes in;
    if (ex >= 0) { Value v = boundary_value((uint64_t)ex / 2); if (v.k == EXT && !EXTS) return; in = enc(v) + Bytes("\x93\x01\xa2hi\xc0", 6); label("boundary"); }
    else in = gen_wire(chance(1, 8) ? 3000 : 200, EXTS);
    Script sc; size_t k = 1 + (size_t)draw(24); for (size_t i = 0; i < k; i++) sc.d.push_back((uint32_t)draw(1000));
    Box box(in);
    Source src = gen_source(box); src.fail_mode = (int)draw(2);
    size_t bufsize = MPACK_READER_MINIMUM_BUFFER_SIZE + (size_t)(ex >= 0 ? (ex & 1 ? draw(5000) : draw(64)) : chance(1, 3) ? 0 : chance(1, 4) ? draw(2000) : draw(80));
    bool skipfn = coin(), onstack = ex < 0 && chance(1, 10); if (onstack) bufsize = MPACK_STACK_SIZE;
    size_t pre = !onstack && chance(1, 4) ? (size_t)draw((in.size() < bufsize ? in.size() : bufsize) + 1) : 0; // already in the buffer at init
    note("input %zu bytes %s; buffer %zu, preloaded %zu, skip function %d", in.size(), hex(in.data(), in.size()).c_str(), bufsize, pre, skipfn);
    Log A, B;
    mpack_reader_t r;
    mpack_reader_init_data(&r, box.p, box.n);
    mpack_error_t ea = run(&r, sc, A, (size_t)-1, false, bufsize);
    const char* d; size_t rema = 0; 
    if (ea == mpack_ok && mpack_reader_error(&r) == mpack_ok) rema = mpack_reader_remaining(&r, &d);
    bool fin = ea == mpack_ok && mpack_reader_error(&r) == mpack_ok;
    mpack_reader_destroy(&r);

    Box buf(bufsize);
    memcpy(buf.p, in.data(), pre); src.pos = pre;
    mpack_reader_init_stack(&r); // (a macro that declares a local buffer)
    if (onstack) label("stack buffer"); else { mpack_reader_destroy(&r); mpack_reader_init(&r, buf.p, buf.n, pre); }
    mpack_reader_set_context(&r, &src); mpack_reader_set_fill(&r, source_fill); if (skipfn) mpack_reader_set_skip(&r, source_skip);
    mpack_error_t eb = run(&r, sc, B, bufsize, true, bufsize);
    CHECK(A.toobig == B.toobig, "memory and stream disagree about an in-place read that is too big\nmemory:%s\nstream:%s", A.s.c_str(), B.s.c_str());
    CHECK(A.ops == B.ops && A.h == B.h, "stream (buffer %zu) read something else than memory (errors %s / %s)\nmemory:%s\nstream:%s", bufsize, err_name(ea), err_name(eb), A.s.c_str(), B.s.c_str());
    if (!A.toobig) {
        bool trunc_a = ea == mpack_error_invalid, same = ea == eb || (trunc_a && (eb == mpack_error_io));
        CHECK(same, "outcome: memory %s, stream %s after %zu operations", err_name(ea), err_name(eb), A.ops);
        if (ea == mpack_error_invalid && eb == mpack_error_io) CHECK(src.pos == src.n, "the stream failed with %zu bytes undelivered", src.n - src.pos);
    }
    if (fin) { const char* d2; size_t remb = mpack_reader_remaining(&r, &d2); CHECK(remb + (src.n - src.pos) == rema, "position: memory has %zu bytes left, stream %zu + %zu", rema, remb, src.n - src.pos); CHECK(remb == 0 || memcmp(d2, box.p + box.n - rema, remb) == 0, "remaining data differs"); }
    CHECK(src.after_error == 0, "fill function called %zu times after it had failed", src.after_error);
    mpack_reader_destroy(&r);
    if (src.fills + src.skips >= 2 && A.ops >= 2) nontrivial(hash_bytes(in.data(), in.size(), bufsize * 2 + skipfn));
    label(src.fills == 0 ? "fills=0" : src.fills < 4 ? "fills<4" : "fills>=4");
    if (src.skips) label("skip-callback-used");
    label(ea == mpack_ok ? "ok" : err_name(ea));
}
