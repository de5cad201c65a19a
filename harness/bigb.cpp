// Builds with more elements than 24, 31 and 32 bits can count (C09).
#include "big.h"
using namespace pbt;
const char* pbt::harness_name = "bigb";
#if MPACK_BUILDER
static const bool WIDE = sizeof(size_t) == 8;
uint64_t pbt_exhaustive_total() { return WIDE ? 3 : 0; }
struct Out { Bytes head; uint64_t pos = 0, bad = 0; char tail[16]; };
static void out_flush(mpack_writer_t* w, const char* p, size_t n) {
    Out* o = (Out*)mpack_writer_context(w); if (o->head.size() < 64) o->head.append(p, n < 64 ? n : 64); o->pos += n;
    for (size_t i = n < 16 ? 0 : n - 16; i < n; i++) { memmove(o->tail, o->tail + 1, 15); o->tail[15] = p[i]; }
}
// `inner` elements in a build, in a build or an array or nothing, followed by a little
static void build(uint64_t elements, bool map, int outer, bool over) {
    Out o; static char buf[65536]; mpack_writer_t w; mpack_writer_init(&w, buf, sizeof buf); mpack_writer_set_context(&w, &o); mpack_writer_set_flush(&w, out_flush); size_t limit0 = vt.limit; vt.limit = (size_t)200 << 20;
    note("a build of %llu %s, outer %d", (unsigned long long)elements, map ? "pairs" : "elements", outer);
    Bytes want; mpack_write_u8(&w, 7); want += "\x07"; if (outer == 1) { mpack_start_array(&w, 2); want += "\x92"; } else if (outer) { mpack_build_array(&w); want += outer == 2 ? "\x92" : "\x93"; } if (outer == 3) { mpack_write_str(&w, "xy", 2); want += "\xa2xy"; }
    if (map) mpack_build_map(&w); else mpack_build_array(&w); want += big_head(map ? MAP : ARR, elements, 0, V5);
    uint64_t total = elements * (map ? 2 : 1), step = total - (over ? 1 : 0); for (uint64_t i = 0; i < step; i++) mpack_write_u8(&w, 5);
    if (mpack_writer_error(&w) == mpack_error_memory) { mpack_writer_destroy(&w); vt.limit = limit0; label("no memory for this"); return; }
    if (over) { CHECK(mpack_writer_error(&w) == mpack_ok, "%llu elements: %s", (unsigned long long)step, err_name(mpack_writer_error(&w))); mpack_write_u8(&w, 5); CHECK(mpack_writer_error(&w) == mpack_error_too_big, "2^32 elements in a build: %s", err_name(mpack_writer_error(&w))); }
    if (map) mpack_complete_map(&w); else mpack_complete_array(&w); mpack_write_u8(&w, 9); if (outer == 1) mpack_finish_array(&w); else if (outer) mpack_complete_array(&w);
    mpack_error_t e = mpack_writer_destroy(&w); vt.limit = limit0;
    if (over) { CHECK(e == mpack_error_too_big, "destroy gave %s", err_name(e)); CHECK(o.pos == 0, "%llu bytes were written", (unsigned long long)o.pos); label("too many"); }
    else { CHECK(e == mpack_ok, "%s", err_name(e)); CHECK(o.pos == want.size() + total + 1, "%llu bytes were written, not %llu", (unsigned long long)o.pos, (unsigned long long)(want.size() + total + 1)); CHECK(o.head.compare(0, want.size(), want) == 0, "the message starts with %s, not %s", hex(o.head.data(), want.size()).c_str(), hex(want.data(), want.size()).c_str());
        for (int i = 0; i < 15; i++) CHECK(o.tail[i] == 5 || total < 16, "the message ends with %s", hex(o.tail, 16).c_str()); CHECK(o.tail[15] == 9, "the message ends with %s", hex(o.tail, 16).c_str()); label(elements > 0x7fffffff ? "over 31 bits" : elements > 0xffffff ? "over 24 bits" : elements > 0xffff ? "over 16 bits" : "small"); }
    nontrivial(hash_mix(elements, (uint64_t)map * 8 + (uint64_t)outer));
}
void pbt::property_case() {
    int64_t ex = enumerated(); int outer = (int)draw(4);
    if (ex == 0) build(0xffffffffull, false, outer, false);
    else if (ex == 1) build(0x100000000ull, false, outer, true);
    else if (ex == 2) build(0x7ffffff0ull + draw(16), true, outer, false);
    else { uint64_t n = chance(1, 300) ? (1u << 24) - 2 + draw(4) : chance(1, 10) ? (1u << 16) - 2 + draw(4) : chance(1, 3) ? 14 + draw(4) : draw(5000); build(n, coin(), outer, false); }
}
#else
uint64_t pbt_exhaustive_total() { return 0; }
void pbt::property_case() { (void)enumerated(); }
#endif
