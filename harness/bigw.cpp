// Writing data longer than 24, 31 and nearly 32 bits can count, and containers that claim that many elements (C01, C07).
#include "big.h"
using namespace pbt;
const char* pbt::harness_name = "bigw";
enum { BIN_, STR_, EXT_, CHUNKS, OBJECT, CSTR, UTF8, UTF8CSTR, TAGGED, LONG, LONG8, NAPI };
static const char* const NAME[] = {"write_bin", "write_str", "write_ext", "chunks", "write_object_bytes", "write_cstr", "write_utf8", "write_utf8_cstr", "write_tag", "write_cstr of 4 GB", "write_utf8_cstr of 4 GB"};
enum { FLUSH, FILE_, GROW, FIXED, SHORT, BUILD, NSINK };
static const char* const SINK[] = {"flush function", "file", "growable", "fixed", "fixed, one byte short", "growable with a build"};
static const int TOTAL = NAPI * NSINK * 3;
static const bool EXTS = MPACK_EXTENSIONS;
uint64_t pbt_exhaustive_total() { return TOTAL; }
static void blob(int i) {
    int api = i % NAPI, sink = i / NAPI % NSINK, si = i / NAPI / NSINK; if (si >= BIG_NSIZES) return; size_t n = BIG_SIZES[si]; bool big = si > 0;
    if ((api == EXT_) && !EXTS) return; bool too_long = api == LONG || api == LONG8; if (too_long) { if (si != 2 || sink > FILE_) return; }
    if (big && (sink == GROW || sink == BUILD)) return; if (si == 2 && (sink == FIXED || sink == SHORT)) return; // what really needs the memory, or the time
    if (big && (api == UTF8 || api == UTF8CSTR || api == CSTR) && (sink != FLUSH || si == 2)) return;
    if (api == OBJECT && si == 2) n += 500; // more than any one element could hold
    int8_t et = (int8_t)draw(256); int64_t cut = (int64_t)draw(70000) + 1; size_t bufsize = MPACK_WRITER_MINIMUM_BUFFER_SIZE + (size_t)draw(5000); bool v4 = api != EXT_ && api != OBJECT && chance(1, 4);
    Kind k = api == BIN_ || ((api == CHUNKS || api == TAGGED) && coin()) ? BIN : api == EXT_ || ((api == CHUNKS || api == TAGGED) && EXTS && !v4 && coin()) ? EXT : STR;
    BigStream s; s.pl = Payload(n); Bytes pre = gen_bytes((size_t)draw(40)); for (auto& c : pre) c = (char)(c & 0x7f); // (small integers before it)
    Bytes h = api == OBJECT ? Bytes() : big_head(k, n, et, v4 ? V4 : V5); size_t np = pre.size(); if (sink == BUILD) pre += "\x93"; s.head = pre + h; s.tail = "\x2a\xa2hi"; s.end = s.total(); if (too_long) s.head = pre;
    note("%s of %zu bytes to a %s, %zu bytes before it, kind %s v4 %d", NAME[api], n, SINK[sink], pre.size(), kind_name(k), v4);
    char* msg = big_message(Bytes(), s.pl, Bytes("\0", 1)); if (too_long) { big_src_reset(); msg = big_src(); n = (size_t)0xffffffffu + 1 + (api == LONG ? 70 : 0); msg[n] = 0; }
    mpack_writer_t w; char* gp = NULL; size_t gn = 0; Box fb(bufsize); size_t room = (size_t)s.total() - (sink == SHORT ? 1 : 0); FILE* f = NULL; size_t limit0 = vt.limit; vt.limit = (size_t)200 << 20;
    BigDst* dst = sink == FIXED || sink == SHORT ? new BigDst(room) : NULL;
    switch (sink) { case FLUSH: mpack_writer_init(&w, fb.p, fb.n); mpack_writer_set_context(&w, &s); mpack_writer_set_flush(&w, big_flush); break; case FILE_: f = big_file(&s, true, false); mpack_writer_init_stdfile(&w, f, false); break; case GROW: case BUILD: mpack_writer_init_growable(&w, &gp, &gn); break; default: mpack_writer_init(&w, dst->p, room); }
#if MPACK_COMPATIBILITY
    if (v4) mpack_writer_set_version(&w, mpack_version_v4);
#endif
    for (size_t j = 0; j < np; j++) mpack_write_int(&w, pre[j]);
#if MPACK_BUILDER
    if (sink == BUILD) mpack_build_array(&w);
#endif
    switch (api) {
    case BIN_: mpack_write_bin(&w, msg, (uint32_t)n); break; case STR_: mpack_write_str(&w, msg, (uint32_t)n); break;
#if MPACK_EXTENSIONS
    case EXT_: mpack_write_ext(&w, et, msg, (uint32_t)n); break;
#endif
    case CHUNKS: case TAGGED: { mpack_tag_t t = k == STR ? mpack_tag_str((uint32_t)n) : mpack_tag_bin((uint32_t)n);
#if MPACK_EXTENSIONS
        if (k == EXT) t = mpack_tag_ext(et, (uint32_t)n);
        if (k == EXT && api == CHUNKS) mpack_start_ext(&w, et, (uint32_t)n); else
#endif
        if (api == TAGGED) mpack_write_tag(&w, t); else if (k == STR) mpack_start_str(&w, (uint32_t)n); else mpack_start_bin(&w, (uint32_t)n);
        size_t a = api == TAGGED ? n : (size_t)cut, b = n - (size_t)draw(70000); if (b < a) b = a; if (api == TAGGED) b = n; mpack_write_bytes(&w, msg, a); mpack_write_bytes(&w, msg + a, b - a); mpack_write_bytes(&w, msg + b, n - b); mpack_finish_type(&w, t.type); break; }
    case OBJECT: mpack_write_object_bytes(&w, msg, n); break; case CSTR: case LONG: mpack_write_cstr(&w, msg); break; case UTF8: mpack_write_utf8(&w, msg, (uint32_t)n); break; default: mpack_write_utf8_cstr(&w, msg); }
    mpack_error_t e = mpack_writer_error(&w);
    if (too_long) { CHECK(e == mpack_error_invalid, "%s: %s", NAME[api], err_name(e)); CHECK(mpack_writer_destroy(&w) == e, "destroy"); CHECK(s.pos <= pre.size(), "%llu bytes reached the sink", (unsigned long long)s.pos); if (f) fclose(f); big_src_reset(); label("over 4 GB"); nontrivial((uint64_t)i); vt.limit = limit0; return; }
    mpack_write_u8(&w, 42); mpack_write_cstr(&w, "hi"); 
#if MPACK_BUILDER
    if (sink == BUILD) mpack_complete_array(&w);
#endif
    size_t used = sink == FIXED ? mpack_writer_buffer_used(&w) : 0; e = mpack_writer_destroy(&w); if (f) fclose(f); vt.limit = limit0;
    if (sink == SHORT) { CHECK(e == mpack_error_too_big, "a buffer one byte short gave %s", err_name(e)); dst->guard("writing"); }
    else { CHECK(e == mpack_ok, "%s of %zu bytes to a %s: %s", NAME[api], n, SINK[sink], err_name(e));
        if (gp) { s.take(gp, gn); if (gn < 100000000) for (size_t j = 0; j < gn; j++) CHECK((unsigned char)gp[j] == s.at(j), "byte %zu", j); vt_free(gp); }
        if (dst) { CHECK(used == room, "used %zu of %zu", used, room); size_t t = BIG_DST_TAIL < room ? BIG_DST_TAIL - 64 : room; s.pos = room - t; s.take(dst->p + room - t, t); dst->guard("writing"); }
        CHECK(s.pos == s.total(), "%llu of %llu bytes were written", (unsigned long long)s.pos, (unsigned long long)s.total()); }
    delete dst; big_src_reset(); label(si == 0 ? "over 24 bits" : si == 1 ? "over 31 bits" : "32 bits"); label(SINK[sink]); nontrivial((uint64_t)i);
}
// headers alone, with any count
static void header() {
    uint64_t n = chance(1, 2) ? draw(0x100000000ull) : (1ull << draw(33)) - draw(2); if (n > 0xffffffff) n = 0xffffffff; uint32_t c = (uint32_t)n; int8_t et = (int8_t)draw(256); bool v4 = chance(1, 4);
    Kind k = pick({STR, BIN, ARR, MAP, EXT}); if (k == EXT && (!EXTS || v4)) k = ARR; bool tag = coin(); Box b(64); mpack_writer_t w; mpack_writer_init(&w, b.p, b.n);
#if MPACK_COMPATIBILITY
    if (v4) mpack_writer_set_version(&w, mpack_version_v4);
#endif
    if (tag) { mpack_tag_t t = k == STR ? mpack_tag_str(c) : k == BIN ? mpack_tag_bin(c) : k == ARR ? mpack_tag_array(c) : mpack_tag_map(c);
#if MPACK_EXTENSIONS
        if (k == EXT) t = mpack_tag_ext(et, c);
#endif
        mpack_write_tag(&w, t); }
    else switch (k) { case STR: mpack_start_str(&w, c); break; case BIN: mpack_start_bin(&w, c); break; case ARR: mpack_start_array(&w, c); break; case MAP: mpack_start_map(&w, c); break; default:
#if MPACK_EXTENSIONS
        mpack_start_ext(&w, et, c);
#endif
        break; }
    Bytes want = big_head(k, n, et, v4 ? V4 : V5); size_t used = mpack_writer_buffer_used(&w); note("header of %s %llu v4 %d", kind_name(k), (unsigned long long)n, v4);
    CHECK(mpack_writer_error(&w) == mpack_ok && used == want.size() && !memcmp(b.p, want.data(), used), "the header of a %s of %llu: %s, expected %s", kind_name(k), (unsigned long long)n, hex(b.p, used).c_str(), hex(want.data(), want.size()).c_str());
    mpack_writer_flag_error(&w, mpack_error_data); mpack_writer_destroy(&w); label("header"); if (n > 255) nontrivial(hash_mix(n, (uint64_t)k * 4 + tag * 2 + v4));
}
void pbt::property_case() { int64_t ex = enumerated(); if (ex >= 0) blob((int)ex); else if (chance(1, 1000)) blob((int)draw((uint64_t)NAPI * NSINK)); else header(); }
