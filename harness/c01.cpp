// C01: the writer emits exactly the reference (shortest) encoding.
#include "drv.h"
using namespace pbt;
const char* pbt::harness_name = "c01";

struct Sink { Bytes out; };
static void sink_flush(mpack_writer_t* w, const char* p, size_t n) { ((Sink*)mpack_writer_context(w))->out.append(p, n); }

// enumerated: every int16/uint16 value through every function that takes it, every header count 0..66000
static const int INT_CHUNKS = 256, HDR_CHUNK = 1100, HDR_CHUNKS = 61;
uint64_t pbt_exhaustive_total() { return INT_CHUNKS + 5 * HDR_CHUNKS * 2; }

struct Out { char* data; size_t size; mpack_writer_t w; mpack_writer_t* operator&() { return &w; } };
template <class F> static Bytes capture(F f, int version = V5, mpack_error_t want = mpack_ok) {
    char buf[64]; mpack_writer_t w;
    mpack_writer_init(&w, buf, sizeof buf);
    if (version == V4) mpack_writer_set_version(&w, mpack_version_v4);
    f(&w);
    CHECK(mpack_writer_error(&w) == want, "writer error %s, expected %s", err_name(mpack_writer_error(&w)), err_name(want));
    Bytes b(buf, mpack_writer_buffer_used(&w));
    if (want == mpack_ok) mpack_writer_flag_error(&w, mpack_error_data); // headers only: cancel
    mpack_writer_destroy(&w);
    return b;
}
template <class F> static void want_bytes(F f, const Bytes& e, const char* what, long long x, int version = V5) {
    Bytes g = capture(f, version);
    CHECK(g == e, "%s(%lld): wrote %s, expected %s", what, x, hex(g.data(), g.size()).c_str(), hex(e.data(), e.size()).c_str());
}
extern "C" {
#define G(name, type) void cg_##name(mpack_writer_t* w, type v);
G(i8, int8_t) G(i16, int16_t) G(i32, int32_t) G(i64, int64_t) G(u8, uint8_t) G(u16, uint16_t) G(u32, uint32_t) G(u64, uint64_t)
}
static void enum_ints(int chunk) {
    for (int k = 0; k < 256; k++) {
        uint16_t u = (uint16_t)(chunk * 256 + k); int16_t s = (int16_t)u;
        Value vu = mk(UINT, u), vs = mk(s < 0 ? INT : UINT, (uint64_t)(int64_t)s);
        Bytes eu = enc(vu), es = enc(vs);
        want_bytes([&](mpack_writer_t* w) { mpack_write_u16(w, u); }, eu, "write_u16", u);
        want_bytes([&](mpack_writer_t* w) { mpack_write_u32(w, u); }, eu, "write_u32", u);
        want_bytes([&](mpack_writer_t* w) { mpack_write_u64(w, u); }, eu, "write_u64", u);
        want_bytes([&](mpack_writer_t* w) { mpack_write_uint(w, u); }, eu, "write_uint", u);
        want_bytes([&](mpack_writer_t* w) { mpack_write_tag(w, mpack_tag_make_uint(u)); }, eu, "write_tag uint", u);
        want_bytes([&](mpack_writer_t* w) { mpack_write_i16(w, s); }, es, "write_i16", s);
        want_bytes([&](mpack_writer_t* w) { mpack_write_i32(w, s); }, es, "write_i32", s);
        want_bytes([&](mpack_writer_t* w) { mpack_write_i64(w, s); }, es, "write_i64", s);
        want_bytes([&](mpack_writer_t* w) { mpack_write_int(w, s); }, es, "write_int", s);
        want_bytes([&](mpack_writer_t* w) { mpack_write_tag(w, mpack_tag_make_int(s)); }, es, "write_tag int", s);
        want_bytes([&](mpack_writer_t* w) { cg_i16(w, s); }, es, "generic i16", s);
        want_bytes([&](mpack_writer_t* w) { cg_u16(w, u); }, eu, "generic u16", u);
        if (u < 256) {
            want_bytes([&](mpack_writer_t* w) { mpack_write_u8(w, (uint8_t)u); }, eu, "write_u8", u);
            int8_t b = (int8_t)u; Bytes eb = enc(mk(b < 0 ? INT : UINT, (uint64_t)(int64_t)b));
            want_bytes([&](mpack_writer_t* w) { mpack_write_i8(w, b); }, eb, "write_i8", b);
        }
        // the same 16 bits placed higher up, sign boundaries of 32 and 64 bits
        uint64_t hi = (uint64_t)u << 16, vh = (uint64_t)u << 48;
        want_bytes([&](mpack_writer_t* w) { mpack_write_u32(w, (uint32_t)hi); }, enc(mk(UINT, hi)), "write_u32 hi", (long long)hi);
        int32_t h32 = (int32_t)(uint32_t)hi;
        want_bytes([&](mpack_writer_t* w) { mpack_write_i32(w, h32); }, enc(mk(INT, (uint64_t)(int64_t)h32)), "write_i32 hi", h32);
        want_bytes([&](mpack_writer_t* w) { mpack_write_u64(w, vh); }, enc(mk(UINT, vh)), "write_u64 hi", (long long)vh);
        want_bytes([&](mpack_writer_t* w) { mpack_write_i64(w, (int64_t)vh); }, enc(mk(INT, vh)), "write_i64 hi", (long long)vh);
    }
    nontrivial(chunk + 1);
    note("all 16-bit values 0x%02x00..0x%02xff through all integer writers", chunk, chunk);
}
static void enum_headers(int kind, int chunk, int version) {
    for (uint32_t n = (uint32_t)chunk * HDR_CHUNK; n < (uint32_t)(chunk + 1) * HDR_CHUNK; n++) {
        Bytes e; Value v;
        static const Kind kinds[] = {STR, BIN, EXT, ARR, MAP};
        Kind k = kinds[kind];
        if (k == EXT && version == V4) return;
        int form;
        if (k == STR) form = n < 32 ? 1 : (n < 256 && version == V5) ? 2 : n < 65536 ? 3 : 4;
        else if (k == BIN) form = version == V4 && n < 32 ? 1 : (n < 256 && version == V5) ? 2 : n < 65536 ? 3 : 4;
        else if (k == EXT) form = n == 1 || n == 2 || n == 4 || n == 8 || n == 16 ? 1 : n < 256 ? 2 : n < 65536 ? 3 : 4;
        else form = n < 16 ? 1 : n < 65536 ? 3 : 4;
        int8_t et = (int8_t)(n * 7);
        ref_header(e, k, n, et, form, version);
        want_bytes([&](mpack_writer_t* w) {
            switch (k) { case STR: mpack_start_str(w, n); break; case BIN: mpack_start_bin(w, n); break; case EXT: mpack_start_ext(w, et, n); break; case ARR: mpack_start_array(w, n); break; default: mpack_start_map(w, n); } },
            e, "start header", n, version);
        if (k != EXT) want_bytes([&](mpack_writer_t* w) { mpack_write_tag(w, k == STR ? mpack_tag_make_str(n) : k == BIN ? mpack_tag_make_bin(n) : k == ARR ? mpack_tag_make_array(n) : mpack_tag_make_map(n)); }, e, "tag header", n, version);
        else want_bytes([&](mpack_writer_t* w) { mpack_write_tag(w, mpack_tag_make_ext(et, n)); }, e, "tag ext header", n, version);
    }
    nontrivial(1000 + kind * 100 + chunk + 7777 * version);
    note("headers of kind %d, counts %d..%d, version %d", kind, chunk * HDR_CHUNK, (chunk + 1) * HDR_CHUNK - 1, version);
}
static void invalid_call() {
    int ver = (int)draw(2);
    vt.allow_break = true; // documented misuse is reported through mpack_break in debug builds
    switch (draw(4)) {
    case 0: { // non UTF-8
        Bytes s = gen_textish(gen_len(100, false));
        bool ok = ref_utf8((const uint8_t*)s.data(), s.size());
        bool nul = memchr(s.data(), 0, s.size()) != NULL;
        int how = (int)draw(3);
        if (how && nul) how = 0;
        char buf[400]; mpack_writer_t w; mpack_writer_init(&w, buf, sizeof buf);
        if (ver == V4) mpack_writer_set_version(&w, mpack_version_v4);
        if (how == 0) { Box b(s); mpack_write_utf8(&w, b.p, (uint32_t)s.size()); } else if (how == 1) mpack_write_utf8_cstr(&w, s.c_str()); else mpack_write_utf8_cstr_or_nil(&w, s.c_str());
        Bytes e; if (ok) { Value v = mk_data(STR, s); ref_encode(v, e, ver); }
        Bytes g(buf, mpack_writer_buffer_used(&w));
        CHECK((mpack_writer_error(&w) == mpack_ok) == ok, "utf8 writer: error %s for %s", err_name(mpack_writer_error(&w)), hex(s.data(), s.size()).c_str());
        if (ok) CHECK(g == e, "utf8 writer wrote %s", hex(g.data(), g.size()).c_str());
        else { CHECK(mpack_writer_error(&w) == mpack_error_invalid, "utf8 writer flagged %s", err_name(mpack_writer_error(&w))); label("invalid-utf8"); }
        CHECK(vt.breaks == 0, "break on utf8 write");
        mpack_writer_destroy(&w);
        if (!ok) { // the same call on a flushed writer delivers nothing
            Sink k; Box b(MPACK_WRITER_MINIMUM_BUFFER_SIZE + (size_t)draw(40));
            mpack_writer_init(&w, b.p, b.n); mpack_writer_set_context(&w, &k); mpack_writer_set_flush(&w, sink_flush);
            if (how == 0) mpack_write_utf8(&w, s.data(), (uint32_t)s.size()); else if (how == 1) mpack_write_utf8_cstr(&w, s.c_str()); else mpack_write_utf8_cstr_or_nil(&w, s.c_str());
            CHECK(mpack_writer_destroy(&w) == mpack_error_invalid && k.out.empty(), "invalid UTF-8 was emitted");
        }
        nontrivial(hash_bytes(s.data(), s.size())); note("utf8 write how=%d valid=%d %s", how, ok, hex(s.data(), s.size()).c_str());
        return; }
    case 1: { // timestamp nanoseconds
        int64_t sec = gen_i64(); uint32_t ns = draw(2) ? (uint32_t)draw(0x100000000ull) : (uint32_t)(999999995u + draw(12));
        Sink k; char buf[64]; mpack_writer_t w; mpack_writer_init(&w, buf, sizeof buf); mpack_writer_set_context(&w, &k); mpack_writer_set_flush(&w, sink_flush);
        if (coin()) mpack_write_timestamp(&w, sec, ns); else { mpack_timestamp_t t; t.seconds = sec; t.nanoseconds = ns; mpack_write_timestamp_struct(&w, t); }
        bool ok = ns <= 999999999u;
        CHECK((mpack_writer_error(&w) == mpack_ok) == ok, "timestamp ns=%u error %s", ns, err_name(mpack_writer_error(&w)));
        if (ok) { Bytes g(buf, mpack_writer_buffer_used(&w)), e = enc(mk_data(EXT, ts_payload(sec, ns), -1)); CHECK(g == e, "timestamp(%lld,%u) wrote %s expected %s", (long long)sec, ns, hex(g.data(), g.size()).c_str(), hex(e.data(), e.size()).c_str()); CHECK(vt.breaks == 0, "break on valid timestamp"); }
        else { CHECK(mpack_writer_error(&w) == mpack_error_bug, "timestamp ns=%u flagged %s", ns, err_name(mpack_writer_error(&w))); label("invalid-ns"); }
        mpack_writer_destroy(&w);
        CHECK(ok || k.out.empty(), "invalid timestamp emitted");
        nontrivial(hash_mix((uint64_t)sec, ns)); note("timestamp %lld %u", (long long)sec, ns);
        return; }
    default: { // ext in v4 mode
        Sink k; char buf[100]; mpack_writer_t w; mpack_writer_init(&w, buf, sizeof buf); mpack_writer_set_context(&w, &k); mpack_writer_set_flush(&w, sink_flush); mpack_writer_set_version(&w, mpack_version_v4);
        Bytes s = gen_bytes(gen_len(60, false)); int8_t t = (int8_t)draw(256); int how = (int)draw(4);
        if (how == 0) mpack_write_ext(&w, t, s.data(), (uint32_t)s.size()); else if (how == 1) mpack_start_ext(&w, t, (uint32_t)s.size()); else if (how == 2) mpack_write_tag(&w, mpack_tag_make_ext(t, (uint32_t)s.size())); else mpack_write_timestamp(&w, gen_i64(), (uint32_t)draw(1000000000));
        CHECK(mpack_writer_error(&w) == mpack_error_bug, "ext in v4 mode gave %s", err_name(mpack_writer_error(&w)));
        CHECK(mpack_writer_destroy(&w) == mpack_error_bug, "destroy lost the error");
        CHECK(k.out.empty(), "ext emitted in v4 mode"); label("ext-in-v4");
        nontrivial(hash_mix(how, hash_bytes(s.data(), s.size()) + t)); note("ext in v4 how=%d len=%zu", how, s.size());
    } }
}
void pbt::property_case() {
    int64_t ex = enumerated();
    if (ex >= 0) { if (ex < INT_CHUNKS) enum_ints((int)ex); else { ex -= INT_CHUNKS; enum_headers((int)(ex % 5), (int)(ex / 5 % HDR_CHUNKS), (int)(ex / 5 / HDR_CHUNKS)); } return; }
    if (chance(1, 5)) { invalid_call(); return; }
    int ver = chance(1, 4) ? V4 : V5;
    GenOpt go; go.ext = ver == V5; go.big = chance(1, 20); go.text_keys = coin();
    EmitOpt eo; eo.version = ver; eo.builders = chance(1, 4);
    size_t nmsg = 1 + (size_t)draw(3);
    std::vector<Value> vs; Bytes expect;
    for (size_t i = 0; i < nmsg; i++) { vs.push_back(gen_value(go)); ref_encode(vs.back(), expect, ver); }
    int sink = (int)draw(3);
    mpack_writer_t w; Bytes got; mpack_error_t err;
    note("version %s sink %d", ver ? "v4" : "v5", sink);
    for (auto& v : vs) note("value %s", show(v).c_str());
    if (sink == 0) {
        char* data = (char*)1; size_t size = 777;
        mpack_writer_init_growable(&w, &data, &size);
        if (ver == V4) mpack_writer_set_version(&w, mpack_version_v4);
        for (auto& v : vs) emit(&w, v, eo);
        err = mpack_writer_destroy(&w);
        if (err == mpack_ok) { got.assign(data ? data : "", size); vt_free(data); }
    } else if (sink == 1) {
        Box b(expect.size() + (size_t)draw(20));
        mpack_writer_init(&w, b.p, b.n);
        if (ver == V4) mpack_writer_set_version(&w, mpack_version_v4);
        if (expect.size() <= b.n) { for (auto& v : vs) emit(&w, v, eo); }
        got.assign(b.p, mpack_writer_buffer_used(&w));
        err = mpack_writer_destroy(&w);
    } else {
        Sink s; Box b(MPACK_WRITER_MINIMUM_BUFFER_SIZE + (size_t)draw(100));
        mpack_writer_init(&w, b.p, b.n); mpack_writer_set_context(&w, &s); mpack_writer_set_flush(&w, sink_flush);
        if (ver == V4) mpack_writer_set_version(&w, mpack_version_v4);
        for (auto& v : vs) { emit(&w, v, eo); if (chance(1, 4)) mpack_writer_flush_message(&w); }
        err = mpack_writer_destroy(&w);
        got = s.out;
    }
    CHECK(err == mpack_ok, "valid writes ended in error %s", err_name(err));
    if (got != expect) {
        size_t d = 0; while (d < got.size() && d < expect.size() && got[d] == expect[d]) d++;
        fail("encoding differs at byte %zu: wrote %s, expected %s", d, hex(got.data() + (d > 16 ? d - 16 : 0), got.size() - (d > 16 ? d - 16 : 0), 64).c_str(), hex(expect.data() + (d > 16 ? d - 16 : 0), expect.size() - (d > 16 ? d - 16 : 0), 64).c_str());
    }
    label(ver ? "v4" : "v5");
    uint64_t h = 0; size_t n = 0; for (auto& v : vs) { h = hash_value(v, h); n += node_count(v); }
    if (n > nmsg || expect.size() > 8) nontrivial(hash_mix(h, ver * 8 + sink));
}
