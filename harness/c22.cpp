// C22: timestamps are written minimally and read back exactly by every API.
#include "nodectx.h"
using namespace pbt;
const char* pbt::harness_name = "c22";
static const uint32_t NSMAX = 999999999;
static Bytes payload(int form, int64_t s, uint32_t ns) { // 4, 8 or 12 bytes as given
    Bytes p; if (form == 4) be(p, (uint64_t)s & 0xffffffff, 4); else if (form == 8) be(p, (uint64_t)ns << 34 | ((uint64_t)s & ((1ull << 34) - 1)), 8); else { be(p, ns, 4); be(p, (uint64_t)s, 8); } return p;
}
static int minimal(int64_t s, uint32_t ns) { return s >= 0 && s <= 0xffffffffll && ns == 0 ? 4 : s >= 0 && s < (1ll << 34) ? 8 : 12; }
static Bytes ext(int8_t et, const Bytes& p, int form) { Value v = mk_data(EXT, p, et); v.form = (uint8_t)form; return enc(v); }
static void same(const char* fn, mpack_timestamp_t t, int64_t s, uint32_t ns, const Bytes& e) { CHECK(t.seconds == s && t.nanoseconds == ns, "%s of %s gave %lld.%09u, expected %lld.%09u", fn, hex(e.data(), e.size()).c_str(), (long long)t.seconds, t.nanoseconds, (long long)s, ns); }
// reads element e in every way; we is the expected error, w2 another acceptable one
static void read_all(const Bytes& e, const Tok& t, int64_t s, uint32_t ns, mpack_error_t we, bool trunc = false, bool isext = true) {
    Bytes in = trunc ? e : e + '\x2a';
    for (int f = 0; f < 6; f++) {
        bool stream = f & 1; Box b(in); Box rb(MPACK_READER_MINIMUM_BUFFER_SIZE < 64 ? 64 : MPACK_READER_MINIMUM_BUFFER_SIZE); Source src; mpack_reader_t r;
        if (stream) { src.p = b.p; src.n = b.n; src.sizes = {1, 5, 2}; mpack_reader_init(&r, rb.p, rb.n, 0); mpack_reader_set_context(&r, &src); mpack_reader_set_fill(&r, source_fill); } else mpack_reader_init_data(&r, b.p, b.n);
        mpack_timestamp_t g = {0, 0}; const char* fn; bool direct = f / 2 == 2; mpack_error_t w = we;
        switch (f / 2) {
        case 0: fn = "expect_timestamp"; g = mpack_expect_timestamp(&r); break; case 1: fn = "expect_timestamp_truncate"; g.seconds = mpack_expect_timestamp_truncate(&r); g.nanoseconds = we == mpack_ok ? ns : 0; break;
        default: { fn = "read_timestamp"; mpack_tag_t tag = mpack_read_tag(&r); if (mpack_reader_error(&r) == mpack_ok && (!isext || tag.type != mpack_type_ext || mpack_tag_ext_exttype(&tag) != MPACK_EXTTYPE_TIMESTAMP)) { mpack_reader_flag_error(&r, mpack_error_data); mpack_reader_destroy(&r); continue; } if (mpack_reader_error(&r) == mpack_ok) g = mpack_read_timestamp(&r, mpack_tag_ext_length(&tag)); } }
        (void)direct; mpack_error_t er = mpack_reader_error(&r); if (trunc) w = stream ? mpack_error_io : mpack_error_invalid;
        CHECK(er == w || (trunc && er == mpack_error_invalid), "%s of %s%s: %s, expected %s", fn, hex(e.data(), e.size()).c_str(), trunc ? " (truncated)" : "", err_name(er), err_name(w));
        if (w == mpack_ok) { same(fn, g, s, ns, e); mpack_tag_t n = mpack_read_tag(&r); CHECK(mpack_reader_error(&r) == mpack_ok && n.type == mpack_type_uint && n.v.u == 42, "%s of %s did not consume exactly the timestamp", fn, hex(e.data(), e.size()).c_str()); CHECK(mpack_reader_destroy(&r) == mpack_ok, "destroy"); }
        else { same(fn, g, 0, 0, e); mpack_reader_destroy(&r); }
    }
    if (trunc) return;
    NodeCtx c(e);
    for (int f = 0; f < 3; f++) c.run([&](mpack_node_t x, mpack_tree_t* tr, const char*) {
        mpack_timestamp_t g = {0, 0}; const char* fn;
        switch (f) { case 0: fn = "node_timestamp"; g = mpack_node_timestamp(x); break; case 1: fn = "node_timestamp_seconds"; g.seconds = mpack_node_timestamp_seconds(x); g.nanoseconds = we == mpack_ok ? ns : 0; break; default: fn = "node_timestamp_nanoseconds"; g.nanoseconds = mpack_node_timestamp_nanoseconds(x); g.seconds = we == mpack_ok ? s : 0; }
        mpack_error_t er = mpack_tree_error(tr); CHECK(er == we, "%s of %s: %s, expected %s", fn, hex(e.data(), e.size()).c_str(), err_name(er), err_name(we)); if (we == mpack_ok) same(fn, g, s, ns, e); else same(fn, g, 0, 0, e);
    });
    (void)t;
}
static void write_one(int64_t s, uint32_t ns) {
    Bytes want = ext(-1, payload(minimal(s, ns), s, ns), 0);
    for (int how = 0; how < 4; how++) {
        Box out(64); mpack_writer_t w; char* data = NULL; size_t size = 0; bool grow = how == 3; if (grow) mpack_writer_init_growable(&w, &data, &size); else mpack_writer_init(&w, out.p, how == 2 ? want.size() : out.n);
        vt.allow_break = ns > NSMAX; mpack_timestamp_t t; t.seconds = s; t.nanoseconds = ns;
        if (how == 1) mpack_write_timestamp_struct(&w, t); else if (ns == 0 && how == 2) mpack_write_timestamp_seconds(&w, s); else mpack_write_timestamp(&w, s, ns);
        if (ns > NSMAX) { CHECK(mpack_writer_error(&w) == mpack_error_bug, "writing %u nanoseconds: %s", ns, err_name(mpack_writer_error(&w))); mpack_writer_destroy(&w); if (data) MPACK_FREE(data); continue; }
        size_t used = mpack_writer_buffer_used(&w); CHECK(mpack_writer_error(&w) == mpack_ok, "writing %lld.%09u: %s", (long long)s, ns, err_name(mpack_writer_error(&w)));
        CHECK(mpack_writer_destroy(&w) == mpack_ok, "destroy"); const char* p = grow ? data : out.p; CHECK(used == want.size() && !memcmp(p, want.data(), used), "%lld.%09u was written as %s, expected %s", (long long)s, ns, hex(p, used).c_str(), hex(want.data(), want.size()).c_str()); if (data) MPACK_FREE(data);
    }
}
static void roundtrip(int64_t s, uint32_t ns) {
    write_one(s, ns); if (ns > NSMAX) return;
    for (int form : {4, 8, 12}) { if (form < minimal(s, ns)) continue; Bytes p = payload(form, s, ns); int ef = (int)draw(5); if (ef == 1 && form == 12) ef = 0; Bytes e = ext(-1, p, ef); read_all(e, ref_tok((const uint8_t*)e.data(), e.size()), s, ns, mpack_ok); }
}
static const int64_t SEC[] = {0, 1, -1, 2, 0x7fffffff, 0x80000000ll, 0xfffffffell, 0xffffffffll, 0x100000000ll, 0x100000001ll, (1ll << 33), (1ll << 34) - 2, (1ll << 34) - 1, 1ll << 34, (1ll << 34) + 1, 1ll << 35, 1ll << 40, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1, -2, -0x80000000ll, -0x100000000ll, -(1ll << 34), 1ll << 62, 1700000000};
static const uint32_t NS[] = {0, 1, 2, 255, 256, 65535, 65536, 999999998, 999999999, 1000000000, 1000000001, 0x3fffffff, 0x40000000, 0x7fffffff, 0x80000000, 0xffffffff, 500000000, 0x3b9ac9ff};
uint64_t pbt_exhaustive_total() { return 27 + 256; }
void pbt::property_case() {
    int64_t ex = enumerated();
    if (ex >= 0 && ex < 27) { for (uint32_t ns : NS) roundtrip(SEC[ex], ns); nontrivial((uint64_t)ex + 1); label("boundaries"); return; }
    if (ex >= 27) { // every first byte, every exttype, every small size
        int b = (int)ex - 27; Bytes e(1, (char)b); e += Bytes("\x01\x02\x03\x04\x05\x06\x07\x08", 8); Tok t = ref_tok((const uint8_t*)e.data(), e.size());
        if (t.st == T_OK && t.k != EXT && t.len < 3000) { e.resize(t.hdr); if (t.k >= STR) e += Bytes(t.k == MAP ? 2 * t.len : t.len, '\x07'); read_all(e, t, 0, 0, mpack_error_type, false, false); }
        int8_t et = (int8_t)b; for (int n : {4, 8, 12}) if (et != -1) { Bytes x = ext(et, gen_bytes((size_t)n), 0); read_all(x, ref_tok((const uint8_t*)x.data(), x.size()), 0, 0, mpack_error_type); }
        if (b != 4 && b != 8 && b != 12) for (int f = 0; f < 2; f++) { Bytes x = ext(-1, coin() ? Bytes((size_t)b, '\0') : gen_bytes((size_t)b), f ? (int)range(2, 4) : 0); read_all(x, ref_tok((const uint8_t*)x.data(), x.size()), 0, 0, mpack_error_invalid); }
        nontrivial((uint64_t)ex + 1); label("first-bytes-types-sizes"); return;
    }
    int64_t s = chance(1, 3) ? SEC[draw(27)] + (int64_t)0 : coin() ? (int64_t)draw(1ull << range(1, 62)) : gen_i64(); if (chance(1, 4) && s > INT64_MIN) s = -s;
    uint32_t ns = chance(1, 3) ? NS[draw(18)] : coin() ? (uint32_t)draw(1000000000) : chance(1, 2) ? 0 : (uint32_t)draw(1ull << range(1, 32));
    note("%lld.%09u", (long long)s, ns); roundtrip(s, ns);
    if (ns > NSMAX) { for (int form : {8, 12}) { if (form == 8 && ns > 0x3fffffff) continue; Bytes e = ext(-1, payload(form, s, ns), (int)draw(4) == 0 ? 4 : 0); read_all(e, ref_tok((const uint8_t*)e.data(), e.size()), 0, 0, mpack_error_invalid); } label("nanoseconds out of range"); }
    else { int form = pick<int>({4, 8, 12}); if (form < minimal(s, ns)) form = 12; Bytes e = ext(-1, payload(form, s, ns), 0); Bytes cut = e.substr(0, (size_t)draw(e.size())); if (!cut.empty()) read_all(cut, ref_tok((const uint8_t*)cut.data(), cut.size()), 0, 0, mpack_ok, true); label(minimal(s, ns) == 4 ? "32-bit" : minimal(s, ns) == 8 ? "64-bit" : "96-bit"); }
    nontrivial(hash_mix((uint64_t)s, ns));
}
