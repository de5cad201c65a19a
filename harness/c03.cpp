// C03: the incremental reader decodes any byte sequence as the format says.
#include "drv.h"
using namespace pbt;
const char* pbt::harness_name = "c03";
#ifdef VT_NO_EXT
static const bool EXTS = false;
#else
static const bool EXTS = true;
#endif
// enumerated: every 2-byte prefix followed by two different tails, and every length form exactly
uint64_t pbt_exhaustive_total() { return 256 * 3 + boundary_total(); }

static mpack_error_t want_err(TokStatus st, bool has_fill) { return st == T_TRUNC ? (has_fill ? mpack_error_io : mpack_error_invalid) : st == T_RESERVED ? mpack_error_invalid : mpack_error_unsupported; }

// Reads elements flat (no recursion) comparing with the reference tokenizer.
// Returns number of elements decoded.
static size_t walk(const Bytes& in, bool stream, bool random_mode) {
    Box box(in); Source src; src.p = box.p; src.n = box.n;
    if (random_mode) src = gen_source(box);
    if (random_mode) src.fail_mode = (int)draw(2);
    Box buf(MPACK_READER_MINIMUM_BUFFER_SIZE + (random_mode ? (size_t)draw(70) : 0));
    mpack_reader_t r;
    if (stream) { mpack_reader_init(&r, buf.p, buf.n, 0); mpack_reader_set_context(&r, &src); mpack_reader_set_fill(&r, source_fill); }
    else mpack_reader_init_data(&r, box.p, box.n);
    const uint8_t* p = (const uint8_t*)box.p; size_t pos = 0, n = box.n, count = 0;
    struct Lv { uint64_t left; Kind k; }; std::vector<Lv> st;
    bool stop = false;
    auto position = [&](const char* what) {
#if !MPACK_READ_TRACKING
        const char* d; size_t rem = mpack_reader_remaining(&r, &d);
        size_t consumed = (stream ? src.pos : n) - rem;
        CHECK(consumed == pos, "%s: reader stands at %zu, expected %zu", what, consumed, pos);
        if (!stream && rem) CHECK(d == box.p + pos, "%s: remaining pointer wrong", what);
#else
        (void)what;
#endif
    };
    while (!stop) {
        bool top = st.empty();
        if (top && random_mode && chance(1, 6) && pos > 0) break;
        if (count > 3000) break;
        Tok t = ref_tok(p + pos, n - pos, EXTS);
        bool ext_dt = random_mode && chance(1, 6);
        if (ext_dt) { // peek first: never consumes, same verdict
            mpack_tag_t q = mpack_peek_tag(&r);
            if (t.st == T_OK) {
                CHECK(mpack_reader_error(&r) == mpack_ok, "peek failed (%s) at %zu of %s", err_name(mpack_reader_error(&r)), pos, hex(in.data(), n).c_str());
                uint32_t len; Value v = tag_value(q, &len);
                CHECK(v.k == t.k && v.u == t.u && v.et == t.et && len == t.len, "peek gave %s/%u at %zu, expected %s/%u", show(v).c_str(), len, pos, kind_name(t.k), t.len);
                position("after peek");
            }
        }
        mpack_tag_t g = mpack_read_tag(&r);
        mpack_error_t e = mpack_reader_error(&r);
        if (t.st != T_OK) {
            mpack_error_t w = want_err(t.st, stream);
            CHECK(e == w, "at offset %zu of %s (%s): error %s, expected %s", pos, hex(in.data(), n).c_str(), stream ? "stream" : "memory", err_name(e), err_name(w));
            CHECK(g.type == mpack_type_nil, "tag after error is not nil");
            label(t.st == T_TRUNC ? "truncated-header" : t.st == T_RESERVED ? "reserved" : "noext");
            CHECK(mpack_reader_destroy(&r) == w, "destroy lost the error");
            return count;
        }
        CHECK(e == mpack_ok, "valid element at offset %zu of %s gave error %s", pos, hex(in.data(), n).c_str(), err_name(e));
        uint32_t len; Value v = tag_value(g, &len);
        CHECK(v.k == t.k, "offset %zu: type %s, expected %s", pos, kind_name(v.k), kind_name(t.k));
        CHECK(v.u == t.u, "offset %zu: value %llx, expected %llx", pos, (unsigned long long)v.u, (unsigned long long)t.u);
        CHECK(v.et == t.et, "offset %zu: ext type %d, expected %d", pos, v.et, t.et);
        CHECK(len == t.len, "offset %zu: length/count %u, expected %u", pos, len, t.len);
        pos += t.hdr; count++;
        position("after tag");
        if (!st.empty()) st.back().left--;
        if (t.k == ARR || t.k == MAP) st.push_back({t.k == ARR ? (uint64_t)t.len : 2 * (uint64_t)t.len, t.k});
        if (t.k == STR || t.k == BIN || t.k == EXT) {
            size_t left = t.len;
            int mode = random_mode ? (int)draw(5) : 0; int guard = 0;
            while (left && !stop) {
                size_t k = left; if (mode == 1 && guard++ < 10) k = 1 + (size_t)draw(left < 30 ? left : 30);
                bool avail = n - pos >= k;
                Bytes got; bool have = true;
                size_t kk = k;
                if (mode == 2 && (!stream || k <= buf.n)) { const char* q = mpack_read_bytes_inplace(&r, k); if (mpack_reader_error(&r) == mpack_ok) got.assign(q, k); }
                else if (mode == 3) { mpack_skip_bytes(&r, k); have = false; }
                else if (mode == 4) { char* q = mpack_read_bytes_alloc(&r, k); if (mpack_reader_error(&r) == mpack_ok) { CHECK(q != NULL, "alloc NULL"); got.assign(q, k); vt_free(q); } else { CHECK(q == NULL, "block returned in error"); if (mpack_reader_error(&r) == mpack_error_memory && k + 1 > vt.limit) { mpack_reader_destroy(&r); return count; } } }
                else { if (k > 100000) kk = 100000; if (kk > left) kk = left; avail = n - pos >= kk; Box b(kk); mpack_read_bytes(&r, b.p, kk); if (mpack_reader_error(&r) == mpack_ok) got.assign(b.p, kk); k = kk; }
                mpack_error_t e2 = mpack_reader_error(&r);
                if (!avail) {
                    mpack_error_t w = stream ? mpack_error_io : mpack_error_invalid;
                    CHECK(e2 == w, "payload truncated at %zu of %s: error %s, expected %s", pos, hex(in.data(), n).c_str(), err_name(e2), err_name(w));
                    label("truncated-data");
                    CHECK(mpack_reader_destroy(&r) == w, "destroy lost the error");
                    return count;
                }
                CHECK(e2 == mpack_ok, "payload of %zu bytes at %zu: error %s", k, pos, err_name(e2));
                if (have) CHECK(got.compare(0, k, (const char*)p + pos, k) == 0, "payload bytes differ at %zu", pos);
                pos += k; left -= k;
                position("after data");
            }
            mpack_done_type(&r, mpack_tag_type(&g));
        }
        while (!st.empty() && st.back().left == 0) { if (st.back().k == ARR) mpack_done_array(&r); else mpack_done_map(&r); st.pop_back(); }
        CHECK(mpack_reader_error(&r) == mpack_ok, "done functions flagged %s", err_name(mpack_reader_error(&r)));
        if (random_mode && st.empty()) { const char* d; size_t rem = mpack_reader_remaining(&r, &d); size_t consumed = (stream ? src.pos : n) - rem; CHECK(consumed == pos, "between messages: reader stands at %zu, expected %zu", consumed, pos); }
    }
    if (!st.empty()) mpack_reader_flag_error(&r, mpack_error_data);
    mpack_reader_destroy(&r);
    return count;
}
// A data range longer than 32 bits can count.
static bool huge_case() {
    GenOpt o; o.ext = EXTS; o.max_len = 60; Bytes in; size_t k = 1 + (size_t)draw(3); std::vector<Value> vs; for (size_t i = 0; i < k; i++) { vs.push_back(gen_value(o)); in += enc(vs.back()); }
    if (in.size() > 100000) return false;
    char* base = huge_message(in); if (!base) return false;
    size_t n = (size_t)0x100000000ull + (size_t)draw(in.size() + 1), pos = 0; mpack_reader_t r; mpack_reader_init_data(&r, base, n); ReadOpt ro; const char* d;
    for (auto& v : vs) {
        size_t len = enc(v).size();
        if (chance(1, 4)) { mpack_discard(&r); CHECK(mpack_reader_error(&r) == mpack_ok, "discard in %zu bytes: %s", n, err_name(mpack_reader_error(&r))); }
        else { Value got; CHECK(read_value(&r, got, ro), "reading %s in %zu bytes: %s", show(v).c_str(), n, err_name(mpack_reader_error(&r))); CHECK(eq(got, v), "read %s, expected %s", show(got).c_str(), show(v).c_str()); }
        pos += len; size_t rem = mpack_reader_remaining(&r, &d); CHECK(rem == n - pos && d == base + pos, "%zu bytes remain of %zu after %zu", rem, n, pos);
    }
#if !MPACK_READ_TRACKING
    size_t left = 1 + (size_t)draw(20); mpack_skip_bytes(&r, n - pos - left); CHECK(mpack_reader_error(&r) == mpack_ok && mpack_reader_remaining(&r, &d) == left && d == base + n - left, "skipping %zu bytes: %s", n - pos - left, err_name(mpack_reader_error(&r)));
#endif
    CHECK(mpack_reader_destroy(&r) == mpack_ok, "destroy"); note("%zu bytes of data starting with %s", n, hex(in.data(), in.size()).c_str()); label("over-32-bits"); nontrivial(hash_bytes(in.data(), in.size(), n)); return true;
}
void pbt::property_case() {
    int64_t ex = enumerated();
    if (ex < 0 && chance(1, 400) && huge_case()) return;
    if (ex >= 256 * 3) {
        Value v = boundary_value((uint64_t)ex - 256 * 3);
        if (v.k == EXT && !EXTS) return;
        Bytes in = enc(v) + "\xc3";
        note("boundary: %s count %zu bytes %zu form %d", kind_name(v.k), v.count(), v.s.size(), v.form);
        walk(in, false, false); walk(in, true, false);
        in.resize(in.size() - 2); walk(in, false, false); walk(in, true, false);
        nontrivial((uint64_t)ex + 1); label("boundary"); return;
    }
    if (ex >= 0) {
        int b0 = (int)(ex % 256), tail = (int)(ex / 256);
        for (int b1 = 0; b1 < 256; b1++) {
            Bytes in; in += (char)b0; in += (char)b1;
            if (tail == 1) in += Bytes("\x01\x80\xff\x00\x7f\xc0\xc1\x10\x91\xa1\xca\xd0", 12);
            if (tail == 2) { in += Bytes(300, '\0'); in += "\xc0\xc0\xc0\xc0"; }
            for (size_t cut = tail == 1 ? 0 : in.size(); cut <= in.size(); cut++) {
                if (tail == 1 && b1 % 16 && cut < in.size()) continue;
                Bytes c = in.substr(0, cut);
                walk(c, false, false); walk(c, true, false);
            }
        }
        nontrivial((uint64_t)ex + 1); note("all inputs starting with byte %02x, tail variant %d", b0, tail);
        return;
    }
    Bytes in = gen_wire(chance(1, 10) ? 5000 : 120, EXTS);
    bool stream = coin();
    note("%s input %zu bytes: %s", stream ? "stream" : "memory", in.size(), hex(in.data(), in.size()).c_str());
    size_t c = walk(in, stream, true);
    if (c >= 2 || in.size() >= 4) nontrivial(hash_bytes(in.data(), in.size(), stream));
    label(stream ? "stream" : "memory");
}
