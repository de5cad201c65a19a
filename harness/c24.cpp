// C24: a model of what is open decides, call by call, whether tracking must
// stay silent or report a bug.
#include "drv.h"
using namespace pbt;
const char* pbt::harness_name = "c24";
#ifdef VT_NO_EXT
static const bool EXTS = false;
#else
static const bool EXTS = true;
#endif
struct Open { Kind k; uint64_t left; bool builder; bool half; Value v; }; // left: elements (2 per map entry) or bytes
static mpack_type_t ty(Kind k) { switch (k) { case STR: return mpack_type_str; case BIN: return mpack_type_bin; case ARR: return mpack_type_array; case MAP: return mpack_type_map;
#if MPACK_EXTENSIONS
    case EXT: return mpack_type_ext;
#endif
    default: return mpack_type_nil; } }
static bool is_data(Kind k) { return k == STR || k == BIN || k == EXT; }
static const int NKIND = EXTS ? 5 : 4; static const Kind KINDS[] = {STR, BIN, ARR, MAP, EXT};
static Kind any_compound() { return KINDS[draw(NKIND)]; }
static const char* act; // what was done last
static int b0;          // breaks before it
static void reported(mpack_error_t e, const char* why) {
    CHECK(e == mpack_error_bug, "%s: %s was not reported, the state is %s", act, why, err_name(e));
    if (MPACK_DEBUG) CHECK(vt.breaks > b0, "%s: %s was not reported by mpack_break", act, why);
    label(why);
}
static Value small_value() { GenOpt g; g.max_len = 40; g.ext = EXTS; return gen_scalar(g); }
static uint64_t data_len() { return chance(1, 10) ? draw(400) : draw(12); }
static uint64_t kid_count() { return chance(1, 20) ? draw(40) : draw(5); }
// --------------------------------------------------------------- writer
struct W { bool sink = false;
    mpack_writer_t w; std::vector<Open> st; std::vector<Value> done; Bytes flushed;
    bool can_element() { return st.empty() || (!is_data(st.back().k) && (st.back().builder || st.back().left)); }
    bool can_close() { return !st.empty() && !st.back().half && (st.back().builder || st.back().left == 0); }
    void count() { if (!st.empty()) { Open& o = st.back(); if (o.k == MAP) o.half = !o.half; if (!o.builder) o.left--; } }
    void put(const Value& v) { if (st.empty()) done.push_back(v); else st.back().v.c.push_back(v); }
    void pop() { Value v = st.back().v; st.pop_back(); put(v); }
};
static void on_flush(mpack_writer_t* w, const char* p, size_t n) { ((W*)mpack_writer_context(w))->flushed.append(p, n); }
static void close_call(mpack_writer_t* w, Kind k, bool builder) {
    if (builder && (k == ARR || k == MAP)) { act = k == ARR ? "complete_array" : "complete_map"; if (k == ARR) mpack_complete_array(w); else mpack_complete_map(w); return; }
    if (chance(1, 4)) { act = "finish_type"; mpack_finish_type(w, ty(k)); return; }
    switch (k) { case ARR: act = "finish_array"; mpack_finish_array(w); break; case MAP: act = "finish_map"; mpack_finish_map(w); break; case STR: act = "finish_str"; mpack_finish_str(w); break; case BIN: act = "finish_bin"; mpack_finish_bin(w); break;
#if MPACK_EXTENSIONS
    case EXT: act = "finish_ext"; mpack_finish_ext(w); break;
#endif
    default: break; }
}
static Value start_call(mpack_writer_t* w, Kind k, uint64_t n, bool builder) {
    Value v; v.k = k; if (k == EXT) v.et = (int8_t)draw(256);
    if (builder && !is_data(k)) { act = k == ARR ? "build_array" : "build_map"; if (k == ARR) mpack_build_array(w); else mpack_build_map(w); return v; }
    if (chance(1, 4)) {
        act = "write_tag"; mpack_tag_t t = k == STR ? mpack_tag_str((uint32_t)n) : k == BIN ? mpack_tag_bin((uint32_t)n) : k == ARR ? mpack_tag_array((uint32_t)n) : mpack_tag_map((uint32_t)n);
#if MPACK_EXTENSIONS
        if (k == EXT) t = mpack_tag_ext(v.et, (uint32_t)n);
#endif
        mpack_write_tag(w, t);
    } else switch (k) { case ARR: act = "start_array"; mpack_start_array(w, (uint32_t)n); break; case MAP: act = "start_map"; mpack_start_map(w, (uint32_t)n); break; case STR: act = "start_str"; mpack_start_str(w, (uint32_t)n); break; case BIN: act = "start_bin"; mpack_start_bin(w, (uint32_t)n); break;
#if MPACK_EXTENSIONS
    case EXT: act = "start_ext"; mpack_start_ext(w, v.et, (uint32_t)n); break;
#endif
    default: break; }
    return v;
}
static void scalar_call(mpack_writer_t* w, const Value& v) { act = "an element"; EmitOpt o; o.chunks = false; o.object_bytes = true; emit(w, v, o); }
static void silent(mpack_error_t e, int b) { CHECK(e == mpack_ok, "correct use: %s set error %s (%s)", act, err_name(e), vt.last_break.c_str()); CHECK(vt.breaks == b, "correct use: %s was reported: %s", act, vt.last_break.c_str()); }
// One correct step. Returns false if there is none but closing everything.
static void writer_good(W& x, bool finishing) {
    mpack_writer_t* w = &x.w; int b = vt.breaks; vt.allow_break = true;
    if (!x.st.empty() && is_data(x.st.back().k) && x.st.back().left) { // bytes
        Open& o = x.st.back(); size_t k = finishing || coin() ? o.left : (size_t)draw(o.left + 1); Bytes d = gen_bytes(k); Box bx(d); act = "write_bytes"; mpack_write_bytes(w, bx.p, k); o.left -= k; o.v.s += d; silent(mpack_writer_error(w), b); return;
    }
    if (x.can_close() && (finishing || !x.can_element() || chance(1, 4))) { Open& o = x.st.back(); close_call(w, o.k, o.builder); silent(mpack_writer_error(w), b); x.pop(); return; }
    if (x.st.empty() && chance(1, 10)) { act = "flush_message"; if (x.sink) { mpack_writer_flush_message(w); silent(mpack_writer_error(w), b); return; } }
    if (finishing || x.st.size() > 40 || coin()) { Value v = small_value(); scalar_call(w, v); silent(mpack_writer_error(w), b); x.count(); x.put(v); return; }
    Kind k = any_compound(); bool bl = chance(1, 3); uint64_t n = is_data(k) ? data_len() : kid_count(); Value v = start_call(w, k, n, bl); bl = bl && !is_data(k); silent(mpack_writer_error(w), b);
    x.count(); x.st.push_back({k, bl ? 0 : k == MAP ? 2 * n : n, bl, false, v});
}
// One mistake; returns what it was, or NULL if this one is not possible here.
static const char* writer_bad(W& x) {
    mpack_writer_t* w = &x.w; b0 = vt.breaks; vt.allow_break = true; Open* o = x.st.empty() ? NULL : &x.st.back();
    switch (draw(7)) {
    case 0: if (x.can_element()) return NULL; { const char* why = is_data(o->k) ? "element inside data" : "too many elements"; if (coin()) scalar_call(w, small_value()); else start_call(w, any_compound(), data_len(), chance(1, 3)); return why; }
    case 1: { Kind k = any_compound(); bool bl = o ? o->builder : coin(); if (o && o->k == k) return NULL; close_call(w, k, bl); return o ? "closing the wrong type" : "closing what is not open"; }
    case 2: if (!o || o->left == 0) return NULL; close_call(w, o->k, o->builder); return is_data(o->k) ? "too few bytes" : "too few elements";
    case 3: if (!o || !o->half) return NULL; close_call(w, o->k, o->builder); return "a key without a value";
    case 4: if (!o || is_data(o->k) || o->left || o->half) return NULL; { const char* why = o->builder ? "finishing a build" : "completing a declared container"; close_call(w, o->k, !o->builder); return why; }
    case 5: { size_t k = o && is_data(o->k) ? (size_t)o->left + 1 + (size_t)draw(50) + (chance(1, 8) ? (size_t)pick<int>({256, 65536}) * (1 + draw(2)) - 1 - (size_t)draw(50) : 0) : (size_t)draw(30); Box bx(k); act = "write_bytes"; const char* why = !o ? "bytes with nothing open" : is_data(o->k) ? "too many bytes" : "bytes in a container"; mpack_write_bytes(w, bx.p, k); return why; }
    default: if (!o) return NULL; if (coin() && x.sink) { act = "flush_message"; mpack_writer_flush_message(w); return "flushing with something open"; } act = "destroy"; return "destroying with something open";
    }
}
static void writer_case(bool bad) {
    W x; int sink = (int)draw(3); Box fixed(100000), fb(MPACK_WRITER_MINIMUM_BUFFER_SIZE + (size_t)draw(200)); char* gd = NULL; size_t gn = 0;
    x.sink = sink == 0;     if (sink == 0) mpack_writer_init_growable(&x.w, &gd, &gn); else if (sink == 1) mpack_writer_init(&x.w, fixed.p, fixed.n); else { mpack_writer_init(&x.w, fb.p, fb.n); mpack_writer_set_context(&x.w, &x); mpack_writer_set_flush(&x.w, on_flush); x.sink = true; }
   
    int steps = 1 + (int)draw(30);
    for (int i = 0; i < steps; i++) { writer_good(x, false); }
    if (!bad) while (!x.st.empty()) writer_good(x, true);
    uint64_t h = 7; for (auto& o : x.st) h = hash_mix(h, (uint64_t)o.k * 1000 + o.left * 4 + o.builder * 2 + o.half); for (auto& v : x.done) h = hash_value(v, h);
    if (!bad) {
        int b = vt.breaks; act = "destroy"; size_t used = sink == 1 ? mpack_writer_buffer_used(&x.w) : 0; mpack_error_t e = mpack_writer_destroy(&x.w); silent(e, b);
        Bytes want, got = sink == 0 ? Bytes(gd, gn) : sink == 1 ? Bytes(fixed.p, used) : x.flushed; for (auto& v : x.done) want += enc(v); if (gd) vt_free(gd);
        CHECK(got == want, "tracked writes gave %s, expected %s", hex(got.data(), got.size()).c_str(), hex(want.data(), want.size()).c_str()); label("writer-correct"); nontrivial(h); return;
    }
    const char* why = NULL; for (int tries = 0; !why && tries < 40; tries++) why = writer_bad(x);
    if (!why) { act = "closing"; b0 = vt.breaks; if (x.st.empty()) { mpack_finish_array(&x.w); why = "closing what is not open"; } else why = "destroying with something open"; }
    bool at_destroy = !strcmp(why, "destroying with something open"); note("writer sink %d: %s (%s) with %zu open, innermost %s left %llu half %d builder %d", sink, why, act, x.st.size(), x.st.empty() ? "-" : kind_name(x.st.back().k), x.st.empty() ? 0ull : (unsigned long long)x.st.back().left, x.st.empty() ? 0 : x.st.back().half, x.st.empty() ? 0 : x.st.back().builder);
    if (at_destroy) CHECK(mpack_writer_error(&x.w) == mpack_ok, "before destroy: %s", err_name(mpack_writer_error(&x.w))); else reported(mpack_writer_error(&x.w), why);
    if (!at_destroy) for (int i = (int)draw(4); i > 0; i--) { if (coin()) scalar_call(&x.w, small_value()); else close_call(&x.w, any_compound(), coin()); }
    mpack_error_t e = mpack_writer_destroy(&x.w); if (gd) { vt_free(gd); CHECK(false, "a growable buffer was handed out after misuse"); } reported(e, why); nontrivial(hash_mix(h, hash_bytes(why, strlen(why))));
}
// --------------------------------------------------------------- reader
struct R {
    mpack_reader_t r; std::vector<Open> st; const uint8_t* p; size_t n, pos = 0;
    bool can_element() { return st.empty() || (!is_data(st.back().k) && st.back().left); }
    void count() { if (!st.empty()) { Open& o = st.back(); if (o.k == MAP) o.half = !o.half; o.left--; } }
    Tok tok() { return ref_tok(p + pos, n - pos, EXTS); }
};
static void done_call(mpack_reader_t* r, Kind k) {
    if (coin()) { act = "done_type"; mpack_done_type(r, ty(k)); return; }
    switch (k) { case ARR: act = "done_array"; mpack_done_array(r); break; case MAP: act = "done_map"; mpack_done_map(r); break; case STR: act = "done_str"; mpack_done_str(r); break; case BIN: act = "done_bin"; mpack_done_bin(r); break;
#if MPACK_EXTENSIONS
    case EXT: act = "done_ext"; mpack_done_ext(r); break;
#endif
    default: break; }
}
static bool has_nul(const uint8_t* p, size_t n) { return n && memchr(p, 0, n); }
// Reads a whole string, blob or extension in one documented call; false if none fits.
static bool whole_read(R& x, const Tok& t) {
    mpack_reader_t* r = &x.r; const uint8_t* d = x.p + x.pos + t.hdr; Box b(t.len + 1);
    if (t.k == STR) switch (draw(11)) {
    case 0: act = "expect_str_buf"; mpack_expect_str_buf(r, b.p, b.n); return true;
    case 1: act = "expect_str_match"; mpack_expect_str_match(r, (const char*)d, t.len); return true;
    case 2: if (has_nul(d, t.len)) return false; act = "expect_cstr"; mpack_expect_cstr(r, b.p, b.n); return true;
    case 3: if (has_nul(d, t.len)) return false; { act = "expect_cstr_alloc"; char* q = mpack_expect_cstr_alloc(r, t.len + 1); vt_free(q); } return true;
    case 4: if (!ref_utf8(d, t.len)) return false; act = "expect_utf8"; mpack_expect_utf8(r, b.p, b.n); return true;
    case 5: if (has_nul(d, t.len) || !ref_utf8(d, t.len)) return false; act = "expect_utf8_cstr"; mpack_expect_utf8_cstr(r, b.p, b.n); return true;
    case 6: if (has_nul(d, t.len) || !ref_utf8(d, t.len)) return false; { act = "expect_utf8_cstr_alloc"; char* q = mpack_expect_utf8_cstr_alloc(r, t.len + 1); vt_free(q); } return true;
    case 7: if (has_nul(d, t.len)) return false; { act = "expect_cstr_match"; Bytes s((const char*)d, t.len); mpack_expect_cstr_match(r, s.c_str()); } return true;
    case 8: if (t.len > 60) return false; { act = "expect_enum_optional"; static const char* const names[] = {"a", "id", "key"}; mpack_expect_enum_optional(r, (const char**)names, 3); } return true;
    case 9: if (t.len > 60 || has_nul(d, t.len)) return false; { act = "expect_key_cstr"; Bytes s((const char*)d, t.len); const char* keys[] = {"zz", s.c_str()}; bool found[2] = {false, false}; mpack_expect_key_cstr(r, keys, found, 2); } return true;
    default: { act = "expect_str_length"; mpack_expect_str_length(r, t.len); act = "read_bytes"; mpack_read_bytes(r, b.p, t.len); act = "done_str"; mpack_done_str(r); } return true;
    }
    if (t.k == BIN) switch (draw(4)) {
    case 0: act = "expect_bin_buf"; mpack_expect_bin_buf(r, b.p, b.n); return true;
    case 1: act = "expect_bin_size_buf"; mpack_expect_bin_size_buf(r, b.p, t.len); return true;
    case 2: { act = "expect_bin_alloc"; size_t k; char* q = mpack_expect_bin_alloc(r, t.len, &k); if (q) vt_free(q); } return true;
    default: { act = "expect_bin_size"; mpack_expect_bin_size(r, t.len); act = "skip_bytes"; mpack_skip_bytes(r, t.len); act = "done_bin"; mpack_done_bin(r); } return true;
    }
#if MPACK_EXTENSIONS
    if (t.k == EXT) { int8_t et; bool ts = t.et == -1; switch (draw(3)) {
    case 0: if (ts) return false; act = "expect_ext_buf"; mpack_expect_ext_buf(r, &et, b.p, b.n); return true;
    case 1: if (ts) return false; { act = "expect_ext_alloc"; size_t k; char* q = mpack_expect_ext_alloc(r, &et, t.len, &k); if (q) vt_free(q); } return true;
    default: { mpack_tag_t g = mpack_read_tag(r); (void)g; act = "read_bytes_inplace"; if (t.len <= MPACK_BUFFER_SIZE) { if (t.len) mpack_read_bytes_inplace(r, t.len); } else mpack_skip_bytes(r, t.len); act = "done_ext"; mpack_done_ext(r); } return true; } }
#endif
    return false;
}
static void reader_good(R& x, bool finishing) {
    mpack_reader_t* r = &x.r; int b = vt.breaks; vt.allow_break = true; Open* o = x.st.empty() ? NULL : &x.st.back();
    auto ok = [&]() { silent(mpack_reader_error(r), b); };
    if (o && is_data(o->k) && o->left) {
        size_t k = finishing || coin() ? (size_t)o->left : (size_t)draw(o->left + 1); Box bx(k + 1); bool fresh = o->half; o->half = true; bool whole = k == o->left && !fresh && o->k == STR && k == o->v.u, nul = has_nul(x.p + x.pos, k), utf = ref_utf8(x.p + x.pos, k);
        switch (draw(8)) {
        case 0: act = "skip_bytes"; mpack_skip_bytes(r, k); break;
        case 1: if (k && k <= MPACK_BUFFER_SIZE) { act = "read_bytes_inplace"; mpack_read_bytes_inplace(r, k); } else { act = "skip_bytes"; mpack_skip_bytes(r, k); } break;
        case 2: { act = "read_bytes_alloc"; char* q = mpack_read_bytes_alloc(r, k); if (q) vt_free(q); break; }
        case 3: if (whole && !nul) { act = "read_cstr"; mpack_read_cstr(r, bx.p, bx.n, k); break; } // fallthrough
        case 4: if (whole && utf) { act = "read_utf8"; mpack_read_utf8(r, bx.p, k); break; } // fallthrough
        case 5: if (whole && utf && !nul) { act = "read_utf8_cstr"; mpack_read_utf8_cstr(r, bx.p, bx.n, k); break; } // fallthrough
        case 6: if (whole && utf && k && k <= MPACK_BUFFER_SIZE) { act = "read_utf8_inplace"; mpack_read_utf8_inplace(r, k); break; } // fallthrough
        default: act = "read_bytes"; mpack_read_bytes(r, bx.p, k); CHECK(memcmp(bx.p, x.p + x.pos, k) == 0, "tracked read_bytes gave other bytes"); break;
        }
        ok(); o->left -= k; x.pos += k; return;
    }
    if (o && (is_data(o->k) || o->left == 0) && !(o->k == MAP && o->half)) { done_call(r, o->k); ok(); x.st.pop_back(); return; }
    if (x.pos == x.n) return;
    if (!o && chance(1, 10)) { act = "remaining"; size_t k = mpack_reader_remaining(r, NULL); ok(); CHECK(k <= x.n - x.pos, "remaining %zu of %zu", k, x.n - x.pos); return; }
    if (chance(1, 8)) { act = "peek_tag"; mpack_peek_tag(r); ok(); return; }
    Tok t = x.tok(); size_t end = x.pos + ref_scan(x.p + x.pos, x.n - x.pos, EXTS).used;
    if (chance(1, finishing ? 2 : 5)) { act = "discard"; mpack_discard(r); ok(); x.pos = end; x.count(); return; }
    bool typed = coin();
    if (is_data(t.k) && chance(1, 3) && whole_read(x, t)) { ok(); x.pos = end; x.count(); return; }
    if (typed) switch (t.k) {
    case NIL: act = "expect_nil"; if (coin()) mpack_expect_nil(r); else { uint32_t c; act = "expect_array_or_nil"; CHECK(!mpack_expect_array_or_nil(r, &c), "nil opened an array"); } break;
    case BOOL: act = "expect_bool"; if (coin()) CHECK(mpack_expect_bool(r) == (t.u != 0), "wrong bool"); else if (t.u) mpack_expect_true(r); else mpack_expect_false(r); break;
    case UINT: if (coin()) { act = "expect_u64"; CHECK(mpack_expect_u64(r) == t.u, "wrong value"); } else { act = "expect_key_uint"; bool found[3] = {false, false, false}; mpack_expect_key_uint(r, found, 3); } break;
    case INT: act = "expect_i64"; CHECK(mpack_expect_i64(r) == (int64_t)t.u, "wrong value"); break;
    case ARR: act = "expect_array"; { uint32_t c = t.len; switch (draw(5)) { case 0: c = mpack_expect_array(r); break; case 1: mpack_expect_array_match(r, t.len); break; case 2: c = mpack_expect_array_max(r, t.len); break; case 3: c = mpack_expect_array_range(r, t.len ? t.len - 1 : 0, t.len); break; default: mpack_expect_array_or_nil(r, &c); } CHECK(c == t.len, "wrong count"); } break;
    case MAP: act = "expect_map"; { uint32_t c = t.len; switch (draw(5)) { case 0: c = mpack_expect_map(r); break; case 1: mpack_expect_map_match(r, t.len); break; case 2: c = mpack_expect_map_max(r, t.len); break; case 3: c = mpack_expect_map_range(r, t.len ? t.len - 1 : 0, t.len); break; default: mpack_expect_map_or_nil(r, &c); } CHECK(c == t.len, "wrong count"); } break;
    case STR: act = "expect_str"; CHECK(mpack_expect_str(r) == t.len, "wrong length"); break;
    case BIN: act = "expect_bin"; CHECK(mpack_expect_bin(r) == t.len, "wrong length"); break;
    default: typed = false; break;
    }
    if (!typed) { act = "read_tag"; mpack_tag_t g = mpack_read_tag(r); uint32_t len; Value v = tag_value(g, &len); CHECK(v.k == t.k && v.u == t.u && len == t.len, "tracked read_tag gave %s", show(v).c_str()); }
    ok(); x.pos += t.hdr; x.count();
    if (is_data(t.k) || t.k == ARR || t.k == MAP) { Value v; v.u = t.len; x.st.push_back({t.k, t.k == MAP ? 2 * (uint64_t)t.len : t.len, false, false, v}); }
}
static const char* reader_bad(R& x) {
    mpack_reader_t* r = &x.r; b0 = vt.breaks; vt.allow_break = true; Open* o = x.st.empty() ? NULL : &x.st.back();
    switch (draw(9)) {
    case 0: if (x.can_element()) return NULL; { const char* why = is_data(o->k) ? "element inside data" : "too many elements"; switch (draw(8)) {
        case 0: act = "peek_tag"; CHECK(mpack_peek_tag(r).type == mpack_type_nil, "a tag was returned"); break; case 1: act = "discard"; mpack_discard(r); break; case 2: act = "expect_u8"; CHECK(mpack_expect_u8(r) == 0, "a value was returned"); break; case 3: act = "expect_str"; CHECK(mpack_expect_str(r) == 0, "a value was returned"); break;
        case 4: act = "expect_map"; CHECK(mpack_expect_map(r) == 0, "a value was returned"); break; case 5: { act = "expect_array_or_nil"; uint32_t c = 7; CHECK(!mpack_expect_array_or_nil(r, &c) && c == 0, "a value was returned"); break; } case 6: { act = "expect_cstr"; char b[20] = "zz"; mpack_expect_cstr(r, b, sizeof b); CHECK(b[0] == 0, "a value was returned"); break; }
        default: act = "read_tag"; CHECK(mpack_read_tag(r).type == mpack_type_nil, "a tag was returned"); break; } return why; }
    case 1: { Kind k = any_compound(); if (o && o->k == k) return NULL; done_call(r, k); return o ? "closing the wrong type" : "closing what is not open"; }
    case 2: if (!o || o->left == 0) return NULL; done_call(r, o->k); return is_data(o->k) ? "too few bytes" : "too few elements";
    case 3: if (!o || !(o->k == MAP && o->half)) return NULL; done_call(r, o->k); return "a key without a value";
    case 4: { size_t k = o && is_data(o->k) ? (size_t)o->left + 1 + (size_t)draw(20) : 1 + (size_t)draw(20); Box bx(k + 1); const char* why = !o ? "bytes with nothing open" : is_data(o->k) ? "too many bytes" : "bytes in a container";
        switch (draw(6)) { case 0: act = "read_bytes"; mpack_read_bytes(r, bx.p, k); break; case 1: act = "skip_bytes"; mpack_skip_bytes(r, k); break; case 2: act = "read_bytes_inplace"; CHECK(!mpack_read_bytes_inplace(r, k), "a pointer was returned"); break; case 3: { act = "read_bytes_alloc"; char* q = mpack_read_bytes_alloc(r, k); if (q) vt_free(q); CHECK(!q, "a block was returned"); break; } case 4: act = "read_cstr"; mpack_read_cstr(r, bx.p, bx.n, k); CHECK(bx.p[0] == 0, "text was returned"); break; default: act = "read_utf8"; mpack_read_utf8(r, bx.p, k); break; } return why; }
    case 5: if (!o || !is_data(o->k) || o->left < 2) return NULL; { size_t k = (size_t)draw(o->left); Box bx(k + 1); switch (draw(3)) { case 0: act = "read_cstr"; mpack_read_cstr(r, bx.p, bx.n, k); CHECK(bx.p[0] == 0, "text was returned"); break; case 1: act = "read_utf8"; mpack_read_utf8(r, bx.p, k); break; default: act = "read_utf8_cstr"; mpack_read_utf8_cstr(r, bx.p, bx.n, k); CHECK(bx.p[0] == 0, "text was returned"); break; } return "reading part of a string as a whole"; }
    case 6: if (!o || (o->k != BIN && o->k != EXT)) return NULL; { size_t k = (size_t)o->left; if (k > 60) return NULL; Box bx(k + 1); switch (draw(4)) { case 0: act = "read_cstr"; mpack_read_cstr(r, bx.p, bx.n, k); CHECK(bx.p[0] == 0, "text was returned"); break; case 1: act = "read_utf8"; mpack_read_utf8(r, bx.p, k); break; case 2: act = "read_utf8_inplace"; CHECK(!mpack_read_utf8_inplace(r, k), "text was returned"); break; default: act = "read_utf8_cstr"; mpack_read_utf8_cstr(r, bx.p, bx.n, k); CHECK(bx.p[0] == 0, "text was returned"); break; } return "reading data that is not a string as text"; }
    case 7: if (!o) return NULL; act = "remaining"; CHECK(mpack_reader_remaining(r, NULL) == 0, "remaining returned a count"); return "asking for the remaining data with something open";
    default: if (!o) return NULL; act = "destroy"; return "destroying with something open";
    }
}
static void reader_case(bool bad) {
    GenOpt g; g.ext = EXTS; g.max_depth = 5; g.overlong = coin(); g.max_len = 80; Bytes in; int k = 1 + (int)draw(3); for (int i = 0; i < k; i++) { Value v = gen_value(g); if (g.overlong) set_overlong(v, EXTS); in += enc(v); }
    Box box(in); R x; x.p = (const uint8_t*)box.p; x.n = box.n; Source src = gen_source(box); Box buf(MPACK_BUFFER_SIZE > 64 ? MPACK_BUFFER_SIZE : 64); bool stream = coin();
    note("reader, %s: %s", stream ? "stream" : "memory", hex(in.data(), in.size(), 100).c_str());
    if (stream) { mpack_reader_init(&x.r, buf.p, buf.n, 0); mpack_reader_set_context(&x.r, &src); mpack_reader_set_fill(&x.r, source_fill); if (coin()) mpack_reader_set_skip(&x.r, source_skip); } else mpack_reader_init_data(&x.r, box.p, box.n);
    uint64_t h = hash_bytes(in.data(), in.size());
    if (!bad) {
        for (int i = 0; i < 2000 && (x.pos < x.n || !x.st.empty()); i++) reader_good(x, i > 200);
        CHECK(x.pos == x.n && x.st.empty(), "internal: the script did not finish"); int b = vt.breaks; act = "destroy"; silent(mpack_reader_destroy(&x.r), b); label("reader-correct"); nontrivial(h); return;
    }
    int steps = (int)draw(25); for (int i = 0; i < steps && x.pos < x.n; i++) reader_good(x, false);
    const char* why = NULL; for (int t = 0; !why && t < 40; t++) why = reader_bad(x);
    if (!why) { act = "done_array"; b0 = vt.breaks; if (x.st.empty()) { mpack_done_array(&x.r); why = "closing what is not open"; } else why = "destroying with something open"; }
    note("mistake: %s (%s) with %zu open, innermost %s left %llu half %d", why, act, x.st.size(), x.st.empty() ? "-" : kind_name(x.st.back().k), x.st.empty() ? 0ull : (unsigned long long)x.st.back().left, x.st.empty() ? 0 : x.st.back().half);
    bool at_destroy = !strcmp(why, "destroying with something open");
    if (at_destroy) CHECK(mpack_reader_error(&x.r) == mpack_ok, "before destroy: %s", err_name(mpack_reader_error(&x.r))); else { reported(mpack_reader_error(&x.r), why); CHECK(mpack_read_tag(&x.r).type == mpack_type_nil, "a tag after the error"); }
    reported(mpack_reader_destroy(&x.r), why); nontrivial(hash_mix(h, hash_bytes(why, strlen(why))));
}
void pbt::property_case() { (void)enumerated(); bool bad = coin(); if (coin()) writer_case(bad); else reader_case(bad); }
