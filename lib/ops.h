// Random public calls on a reader, a node or a writer. Each call checks that
// whenever the object is in an error state afterwards, the documented neutral
// value was returned. Used by the error-state, robustness and fault harnesses.
#pragma once
#include "drv.h"
#include <math.h>
static thread_local std::vector<void*> scratch_list;
static char* scratch(size_t n, int fill = 0x5c) { char* p = (char*)malloc(n ? n : 1); memset(p, fill, n ? n : 1); scratch_list.push_back(p); return p; }
static void scratch_clear() { for (void* p : scratch_list) free(p); scratch_list.clear(); }
static thread_local const char* op_name; // last call, for messages
static const char* const OP_STRINGS[] = {"", "a", "b", "ab", "key", "id", "value", "\xff", "f", "abc"};
static size_t op_len() { using namespace pbt; switch (draw(6)) { case 0: return 0; case 1: return 1; case 2: return (size_t)draw(8); case 3: return (size_t)draw(40); case 4: return (size_t)draw(300); default: return (size_t)draw(70000); } }
#define OPN(n) op_name = #n
#define NEUT(cond, ...) do { if (mpack_reader_error(r) != mpack_ok && !(cond)) { char nb_[256]; snprintf(nb_, sizeof nb_, __VA_ARGS__); pbt::fail("%s in error state %s: %s", op_name, err_name(mpack_reader_error(r)), nb_); } } while (0)
#define NEUTI(x) do { OPN(x); auto v_ = x(r); NEUT(v_ == 0, "returned %lld", (long long)v_); } while (0)
static const int READER_OPS = 84;
struct OpState { uint32_t open_len = 0; mpack_type_t open = mpack_type_nil; }; // length of the str/bin/ext most recently opened
static void reader_op(mpack_reader_t* r, OpState* st = nullptr, int forced = -1) {
    using namespace pbt;
    int op = forced >= 0 ? forced : (int)draw(READER_OPS);
    bool was = mpack_reader_error(r) != mpack_ok; (void)was;
    auto pl = [&]() -> size_t { size_t n = st && st->open_len && coin() ? (coin() ? st->open_len : (size_t)draw((uint64_t)st->open_len + 1)) : op_len(); return n > (1u << 22) ? 1u << 22 : n; };
    auto opened = [&](mpack_type_t t, uint32_t n) { if (st) { st->open = t; st->open_len = n; } };
    switch (op) {
    case 0: case 1: case 2: case 3: { OPN(mpack_read_tag); mpack_tag_t t = mpack_read_tag(r); NEUT(t.type == mpack_type_nil, "returned type %d", (int)t.type); if (mpack_reader_error(r) == mpack_ok) { uint32_t l; Value v = tag_value(t, &l); if (v.k == STR || v.k == BIN || v.k == EXT) opened(t.type, l); } return; }
    case 4: { OPN(mpack_peek_tag); mpack_tag_t t = mpack_peek_tag(r); NEUT(t.type == mpack_type_nil, "returned type %d", (int)t.type); return; }
    case 5: { OPN(mpack_skip_bytes); mpack_skip_bytes(r, chance(1, 20) ? (size_t)draw(0x80000000u) : pl()); return; }
    case 6: { OPN(mpack_read_bytes); size_t n = pl(); mpack_read_bytes(r, scratch(n), n); return; }
    case 7: { OPN(mpack_read_utf8); size_t n = pl(); mpack_read_utf8(r, scratch(n), n); return; }
    case 8: { OPN(mpack_read_cstr); size_t b = 1 + pl(), n = coin() ? b - 1 : pl(); char* p = scratch(b); mpack_read_cstr(r, p, b, n); NEUT(p[0] == 0, "buffer starts with 0x%02x", (unsigned char)p[0]); if (mpack_reader_error(r) == mpack_ok) CHECK(strnlen(p, b) == n, "read_cstr result is not a string of %zu bytes", n); return; }
    case 9: { OPN(mpack_read_utf8_cstr); size_t b = 1 + pl(), n = coin() ? b - 1 : pl(); char* p = scratch(b); mpack_read_utf8_cstr(r, p, b, n); NEUT(p[0] == 0, "buffer starts with 0x%02x", (unsigned char)p[0]); if (mpack_reader_error(r) == mpack_ok) CHECK(strnlen(p, b) == n, "read_utf8_cstr result is not a string of %zu bytes", n); return; }
#ifdef MPACK_MALLOC
    case 10: { OPN(mpack_read_bytes_alloc); char* p = mpack_read_bytes_alloc(r, pl()); NEUT(p == NULL, "returned a block"); if (p) vt_free(p); return; }
#endif
    case 11: { OPN(mpack_read_bytes_inplace); size_t n = pl(); const char* p = mpack_read_bytes_inplace(r, n); NEUT(p == NULL, "returned a pointer"); if (mpack_reader_error(r) == mpack_ok && n) { volatile char c = p[0]; c = p[n - 1]; (void)c; } return; }
    case 12: { OPN(mpack_read_utf8_inplace); size_t n = pl(); const char* p = mpack_read_utf8_inplace(r, n); NEUT(p == NULL, "returned a pointer"); (void)p; return; }
    case 13: { OPN(mpack_should_read_bytes_inplace); (void)mpack_should_read_bytes_inplace(r, pl()); return; }
#if MPACK_EXTENSIONS
    case 14: { OPN(mpack_read_timestamp); mpack_timestamp_t t = mpack_read_timestamp(r, st && st->open_len ? st->open_len : (size_t)draw(16)); NEUT(t.seconds == 0 && t.nanoseconds == 0, "returned %lld.%u", (long long)t.seconds, t.nanoseconds); return; }
    case 15: { OPN(mpack_done_ext); mpack_done_ext(r); return; }
#endif
    case 16: { OPN(mpack_done_type); static const mpack_type_t ts[] = {mpack_type_array, mpack_type_map, mpack_type_str, mpack_type_bin}; mpack_done_type(r, ts[draw(4)]); return; }
    case 17: { OPN(mpack_discard); mpack_discard(r); return; }
    case 18: { OPN(mpack_reader_remaining); const char* d = NULL; size_t n = mpack_reader_remaining(r, coin() ? &d : NULL); NEUT(n == 0, "returned %zu", n); if (d && n) { volatile char c = d[n - 1]; (void)c; } return; }
    case 19: NEUTI(mpack_expect_u8); return;
    case 20: NEUTI(mpack_expect_u16); return;
    case 21: NEUTI(mpack_expect_u32); return;
    case 22: NEUTI(mpack_expect_u64); return;
    case 23: NEUTI(mpack_expect_i8); return;
    case 24: NEUTI(mpack_expect_i16); return;
    case 25: NEUTI(mpack_expect_i32); return;
    case 26: NEUTI(mpack_expect_i64); return;
    case 27: NEUTI(mpack_expect_uint); return;
    case 28: NEUTI(mpack_expect_int); return;
#if MPACK_FLOAT
    case 29: NEUTI(mpack_expect_float); return;
    case 30: NEUTI(mpack_expect_float_strict); return;
    case 31: { OPN(mpack_expect_float_range); float v = mpack_expect_float_range(r, -2.5f, 1e9f); NEUT(v == -2.5f, "returned %g", v); return; }
#else
    case 29: NEUTI(mpack_expect_raw_float); return;
#endif
#if MPACK_DOUBLE
    case 32: NEUTI(mpack_expect_double); return;
    case 33: NEUTI(mpack_expect_double_strict); return;
    case 34: { OPN(mpack_expect_double_range); double v = mpack_expect_double_range(r, -2.5, 1e9); NEUT(v == -2.5, "returned %g", v); return; }
#else
    case 32: NEUTI(mpack_expect_raw_double); return;
#endif
#define RNG(nm, ty, lo, hi) { OPN(mpack_expect_##nm##_range); auto v = mpack_expect_##nm##_range(r, (ty)(lo), (ty)(hi)); NEUT(v == (ty)(lo), "returned %lld, the minimum is %lld", (long long)v, (long long)(ty)(lo)); CHECK(v >= (ty)(lo) && v <= (ty)(hi), "ranged read returned a value outside its range"); return; }
    case 35: RNG(u8, uint8_t, 3, 200)
    case 36: RNG(u16, uint16_t, 3, 60000)
    case 37: RNG(u32, uint32_t, 3, 1u << 31)
    case 38: RNG(u64, uint64_t, 3, 1ull << 63)
    case 39: RNG(i8, int8_t, -100, 100)
    case 40: RNG(i16, int16_t, -100, 30000)
    case 41: RNG(i32, int32_t, -100, 2000000000)
    case 42: RNG(i64, int64_t, -100, 1ll << 62)
    case 43: RNG(uint, unsigned, 5, 4000000000u)
    case 44: RNG(int, int, -5, 2000000000)
    case 45: { OPN(mpack_expect_u8_max); auto v = mpack_expect_u8_max(r, 100); NEUT(v == 0, "returned %d", (int)v); return; }
    case 46: { OPN(mpack_expect_i64_max); auto v = mpack_expect_i64_max(r, 100); NEUT(v == 0, "returned %lld", (long long)v); return; }
    case 47: { OPN(mpack_expect_uint_match); mpack_expect_uint_match(r, draw(4)); return; }
    case 48: { OPN(mpack_expect_int_match); mpack_expect_int_match(r, (int64_t)draw(4) - 2); return; }
    case 49: { OPN(mpack_expect_nil); mpack_expect_nil(r); return; }
    case 50: { OPN(mpack_expect_bool); bool b = mpack_expect_bool(r); NEUT(!b, "returned true"); return; }
    case 51: { OPN(mpack_expect_true); mpack_expect_true(r); return; }
    case 52: { OPN(mpack_expect_false); mpack_expect_false(r); return; }
#if MPACK_EXTENSIONS
    case 53: { OPN(mpack_expect_timestamp); mpack_timestamp_t t = mpack_expect_timestamp(r); NEUT(t.seconds == 0 && t.nanoseconds == 0, "returned %lld.%u", (long long)t.seconds, t.nanoseconds); return; }
    case 54: NEUTI(mpack_expect_timestamp_truncate); return;
    case 55: { OPN(mpack_expect_ext); int8_t t = 55; uint32_t n = mpack_expect_ext(r, &t); NEUT(n == 0 && t == 0, "returned %u, type %d", n, t); if (mpack_reader_error(r) == mpack_ok) opened(mpack_type_ext, n); return; }
    case 56: { OPN(mpack_expect_ext_max); int8_t t = 55; uint32_t n = mpack_expect_ext_max(r, &t, (uint32_t)op_len()); NEUT(n == 0 && t == 0, "returned %u, type %d", n, t); if (mpack_reader_error(r) == mpack_ok) opened(mpack_type_ext, n); return; }
    case 57: { OPN(mpack_expect_ext_buf); int8_t t = 55; size_t b = op_len(); size_t n = mpack_expect_ext_buf(r, &t, scratch(b), b); NEUT(n == 0 && t == 0, "returned %zu, type %d", n, t); return; }
#ifdef MPACK_MALLOC
    case 58: { OPN(mpack_expect_ext_alloc); int8_t t = 55; size_t n = 44; char* p = mpack_expect_ext_alloc(r, &t, op_len(), &n); NEUT(n == 0 && t == 0 && p == NULL, "returned size %zu, type %d, block %d", n, t, p != NULL); if (p) vt_free(p); return; }
#endif
    case 59: { OPN(mpack_expect_ext_size); int8_t t = 55; uint32_t n = (uint32_t)op_len(); mpack_expect_ext_size(r, &t, n); NEUT(t == 0, "type %d", t); if (mpack_reader_error(r) == mpack_ok) opened(mpack_type_ext, n); return; }
#endif
    case 60: NEUTI(mpack_expect_map); return;
    case 61: { OPN(mpack_expect_map_range); uint32_t v = mpack_expect_map_range(r, 2, 5); NEUT(v == 2, "returned %u", v); return; }
    case 62: { OPN(mpack_expect_map_max); uint32_t v = mpack_expect_map_max(r, 5); NEUT(v == 0, "returned %u", v); return; }
    case 63: { OPN(mpack_expect_map_match); mpack_expect_map_match(r, (uint32_t)draw(4)); return; }
    case 64: { uint32_t n = 77; bool b; if (coin()) { OPN(mpack_expect_map_or_nil); b = mpack_expect_map_or_nil(r, &n); } else { OPN(mpack_expect_map_max_or_nil); b = mpack_expect_map_max_or_nil(r, 5, &n); } NEUT(!b && n == 0, "returned %d, count %u", b, n); return; }
    case 65: NEUTI(mpack_expect_array); return;
    case 66: { OPN(mpack_expect_array_range); uint32_t v = mpack_expect_array_range(r, 2, 5); NEUT(v == 2, "returned %u", v); return; }
    case 67: { OPN(mpack_expect_array_max); uint32_t v = mpack_expect_array_max(r, 5); NEUT(v == 0, "returned %u", v); return; }
    case 68: { OPN(mpack_expect_array_match); mpack_expect_array_match(r, (uint32_t)draw(4)); return; }
    case 69: { uint32_t n = 77; bool b; if (coin()) { OPN(mpack_expect_array_or_nil); b = mpack_expect_array_or_nil(r, &n); } else { OPN(mpack_expect_array_max_or_nil); b = mpack_expect_array_max_or_nil(r, 5, &n); } NEUT(!b && n == 0, "returned %d, count %u", b, n); return; }
#ifdef MPACK_MALLOC
    case 70: { uint32_t n = 77; int* p; if (coin()) { OPN(mpack_expect_array_alloc); p = mpack_expect_array_alloc(r, int, (uint32_t)op_len(), &n); } else { OPN(mpack_expect_array_or_nil_alloc); p = mpack_expect_array_or_nil_alloc(r, int, (uint32_t)op_len(), &n); } NEUT(!p && n == 0, "returned block %d, count %u", p != NULL, n); if (p) { p[n - 1] = 3; vt_free(p); } return; }
#endif
    case 71: { OPN(mpack_expect_str); uint32_t n = mpack_expect_str(r); NEUT(n == 0, "returned %u", n); if (mpack_reader_error(r) == mpack_ok) opened(mpack_type_str, n); return; }
    case 72: { size_t b = op_len(), n; char* p = scratch(b); if (coin()) { OPN(mpack_expect_str_buf); n = mpack_expect_str_buf(r, p, b); } else { OPN(mpack_expect_utf8); n = mpack_expect_utf8(r, p, b); } NEUT(n == 0, "returned %zu", n); CHECK(n <= b, "%s returned %zu for a buffer of %zu", op_name, n, b); return; }
    case 73: { OPN(mpack_expect_str_max); uint32_t n = mpack_expect_str_max(r, (uint32_t)op_len()); NEUT(n == 0, "returned %u", n); if (mpack_reader_error(r) == mpack_ok) opened(mpack_type_str, n); return; }
    case 74: { if (coin()) { OPN(mpack_expect_str_length); mpack_expect_str_length(r, (uint32_t)draw(4)); } else { OPN(mpack_expect_str_match); const char* s = OP_STRINGS[draw(10)]; mpack_expect_str_match(r, s, strlen(s)); } return; }
    case 75: { size_t b = 1 + op_len(); char* p = scratch(b); if (coin()) { OPN(mpack_expect_cstr); mpack_expect_cstr(r, p, b); } else { OPN(mpack_expect_utf8_cstr); mpack_expect_utf8_cstr(r, p, b); } NEUT(p[0] == 0, "buffer starts with 0x%02x", (unsigned char)p[0]); CHECK(strnlen(p, b) < b, "%s left no terminator", op_name); return; }
#ifdef MPACK_MALLOC
    case 76: { char* p; size_t m = 1 + op_len(); if (coin()) { OPN(mpack_expect_cstr_alloc); p = mpack_expect_cstr_alloc(r, m); } else { OPN(mpack_expect_utf8_cstr_alloc); p = mpack_expect_utf8_cstr_alloc(r, m); } NEUT(p == NULL, "returned a block"); if (p) { CHECK(strlen(p) < m, "string longer than the limit"); vt_free(p); } return; }
    case 77: { OPN(mpack_expect_bin_alloc); size_t n = 44; char* p = mpack_expect_bin_alloc(r, op_len(), &n); NEUT(p == NULL && n == 0, "returned block %d size %zu", p != NULL, n); if (p) vt_free(p); return; }
#endif
    case 78: { OPN(mpack_expect_bin); uint32_t n = mpack_expect_bin(r); NEUT(n == 0, "returned %u", n); if (mpack_reader_error(r) == mpack_ok) opened(mpack_type_bin, n); return; }
    case 79: { OPN(mpack_expect_bin_buf); size_t b = op_len(); size_t n = mpack_expect_bin_buf(r, scratch(b), b); NEUT(n == 0, "returned %zu", n); return; }
    case 80: { if (coin()) { OPN(mpack_expect_bin_max); uint32_t n = mpack_expect_bin_max(r, (uint32_t)op_len()); NEUT(n == 0, "returned %u", n); if (mpack_reader_error(r) == mpack_ok) opened(mpack_type_bin, n); } else { OPN(mpack_expect_bin_size_buf); uint32_t b = (uint32_t)op_len(); mpack_expect_bin_size_buf(r, scratch(b), b); } return; }
    case 81: { OPN(mpack_expect_tag); mpack_expect_tag(r, coin() ? mpack_tag_make_nil() : coin() ? mpack_tag_make_uint(draw(4)) : mpack_tag_make_array((uint32_t)draw(4))); return; }
    case 82: { const char* s[10]; memcpy(s, OP_STRINGS, sizeof s); size_t c = 1 + (size_t)draw(10), v; if (coin()) { OPN(mpack_expect_enum); v = mpack_expect_enum(r, s, c); } else { OPN(mpack_expect_enum_optional); v = mpack_expect_enum_optional(r, s, c); } NEUT(v == c, "returned %zu of %zu", v, c); CHECK(v <= c, "index %zu of %zu", v, c); return; }
    case 83: { const char* s[10]; memcpy(s, OP_STRINGS, sizeof s); bool f[10]; for (auto& x : f) x = coin(); size_t c = 1 + (size_t)draw(10), v; if (coin()) { OPN(mpack_expect_key_cstr); v = mpack_expect_key_cstr(r, s, f, c); } else { OPN(mpack_expect_key_uint); v = mpack_expect_key_uint(r, f, c); } NEUT(v == c, "returned %zu of %zu", v, c); CHECK(v <= c, "index %zu of %zu", v, c); return; }
    }
}
#undef NEUT
#undef NEUTI
#undef RNG

// ------------------------------------------------------------------- nodes
#define NNEUT(cond, ...) do { if (mpack_node_error(n) != mpack_ok && !(cond)) { char nb_[256]; snprintf(nb_, sizeof nb_, __VA_ARGS__); pbt::fail("%s in error state %s: %s", op_name, err_name(mpack_node_error(n)), nb_); } } while (0)
#define NNEUTI(x) do { OPN(x); auto v_ = x(n); NNEUT(v_ == 0, "returned %lld", (long long)v_); } while (0)
static const int NODE_OPS = 52;
static void node_op(mpack_node_t n, std::vector<mpack_node_t>* found = nullptr, int forced = -1) {
    using namespace pbt;
    int op = forced >= 0 ? forced : (int)draw(NODE_OPS);
    auto got = [&](mpack_node_t m) { NNEUT(mpack_node_type(m) == mpack_type_nil && mpack_node_is_nil(m) && !mpack_node_is_missing(m), "returned a node that is not nil"); if (mpack_node_error(n) == mpack_ok && found && found->size() < 64) found->push_back(m); };
    switch (op) {
    case 0: { OPN(mpack_node_tag); mpack_tag_t t = mpack_node_tag(n); NNEUT(t.type == mpack_type_nil, "returned type %d", (int)t.type); return; }
    case 1: { OPN(mpack_node_type); mpack_type_t t = mpack_node_type(n); NNEUT(t == mpack_type_nil, "returned type %d", (int)t); return; }
    case 2: { OPN(mpack_node_is_nil); bool b = mpack_node_is_nil(n); NNEUT(b, "returned false"); return; }
    case 3: { OPN(mpack_node_is_missing); bool b = mpack_node_is_missing(n); NNEUT(!b, "returned true"); return; }
    case 4: { OPN(mpack_node_nil); mpack_node_nil(n); return; }
    case 5: { OPN(mpack_node_missing); mpack_node_missing(n); return; }
    case 6: { OPN(mpack_node_bool); bool b = mpack_node_bool(n); NNEUT(!b, "returned true"); return; }
    case 7: { OPN(mpack_node_true); if (coin()) mpack_node_true(n); else mpack_node_false(n); return; }
    case 8: NNEUTI(mpack_node_u8); return;
    case 9: NNEUTI(mpack_node_i8); return;
    case 10: NNEUTI(mpack_node_u16); return;
    case 11: NNEUTI(mpack_node_i16); return;
    case 12: NNEUTI(mpack_node_u32); return;
    case 13: NNEUTI(mpack_node_i32); return;
    case 14: NNEUTI(mpack_node_u64); return;
    case 15: NNEUTI(mpack_node_i64); return;
    case 16: NNEUTI(mpack_node_uint); return;
    case 17: NNEUTI(mpack_node_int); return;
#if MPACK_FLOAT
    case 18: NNEUTI(mpack_node_float); return;
    case 19: NNEUTI(mpack_node_float_strict); return;
#endif
#if MPACK_DOUBLE
    case 20: NNEUTI(mpack_node_double); return;
    case 21: NNEUTI(mpack_node_double_strict); return;
#endif
#if MPACK_EXTENSIONS
    case 22: { OPN(mpack_node_timestamp); mpack_timestamp_t t = mpack_node_timestamp(n); NNEUT(t.seconds == 0 && t.nanoseconds == 0, "returned %lld.%u", (long long)t.seconds, t.nanoseconds); return; }
    case 23: NNEUTI(mpack_node_timestamp_seconds); return;
    case 24: NNEUTI(mpack_node_timestamp_nanoseconds); return;
    case 25: NNEUTI(mpack_node_exttype); return;
#endif
    case 26: { OPN(mpack_node_check_utf8); mpack_node_check_utf8(n); return; }
    case 27: { OPN(mpack_node_check_utf8_cstr); mpack_node_check_utf8_cstr(n); return; }
    case 28: NNEUTI(mpack_node_bin_size); return;
    case 29: NNEUTI(mpack_node_data_len); return;
    case 30: NNEUTI(mpack_node_strlen); return;
    case 31: { OPN(mpack_node_str); const char* p = mpack_node_str(n); NNEUT(p == NULL, "returned a pointer"); (void)p; return; }
    case 32: { OPN(mpack_node_data); const char* p = mpack_node_data(n); NNEUT(p == NULL, "returned a pointer"); if (mpack_node_error(n) == mpack_ok) { uint32_t l = mpack_node_data_len(n); if (l) { volatile char c = p[0]; c = p[l - 1]; (void)c; } } return; }
    case 33: { OPN(mpack_node_bin_data); const char* p = mpack_node_bin_data(n); NNEUT(p == NULL, "returned a pointer"); (void)p; return; }
    case 34: { OPN(mpack_node_copy_data); size_t b = op_len(); size_t k = mpack_node_copy_data(n, b ? scratch(b) : NULL, b); NNEUT(k == 0, "returned %zu", k); CHECK(k <= b, "copied %zu into %zu", k, b); return; }
    case 35: { OPN(mpack_node_copy_utf8); size_t b = op_len(); size_t k = mpack_node_copy_utf8(n, b ? scratch(b) : NULL, b); NNEUT(k == 0, "returned %zu", k); CHECK(k <= b, "copied %zu into %zu", k, b); return; }
    case 36: { OPN(mpack_node_copy_cstr); size_t b = 1 + op_len(); char* p = scratch(b); mpack_node_copy_cstr(n, p, b); NNEUT(p[0] == 0, "buffer starts with 0x%02x", (unsigned char)p[0]); CHECK(strnlen(p, b) < b, "no terminator"); return; }
    case 37: { OPN(mpack_node_copy_utf8_cstr); size_t b = 1 + op_len(); char* p = scratch(b); mpack_node_copy_utf8_cstr(n, p, b); NNEUT(p[0] == 0, "buffer starts with 0x%02x", (unsigned char)p[0]); CHECK(strnlen(p, b) < b, "no terminator"); return; }
#ifdef MPACK_MALLOC
    case 38: { OPN(mpack_node_data_alloc); char* p = mpack_node_data_alloc(n, op_len()); NNEUT(p == NULL, "returned a block"); if (p) vt_free(p); return; }
    case 39: { OPN(mpack_node_cstr_alloc); size_t m = 1 + op_len(); char* p = coin() ? mpack_node_cstr_alloc(n, m) : mpack_node_utf8_cstr_alloc(n, m); NNEUT(p == NULL, "returned a block"); if (p) { CHECK(strlen(p) < m, "string longer than the limit"); vt_free(p); } return; }
#endif
    case 40: { const char* s[10]; memcpy(s, OP_STRINGS, sizeof s); size_t c = 1 + (size_t)draw(10), v; if (coin()) { OPN(mpack_node_enum); v = mpack_node_enum(n, s, c); } else { OPN(mpack_node_enum_optional); v = mpack_node_enum_optional(n, s, c); } NNEUT(v == c, "returned %zu of %zu", v, c); return; }
    case 41: { OPN(mpack_node_array_length); size_t c = mpack_node_array_length(n); NNEUT(c == 0, "returned %zu", c); return; }
    case 42: { OPN(mpack_node_array_at); got(mpack_node_array_at(n, chance(1, 20) ? (size_t)-1 : (size_t)draw(6))); return; }
    case 43: { OPN(mpack_node_map_count); size_t c = mpack_node_map_count(n); NNEUT(c == 0, "returned %zu", c); return; }
    case 44: { OPN(mpack_node_map_key_at); got(mpack_node_map_key_at(n, (size_t)draw(4))); return; }
    case 45: { OPN(mpack_node_map_value_at); got(mpack_node_map_value_at(n, chance(1, 20) ? ((size_t)-1) / 2 + 1 : (size_t)draw(4))); return; }
    case 46: { int64_t k = (int64_t)draw(8) - 3; if (coin()) { OPN(mpack_node_map_int); got(mpack_node_map_int(n, k)); } else { OPN(mpack_node_map_int_optional); got(mpack_node_map_int_optional(n, k)); } return; }
    case 47: { uint64_t k = draw(6); if (coin()) { OPN(mpack_node_map_uint); got(mpack_node_map_uint(n, k)); } else { OPN(mpack_node_map_uint_optional); got(mpack_node_map_uint_optional(n, k)); } return; }
    case 48: { const char* s = OP_STRINGS[draw(10)]; if (coin()) { OPN(mpack_node_map_str); got(mpack_node_map_str(n, s, strlen(s))); } else { OPN(mpack_node_map_str_optional); got(mpack_node_map_str_optional(n, s, strlen(s))); } return; }
    case 49: { const char* s = OP_STRINGS[draw(10)]; if (coin()) { OPN(mpack_node_map_cstr); got(mpack_node_map_cstr(n, s)); } else { OPN(mpack_node_map_cstr_optional); got(mpack_node_map_cstr_optional(n, s)); } return; }
    case 50: { bool b; const char* s = OP_STRINGS[draw(10)]; switch (draw(4)) { case 0: OPN(mpack_node_map_contains_int); b = mpack_node_map_contains_int(n, (int64_t)draw(6) - 2); break; case 1: OPN(mpack_node_map_contains_uint); b = mpack_node_map_contains_uint(n, draw(6)); break; case 2: OPN(mpack_node_map_contains_str); b = mpack_node_map_contains_str(n, s, strlen(s)); break; default: OPN(mpack_node_map_contains_cstr); b = mpack_node_map_contains_cstr(n, s); } NNEUT(!b, "returned true"); return; }
#if MPACK_DEBUG && MPACK_STDIO
    case 51: { OPN(mpack_node_print_to_buffer); if (mpack_node_error(n) == mpack_ok) { size_t b = 1 + op_len(); char* p = scratch(b); mpack_node_print_to_buffer(n, p, b); CHECK(strnlen(p, b) < b, "print left no terminator"); } return; }
#endif
    }
}
#undef NNEUT
#undef NNEUTI
// ------------------------------------------------------------------- writer
// any single call; containers are not balanced, so only for writers in error
// or for fault runs without tracking
static const int WRITER_OPS = 34;
static void writer_op(mpack_writer_t* w, int forced = -1) {
    using namespace pbt;
    int op = forced >= 0 ? forced : (int)draw(WRITER_OPS);
    size_t n = op_len(); if (n > 5000) n = 5000;
    switch (op) {
    case 0: OPN(mpack_write_nil); mpack_write_nil(w); return;
    case 1: OPN(mpack_write_bool); mpack_write_bool(w, coin()); return;
    case 2: OPN(mpack_write_true); if (coin()) mpack_write_true(w); else mpack_write_false(w); return;
    case 3: OPN(mpack_write_i8); mpack_write_i8(w, (int8_t)draw(256)); return;
    case 4: OPN(mpack_write_i16); mpack_write_i16(w, (int16_t)draw(65536)); return;
    case 5: OPN(mpack_write_i32); mpack_write_i32(w, (int32_t)gen_i64()); return;
    case 6: OPN(mpack_write_i64); mpack_write_i64(w, gen_i64()); return;
    case 7: OPN(mpack_write_u8); mpack_write_u8(w, (uint8_t)draw(256)); return;
    case 8: OPN(mpack_write_u16); mpack_write_u16(w, (uint16_t)draw(65536)); return;
    case 9: OPN(mpack_write_u32); mpack_write_u32(w, (uint32_t)gen_u64()); return;
    case 10: OPN(mpack_write_u64); mpack_write_u64(w, gen_u64()); return;
#if MPACK_FLOAT
    case 11: OPN(mpack_write_float); mpack_write_float(w, 1.5f); return;
#endif
#if MPACK_DOUBLE
    case 12: OPN(mpack_write_double); mpack_write_double(w, 1.5); return;
#endif
    case 13: OPN(mpack_write_str); mpack_write_str(w, scratch(n, 'a'), (uint32_t)n); return;
    case 14: OPN(mpack_write_utf8); mpack_write_utf8(w, scratch(n, 'a'), (uint32_t)n); return;
    case 15: OPN(mpack_write_cstr); mpack_write_cstr(w, OP_STRINGS[draw(10)]); return;
    case 16: OPN(mpack_write_cstr_or_nil); mpack_write_cstr_or_nil(w, coin() ? NULL : "xyz"); return;
    case 17: OPN(mpack_write_utf8_cstr); mpack_write_utf8_cstr(w, "h\xc3\xa9"); return;
    case 18: OPN(mpack_write_utf8_cstr_or_nil); mpack_write_utf8_cstr_or_nil(w, coin() ? NULL : "xyz"); return;
    case 19: OPN(mpack_write_bin); mpack_write_bin(w, scratch(n, 'b'), (uint32_t)n); return;
#if MPACK_EXTENSIONS
    case 20: OPN(mpack_write_ext); mpack_write_ext(w, 5, scratch(n, 'e'), (uint32_t)n); return;
    case 21: OPN(mpack_write_timestamp); mpack_write_timestamp(w, gen_i64(), (uint32_t)draw(1000000000)); return;
    case 22: OPN(mpack_start_ext); mpack_start_ext(w, 3, (uint32_t)n); mpack_write_bytes(w, scratch(n), n); mpack_finish_ext(w); return;
#endif
    case 23: OPN(mpack_start_array); mpack_start_array(w, 1); mpack_write_nil(w); mpack_finish_array(w); return;
    case 24: OPN(mpack_start_map); mpack_start_map(w, 1); mpack_write_cstr(w, "k"); mpack_write_i32(w, -5); mpack_finish_map(w); return;
    case 25: OPN(mpack_start_str); mpack_start_str(w, (uint32_t)n); mpack_write_bytes(w, scratch(n, 'c'), n); mpack_finish_str(w); return;
    case 26: OPN(mpack_start_bin); mpack_start_bin(w, (uint32_t)n); mpack_write_bytes(w, scratch(n, 'c'), n); mpack_finish_bin(w); return;
    case 27: OPN(mpack_write_tag); mpack_write_tag(w, mpack_tag_make_uint(gen_u64())); return;
    case 28: OPN(mpack_write_object_bytes); mpack_write_object_bytes(w, "\x93\x01\x02\x03", 4); return;
#if MPACK_BUILDER
    case 29: OPN(mpack_build_array); mpack_build_array(w); mpack_write_nil(w); mpack_build_map(w); mpack_write_u8(w, 1); mpack_start_array(w, 1); mpack_write_str(w, scratch(n, 'd'), (uint32_t)n); mpack_finish_array(w); mpack_complete_map(w); mpack_complete_array(w); return;
    case 30: OPN(mpack_build_map); mpack_build_map(w); mpack_complete_map(w); return;
    case 33: OPN(mpack_build_in_array); mpack_build_array(w); mpack_start_array(w, 2); mpack_build_map(w); mpack_write_cstr(w, "q"); mpack_write_bin(w, scratch(n, 'd'), (uint32_t)n); mpack_complete_map(w); mpack_write_nil(w); mpack_finish_array(w); mpack_complete_array(w); return;
#endif
    case 31: OPN(mpack_writer_sizes); { size_t u = mpack_writer_buffer_used(w), s = mpack_writer_buffer_size(w), l = mpack_writer_buffer_left(w); (void)u; (void)s; (void)l; } return;
    case 32: OPN(kv); mpack_start_map(w, 1); mpack_write_kv(w, "key", (int)5); mpack_finish_map(w); return;
    }
}
