/* A behaviour probe: runs jobs read from stdin against one build of the
 * library and writes a transcript of everything observable. It is compiled
 * once per configuration (as C89 to C17 or C++98 to C++17) and must give the
 * same transcript in all of them. */
#include "mpack/mpack.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>

typedef unsigned char uc;
static const uc* jp; static size_t jn;
static char out[1 << 20]; static size_t on;
static void o_raw(const void* p, size_t n) { if (on + n > sizeof out - 8) n = sizeof out - 8 - on; if (n) memcpy(out + on, p, n); on += n; }
static void o8(unsigned v) { char c = (char)v; o_raw(&c, 1); }
static void o64(uint64_t v) { int i; char b[8]; for (i = 0; i < 8; i++) b[i] = (char)(v >> (8 * i)); o_raw(b, 8); }
static void obytes(const void* p, size_t n) { o64(n); o_raw(p, n); }
static int lenient; /* the first element is malformed: a typed read may notice that or only that it is not what is wanted */
static void oerr(unsigned e) { if (lenient && (e == (unsigned)mpack_error_io || e == (unsigned)mpack_error_invalid || e == (unsigned)mpack_error_unsupported)) e = (unsigned)mpack_error_type; o8('e'); o8(e); }
static unsigned g8(void) { unsigned v = 0; if (jn) { v = *jp++; jn--; } return v; }
static uint64_t g64(void) { int i; uint64_t v = 0; for (i = 0; i < 8; i++) v |= (uint64_t)g8() << (8 * i); return v; }
static uint32_t g32(void) { int i; uint32_t v = 0; for (i = 0; i < 4; i++) v |= (uint32_t)g8() << (8 * i); return v; }
static char* gbytes(size_t* n) { char* p; *n = g32(); if (*n > jn) *n = jn; p = (char*)malloc(*n + 1); memcpy(p, jp, *n); p[*n] = 0; jp += *n; jn -= *n; return p; }
static void* xalloc(size_t n) { void* p = malloc(n ? n : 1); memset(p, 0x5c, n ? n : 1); return p; }

enum { CAP_W = 1, CAP_R = 2, CAP_E = 4, CAP_N = 8, CAP_EXT = 16, CAP_COMPAT = 32, CAP_BUILDER = 64, CAP_FLOAT = 128, CAP_DOUBLE = 256, CAP_MALLOC = 512, CAP_PRINT = 1024, CAP_STDIO = 2048, CAP_64 = 4096, CAP_STRINGS = 8192 };
static uint32_t caps(void) {
    uint32_t c = 0;
#if MPACK_WRITER
    c |= CAP_W;
#endif
#if MPACK_READER
    c |= CAP_R;
#endif
#if MPACK_EXPECT
    c |= CAP_E;
#endif
#if MPACK_NODE
    c |= CAP_N;
#endif
#if MPACK_EXTENSIONS
    c |= CAP_EXT;
#endif
#if MPACK_COMPATIBILITY
    c |= CAP_COMPAT;
#endif
#if MPACK_WRITER && MPACK_BUILDER
    c |= CAP_BUILDER;
#endif
#if MPACK_FLOAT
    c |= CAP_FLOAT;
#endif
#if MPACK_DOUBLE
    c |= CAP_DOUBLE;
#endif
#ifdef MPACK_MALLOC
    c |= CAP_MALLOC;
#endif
#if MPACK_DEBUG && MPACK_STDIO
    c |= CAP_PRINT;
#endif
#if MPACK_STDIO
    c |= CAP_STDIO;
#endif
#if MPACK_STRINGS
    c |= CAP_STRINGS;
#endif
    if (sizeof(void*) == 8) c |= CAP_64;
    return c;
}
static void pfree(void* p) {
#ifdef MPACK_MALLOC
    MPACK_FREE(p);
#else
    (void)p;
#endif
}

/* ------------------------------------------------------------ tags */
static void o_tag(mpack_tag_t t) {
    o8('t'); o8((unsigned)t.type);
    switch (t.type) {
    case mpack_type_bool: o8(mpack_tag_bool_value(&t)); break;
    case mpack_type_int: o64((uint64_t)mpack_tag_int_value(&t)); break;
    case mpack_type_uint: o64(mpack_tag_uint_value(&t)); break;
    case mpack_type_float: {
#if MPACK_FLOAT
        float f = mpack_tag_float_value(&t); uint32_t v; memcpy(&v, &f, 4); o64(v);
#else
        o64(mpack_tag_raw_float_value(&t));
#endif
        break; }
    case mpack_type_double: {
#if MPACK_DOUBLE
        double f = mpack_tag_double_value(&t); uint64_t v; memcpy(&v, &f, 8); o64(v);
#else
        o64(mpack_tag_raw_double_value(&t));
#endif
        break; }
    case mpack_type_str: o64(mpack_tag_str_length(&t)); o64(mpack_tag_bytes(&t)); break;
    case mpack_type_bin: o64(mpack_tag_bin_length(&t)); break;
    case mpack_type_array: o64(mpack_tag_array_count(&t)); break;
    case mpack_type_map: o64(mpack_tag_map_count(&t)); break;
#if MPACK_EXTENSIONS
    case mpack_type_ext: o8((uc)mpack_tag_ext_exttype(&t)); o64(mpack_tag_ext_length(&t)); break;
#endif
    default: break;
    }
}
static mpack_tag_t g_tag(unsigned k, uint64_t v) {
    switch (k) {
    case 0: return mpack_tag_make_nil();
    case 1: return mpack_tag_make_bool(v != 0);
    case 2: return mpack_tag_make_int((int64_t)v);
    case 3: return mpack_tag_make_uint(v);
    case 4: {
#if MPACK_FLOAT
        uint32_t r = (uint32_t)v; float f; memcpy(&f, &r, 4); return mpack_tag_make_float(f);
#else
        return mpack_tag_make_raw_float((uint32_t)v);
#endif
        }
    case 5: {
#if MPACK_DOUBLE
        double f; memcpy(&f, &v, 8); return mpack_tag_make_double(f);
#else
        return mpack_tag_make_raw_double(v);
#endif
        }
    case 6: return mpack_tag_make_str((uint32_t)v);
    case 7: return mpack_tag_make_bin((uint32_t)v);
    case 8: return mpack_tag_make_array((uint32_t)v);
    case 9: return mpack_tag_make_map((uint32_t)v);
#if MPACK_EXTENSIONS
    case 10: return mpack_tag_make_ext((int8_t)(v >> 32), (uint32_t)v);
#endif
    default: return mpack_tag_make_nil();
    }
}
static void job_tags(void) {
    int n = (int)g8(), i, j; mpack_tag_t t[256];
    for (i = 0; i < n; i++) { unsigned k = g8(); t[i] = g_tag(k, g64()); o_tag(t[i]); }
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) { int c = mpack_tag_cmp(t[i], t[j]); o8(mpack_tag_equal(t[i], t[j])); o8(c < 0 ? 1 : c > 0 ? 2 : 0); }
}

/* ------------------------------------------------------------ writer */
#if MPACK_WRITER
static char* sink; static size_t sink_n, sink_cap; static size_t flushes;
static void on_flush(mpack_writer_t* w, const char* p, size_t n) {
    (void)w;
    flushes++;
    if (sink_n + n > sink_cap) { sink_cap = (sink_n + n) * 2; sink = (char*)realloc(sink, sink_cap); }
    memcpy(sink + sink_n, p, n); sink_n += n;
}
static void w_op(mpack_writer_t* w, unsigned op) {
    size_t n = 0; char* p;
    switch (op) {
    case 1: mpack_write_nil(w); break;
    case 2: mpack_write_true(w); break;
    case 3: mpack_write_false(w); break;
    case 4: mpack_write_bool(w, g8() != 0); break;
    case 5: mpack_write_u8(w, (uint8_t)g64()); break;
    case 6: mpack_write_u16(w, (uint16_t)g64()); break;
    case 7: mpack_write_u32(w, (uint32_t)g64()); break;
    case 8: mpack_write_u64(w, g64()); break;
    case 9: mpack_write_i8(w, (int8_t)g64()); break;
    case 10: mpack_write_i16(w, (int16_t)g64()); break;
    case 11: mpack_write_i32(w, (int32_t)g64()); break;
    case 12: mpack_write_i64(w, (int64_t)g64()); break;
    case 13: mpack_write_uint(w, g64()); break;
    case 14: mpack_write_int(w, (int64_t)g64()); break;
    case 15: { uint32_t r = (uint32_t)g64();
#if MPACK_FLOAT
        float f; memcpy(&f, &r, 4); mpack_write_float(w, f);
#else
        mpack_write_raw_float(w, r);
#endif
        break; }
    case 16: { uint64_t r = g64();
#if MPACK_DOUBLE
        double f; memcpy(&f, &r, 8); mpack_write_double(w, f);
#else
        mpack_write_raw_double(w, r);
#endif
        break; }
    case 17: p = gbytes(&n); mpack_write_str(w, p, (uint32_t)n); free(p); break;
    case 18: p = gbytes(&n); mpack_write_utf8(w, p, (uint32_t)n); free(p); break;
    case 19: p = gbytes(&n); mpack_write_cstr(w, p); free(p); break;
    case 20: p = gbytes(&n); mpack_write_cstr_or_nil(w, n ? p : NULL); free(p); break;
    case 21: p = gbytes(&n); mpack_write_utf8_cstr(w, p); free(p); break;
    case 22: p = gbytes(&n); mpack_write_utf8_cstr_or_nil(w, n ? p : NULL); free(p); break;
    case 23: p = gbytes(&n); mpack_write_bin(w, p, (uint32_t)n); free(p); break;
#if MPACK_EXTENSIONS
    case 24: { int8_t t = (int8_t)g8(); p = gbytes(&n); mpack_write_ext(w, t, p, (uint32_t)n); free(p); break; }
    case 25: { int64_t s = (int64_t)g64(); uint32_t ns = g32(); mpack_write_timestamp(w, s, ns); break; }
    case 26: { mpack_timestamp_t t; t.seconds = (int64_t)g64(); t.nanoseconds = 0; if (g8()) mpack_write_timestamp_struct(w, t); else mpack_write_timestamp_seconds(w, t.seconds); break; }
#endif
    case 27: mpack_start_array(w, g32()); break;
    case 28: mpack_start_map(w, g32()); break;
    case 29: mpack_finish_array(w); break;
    case 30: mpack_finish_map(w); break;
#if MPACK_BUILDER
    case 31: mpack_build_array(w); break;
    case 32: mpack_build_map(w); break;
    case 33: mpack_complete_array(w); break;
    case 34: mpack_complete_map(w); break;
#endif
    case 35: p = gbytes(&n); mpack_write_object_bytes(w, p, n); free(p); break;
    case 36: case 37: case 38: { size_t c, i = 0; int8_t t = (int8_t)g8(); c = 1 + g32(); p = gbytes(&n);
        if (op == 36) mpack_start_str(w, (uint32_t)n); else if (op == 37) mpack_start_bin(w, (uint32_t)n);
#if MPACK_EXTENSIONS
        else mpack_start_ext(w, t, (uint32_t)n);
#endif
        (void)t;
        while (i < n) { size_t k = n - i < c ? n - i : c; mpack_write_bytes(w, p + i, k); i += k; }
        if (op == 36) mpack_finish_str(w); else if (op == 37) mpack_finish_bin(w);
#if MPACK_EXTENSIONS
        else mpack_finish_ext(w);
#endif
        free(p); break; }
    case 39: mpack_writer_flush_message(w); break;
#if MPACK_COMPATIBILITY
    case 40: mpack_writer_set_version(w, g8() ? mpack_version_v4 : mpack_version_v5); break;
#endif
    case 41: o8('u'); o64(mpack_writer_error(w) == mpack_ok ? mpack_writer_buffer_used(w) : 0); break;
    case 42: { unsigned k = g8(); mpack_write_tag(w, g_tag(k, g64())); break; }
    case 43: if (mpack_writer_error(w) != mpack_ok) break; o64(mpack_writer_buffer_size(w)); o64(mpack_writer_buffer_left(w)); break;
    default: break;
    }
}
static void job_write(void) {
    unsigned kind = g8(); size_t size = g32(); mpack_writer_t w; char* buf = NULL; char* gd = NULL; size_t gs = 0; unsigned op; mpack_error_t e, e2; size_t used;
    sink_n = 0; flushes = 0;
    if (kind == 0) { buf = (char*)xalloc(size); mpack_writer_init(&w, buf, size); }
    else if (kind == 1) { buf = (char*)xalloc(size); mpack_writer_init(&w, buf, size); mpack_writer_set_flush(&w, on_flush); }
    else {
#ifdef MPACK_MALLOC
        mpack_writer_init_growable(&w, &gd, &gs);
#else
        return;
#endif
    }
    while ((op = g8()) != 0) w_op(&w, op);
    e = mpack_writer_error(&w); used = e == mpack_ok && kind == 0 ? mpack_writer_buffer_used(&w) : 0;
    e2 = mpack_writer_destroy(&w);
    oerr((unsigned)e); oerr((unsigned)e2);
    if (e2 == mpack_ok) {
        if (kind == 0) obytes(buf, used); else if (kind == 1) obytes(sink, sink_n); else obytes(gd, gs);
    }
    free(buf); if (gd) pfree(gd);
}
#else
static void job_write(void) {}
#endif

/* ------------------------------------------------------------ reader */
#if MPACK_READER
static char* src; static size_t src_n, src_pos, src_piece; static unsigned src_mode;
static size_t on_fill(mpack_reader_t* r, char* p, size_t n) {
    (void)r;
    size_t k = src_n - src_pos;
    if (k > src_piece) k = src_piece;
    if (k > n) k = n;
    if (k == 0 && (src_mode & 4)) return (size_t)-1;
    memcpy(p, src + src_pos, k); src_pos += k; return k;
}
static void on_skip(mpack_reader_t* r, size_t n) { if (n > src_n - src_pos) { src_pos = src_n; mpack_reader_flag_error(r, mpack_error_io); } else src_pos += n; }
/* mode bit 0: stream, bit 1: skip function, bit 2: end of input is an error of the source */
static char* rbuf; static size_t rbuf_n;
static void r_open(mpack_reader_t* r, unsigned mode, size_t piece, size_t bufn) {
    src_pos = 0; src_piece = piece; src_mode = mode; rbuf = NULL; rbuf_n = bufn;
    if (mode & 1) { rbuf = (char*)xalloc(bufn); mpack_reader_init(r, rbuf, bufn, 0); mpack_reader_set_fill(r, on_fill); if (mode & 2) mpack_reader_set_skip(r, on_skip); }
    else mpack_reader_init_data(r, src, src_n);
}
static void r_close(mpack_reader_t* r) {
    if (mpack_reader_error(r) == mpack_ok) mpack_reader_flag_error(r, mpack_error_data); /* elements may be open */
    mpack_reader_destroy(r); free(rbuf); rbuf = NULL;
}
static uint64_t sel; static unsigned nsel(unsigned n) { unsigned v; sel = sel * UINT64_C(6364136223846793005) + UINT64_C(1442695040888963407); v = (unsigned)(sel >> 40); return v % n; }
static void r_data(mpack_reader_t* r, unsigned type, uint32_t n) {
    unsigned how = nsel(9); char* p; size_t i = 0; const char* q;
    if (n > 400000) how = 0;
    if (type != mpack_type_str && how >= 4 && how <= 6) how = 1; /* text reads are for strings */
    if ((how == 3 || how == 4) && (src_mode & 1) && n > rbuf_n) how = 0;
#ifndef MPACK_MALLOC
    if (how == 7) how = 1;
#endif
    switch (how) {
    case 0: mpack_skip_bytes(r, n); break;
    case 1: p = (char*)xalloc(n); mpack_read_bytes(r, p, n); if (mpack_reader_error(r) == mpack_ok) obytes(p, n); free(p); break;
    case 2: p = (char*)xalloc(n); { size_t step = 1 + nsel(40); while (i < n && mpack_reader_error(r) == mpack_ok) { size_t k = n - i < step ? n - i : step; mpack_read_bytes(r, p + i, k); i += k; } } if (mpack_reader_error(r) == mpack_ok) obytes(p, n); free(p); break;
    case 3: q = mpack_read_bytes_inplace(r, n); if (mpack_reader_error(r) == mpack_ok) obytes(q, n); break;
    case 4: q = mpack_read_utf8_inplace(r, n); if (mpack_reader_error(r) == mpack_ok) obytes(q, n); break;
    case 5: p = (char*)xalloc(n); mpack_read_utf8(r, p, n); if (mpack_reader_error(r) == mpack_ok) obytes(p, n); free(p); break;
    case 6: p = (char*)xalloc((size_t)n + 1); if (nsel(2)) mpack_read_cstr(r, p, (size_t)n + 1, n); else mpack_read_utf8_cstr(r, p, (size_t)n + 1, n); obytes(p, strlen(p)); free(p); break;
    case 7:
#ifdef MPACK_MALLOC
        p = mpack_read_bytes_alloc(r, n); if (mpack_reader_error(r) == mpack_ok) obytes(p, n); if (p) pfree(p);
#endif
        break;
    default: { size_t k = n / 2; mpack_skip_bytes(r, k); p = (char*)xalloc(n - k); mpack_read_bytes(r, p, n - k); if (mpack_reader_error(r) == mpack_ok) obytes(p, n - k); free(p); break; }
    }
    if (mpack_reader_error(r) != mpack_ok) return;
    switch (type) { case mpack_type_str: mpack_done_str(r); break; case mpack_type_bin: mpack_done_bin(r); break;
#if MPACK_EXTENSIONS
    case mpack_type_ext: mpack_done_ext(r); break;
#endif
    default: break; }
}
static int r_walk(mpack_reader_t* r, int depth) {
    mpack_tag_t t; uint64_t i, n;
    if (depth > 60 || nsel(12) == 0) { mpack_discard(r); o8('d'); return mpack_reader_error(r) == mpack_ok; }
    if (nsel(6) == 0) { t = mpack_peek_tag(r); o_tag(t); }
    t = mpack_read_tag(r); o_tag(t);
    if (mpack_reader_error(r) != mpack_ok) return 0;
    switch (t.type) {
    case mpack_type_str: case mpack_type_bin:
#if MPACK_EXTENSIONS
    case mpack_type_ext:
        if (t.type == mpack_type_ext && mpack_tag_ext_exttype(&t) == MPACK_EXTTYPE_TIMESTAMP && nsel(2)) {
            mpack_timestamp_t s = mpack_read_timestamp(r, mpack_tag_ext_length(&t)); o64((uint64_t)s.seconds); o64(s.nanoseconds); break; }
#endif
        r_data(r, (unsigned)t.type, mpack_tag_bytes(&t)); break;
    case mpack_type_array: case mpack_type_map:
        n = t.type == mpack_type_map ? (uint64_t)mpack_tag_map_count(&t) * 2 : mpack_tag_array_count(&t);
        for (i = 0; i < n; i++) if (!r_walk(r, depth + 1)) return 0;
        if (t.type == mpack_type_map) mpack_done_map(r); else mpack_done_array(r);
        break;
    default: break;
    }
    return mpack_reader_error(r) == mpack_ok;
}
static void job_read(void) {
    unsigned mode = g8(); size_t piece = 1 + g32(), bufn = g32(); int i; mpack_reader_t r;
    sel = g64(); src = gbytes(&src_n); r_open(&r, mode, piece, bufn);
    for (i = 0; i < 8 && r_walk(&r, 0); i++) { o8('m');
        if (!(mode & 1)) { const char* p = NULL; size_t n = mpack_reader_remaining(&r, &p); o64(n); o64((uint64_t)(p - src)); if (n == 0) break; } }
    oerr((unsigned)mpack_reader_error(&r)); r_close(&r); free(src);
}
#if MPACK_EXPECT
#define E_COUNT 5
#define X(stmt) do { r_open(&r, mode, piece, bufn); stmt; oerr((unsigned)mpack_reader_error(&r)); r_close(&r); } while (0)
#define XI(f) X(o64((uint64_t)f(&r)))
#define XR(f, lo, hi) X(o64((uint64_t)f(&r, lo, hi)))
static void e_basic(unsigned mode, size_t piece, size_t bufn, int64_t key) {
    mpack_reader_t r; char b[80]; uint32_t n; size_t z; bool found[4]; const char* strs[4]; int k;
    XI(mpack_expect_u8); XI(mpack_expect_u16); XI(mpack_expect_u32); XI(mpack_expect_u64); XI(mpack_expect_i8); XI(mpack_expect_i16); XI(mpack_expect_i32); XI(mpack_expect_i64); XI(mpack_expect_uint); XI(mpack_expect_int);
    XR(mpack_expect_u8_range, (uint8_t)(key & 0x7f), 200); XR(mpack_expect_u16_range, (uint16_t)(key & 0x7fff), 50000); XR(mpack_expect_u32_range, (uint32_t)(key & 0x7fffffff), UINT32_C(4000000000)); XR(mpack_expect_u64_range, (uint64_t)key >> 1, UINT64_MAX - 5);
    XR(mpack_expect_i8_range, (int8_t)-(int)(key & 0x7f), 100); XR(mpack_expect_i16_range, -5, (int16_t)(key & 0x7fff)); XR(mpack_expect_i32_range, -(int32_t)(key & 0x7fffffff), 10000); XR(mpack_expect_i64_range, key < 0 ? key : -key, INT64_MAX - 1); XR(mpack_expect_uint_range, 3, 4000000000u); XR(mpack_expect_int_range, -100000, 100000);
    X(o64(mpack_expect_u8_max(&r, 100))); X(o64(mpack_expect_u16_max(&r, 1000))); X(o64(mpack_expect_u32_max(&r, 70000))); X(o64(mpack_expect_u64_max(&r, UINT64_C(1) << 40))); X(o64(mpack_expect_uint_max(&r, 70000)));
    X(o64((uint64_t)mpack_expect_i8_max(&r, 100))); X(o64((uint64_t)mpack_expect_i16_max(&r, 1000))); X(o64((uint64_t)mpack_expect_i32_max(&r, 70000))); X(o64((uint64_t)mpack_expect_i64_max(&r, INT64_C(1) << 40))); X(o64((uint64_t)mpack_expect_int_max(&r, 70000)));
    X(mpack_expect_uint_match(&r, (uint64_t)key)); X(mpack_expect_int_match(&r, key)); X(mpack_expect_nil(&r)); X(o8(mpack_expect_bool(&r))); X(mpack_expect_true(&r)); X(mpack_expect_false(&r));
    XI(mpack_expect_map); XR(mpack_expect_map_range, 1, 20); X(o64(mpack_expect_map_max(&r, 5))); X(mpack_expect_map_match(&r, 2)); X((n = 9, o8(mpack_expect_map_or_nil(&r, &n)), o64(n))); X((n = 9, o8(mpack_expect_map_max_or_nil(&r, 3, &n)), o64(n)));
    XI(mpack_expect_array); XR(mpack_expect_array_range, 1, 20); X(o64(mpack_expect_array_max(&r, 5))); X(mpack_expect_array_match(&r, 2)); X((n = 9, o8(mpack_expect_array_or_nil(&r, &n)), o64(n))); X((n = 9, o8(mpack_expect_array_max_or_nil(&r, 3, &n)), o64(n)));
    XI(mpack_expect_str); X(o64(mpack_expect_str_max(&r, 9))); X(mpack_expect_str_length(&r, 3)); X(mpack_expect_str_match(&r, "abc", 3)); X(mpack_expect_cstr_match(&r, "key"));
    X((memset(b, 0, sizeof b), z = mpack_expect_str_buf(&r, b, sizeof b), obytes(b, z))); X((memset(b, 0, sizeof b), z = mpack_expect_utf8(&r, b, sizeof b), obytes(b, z)));
    X((mpack_expect_cstr(&r, b, 20), obytes(b, strlen(b)))); X((mpack_expect_utf8_cstr(&r, b, 20), obytes(b, strlen(b))));
    XI(mpack_expect_bin); X(o64(mpack_expect_bin_max(&r, 9))); X(mpack_expect_bin_size(&r, 4)); X((memset(b, 0, sizeof b), z = mpack_expect_bin_buf(&r, b, sizeof b), obytes(b, z))); X((memset(b, 0, sizeof b), mpack_expect_bin_size_buf(&r, b, 4), obytes(b, mpack_reader_error(&r) == mpack_ok ? 4 : 0)));
    X(mpack_expect_tag(&r, mpack_tag_make_uint((uint64_t)key))); X(mpack_expect_tag(&r, mpack_tag_make_array(2))); X(mpack_expect_tag(&r, mpack_tag_make_nil()));
    strs[0] = "abc"; strs[1] = "key"; strs[2] = ""; strs[3] = "x";
    X(o64(mpack_expect_enum(&r, strs, 4))); X(o64(mpack_expect_enum_optional(&r, strs, 4)));
        for (k = 0; k < 4; k++) found[k] = k == 1; X(o64(mpack_expect_key_cstr(&r, strs, found, 4)));
    for (k = 0; k < 4; k++) found[k] = k == 3; X(o64(mpack_expect_key_uint(&r, found, 4)));
}
static void e_float(unsigned mode, size_t piece, size_t bufn) {
#if MPACK_FLOAT
    mpack_reader_t r; float f; uint32_t v;
    X((f = mpack_expect_float_strict(&r), memcpy(&v, &f, 4), o64(v)));
#else
    (void)mode; (void)piece; (void)bufn;
#endif
}
static void e_double(unsigned mode, size_t piece, size_t bufn) {
#if MPACK_FLOAT && MPACK_DOUBLE
    mpack_reader_t r; float f; uint32_t v; double d; uint64_t u;
    X((f = mpack_expect_float(&r), memcpy(&v, &f, 4), o64(v))); X((f = mpack_expect_float_range(&r, -100.0f, 1e10f), memcpy(&v, &f, 4), o64(v)));
    X((d = mpack_expect_double(&r), memcpy(&u, &d, 8), o64(u))); X((d = mpack_expect_double_strict(&r), memcpy(&u, &d, 8), o64(u))); X((d = mpack_expect_double_range(&r, -100.0, 1e100), memcpy(&u, &d, 8), o64(u)));
#else
    (void)mode; (void)piece; (void)bufn;
#endif
}
static void e_ext(unsigned mode, size_t piece, size_t bufn) {
#if MPACK_EXTENSIONS
    mpack_reader_t r; int8_t t; uint32_t n; mpack_timestamp_t s; char b[80]; size_t z;
    X((s = mpack_expect_timestamp(&r), o64((uint64_t)s.seconds), o64(s.nanoseconds))); X(o64((uint64_t)mpack_expect_timestamp_truncate(&r)));
    X((t = 9, n = mpack_expect_ext(&r, &t), o8((uc)t), o64(n))); X((t = 9, n = mpack_expect_ext_max(&r, &t, 10), o8((uc)t), o64(n))); X((t = 9, mpack_expect_ext_size(&r, &t, 4), o8((uc)t)));
    X((t = 9, z = mpack_expect_ext_buf(&r, &t, b, sizeof b), o8((uc)t), obytes(b, z)));
#else
    (void)mode; (void)piece; (void)bufn;
#endif
}
static void e_malloc(unsigned mode, size_t piece, size_t bufn) {
#ifdef MPACK_MALLOC
    mpack_reader_t r; char* p; size_t z; uint32_t n; int* a;
    X((p = mpack_expect_cstr_alloc(&r, 100), obytes(p ? p : "-", p ? strlen(p) : 1), pfree(p))); X((p = mpack_expect_utf8_cstr_alloc(&r, 100), obytes(p ? p : "-", p ? strlen(p) : 1), pfree(p)));
    X((z = 3, p = mpack_expect_bin_alloc(&r, 100, &z), obytes(p, p ? z : 0), pfree(p)));
    X((n = 3, a = mpack_expect_array_alloc(&r, int, 50, &n), o8(a != NULL), o64(n), pfree(a))); X((n = 3, a = mpack_expect_array_or_nil_alloc(&r, int, 50, &n), o8(a != NULL), o64(n), pfree(a)));
#if MPACK_EXTENSIONS
    if (mode & 8) { int8_t t; X((t = 4, z = 3, p = mpack_expect_ext_alloc(&r, &t, 100, &z), o8((uc)t), obytes(p, p ? z : 0), pfree(p))); }
#endif
#else
    (void)mode; (void)piece; (void)bufn;
#endif
}
static void job_expect(void) {
    unsigned set = g8(), mode = g8(); size_t piece = 1 + g32(), bufn = g32(); int64_t key = (int64_t)g64();
    src = gbytes(&src_n); lenient = (mode & 16) != 0;
    switch (set) { case 0: e_basic(mode, piece, bufn, key); break; case 1: e_float(mode, piece, bufn); break; case 2: e_double(mode, piece, bufn); break; case 3: e_ext(mode, piece, bufn); break; default: e_malloc(mode, piece, bufn); break; }
    free(src); lenient = 0;
}
#undef X
#undef XI
#undef XR
#else
static void job_expect(void) {}
#endif
#else
static void job_read(void) {}
static void job_expect(void) {}
#endif

/* ------------------------------------------------------------ node */
#if MPACK_NODE
static mpack_node_data_t pool[4096];
static char* tsrc; static size_t tsrc_n, tsrc_pos, tpiece;
static size_t on_tree_read(mpack_tree_t* t, char* p, size_t n) { size_t k = tsrc_n - tsrc_pos; (void)t; if (k > tpiece) k = tpiece; if (k > n) k = n; memcpy(p, tsrc + tsrc_pos, k); tsrc_pos += k; return k; }
static void n_walk(mpack_node_t n, int depth) {
    size_t i, c;
    o_tag(mpack_node_tag(n)); o8((unsigned)mpack_node_type(n));
    if (depth > 1000) return;
    switch (mpack_node_type(n)) {
    case mpack_type_array: c = mpack_node_array_length(n); for (i = 0; i < c; i++) n_walk(mpack_node_array_at(n, i), depth + 1); break;
    case mpack_type_map: c = mpack_node_map_count(n); for (i = 0; i < c; i++) { n_walk(mpack_node_map_key_at(n, i), depth + 1); n_walk(mpack_node_map_value_at(n, i), depth + 1); } break;
    case mpack_type_str: obytes(mpack_node_str(n), mpack_node_strlen(n)); break;
    case mpack_type_bin: obytes(mpack_node_bin_data(n), mpack_node_bin_size(n)); break;
#if MPACK_EXTENSIONS
    case mpack_type_ext: o8((uc)mpack_node_exttype(n)); obytes(mpack_node_data(n), mpack_node_data_len(n)); break;
#endif
    default: break;
    }
}
static unsigned tkind; static size_t path[4]; static int npath; static size_t tmax, tnodes;
static int t_open(mpack_tree_t* t) {
    tsrc_pos = 0;
#ifdef MPACK_MALLOC
    if (tkind == 0) mpack_tree_init_data(t, tsrc, tsrc_n);
    else if (tkind == 2) mpack_tree_init_stream(t, on_tree_read, NULL, tmax, tnodes);
    else
#endif
    mpack_tree_init_pool(t, tsrc, tsrc_n, pool, tnodes < 4096 ? tnodes : 4096);
    mpack_tree_parse(t);
    return mpack_tree_error(t) == mpack_ok;
}
static mpack_node_t t_node(mpack_tree_t* t) {
    mpack_node_t n = mpack_tree_root(t); int i;
    for (i = 0; i < npath; i++) {
        if (mpack_node_type(n) == mpack_type_array && mpack_node_array_length(n)) n = mpack_node_array_at(n, path[i] % mpack_node_array_length(n));
        else if (mpack_node_type(n) == mpack_type_map && mpack_node_map_count(n)) n = mpack_node_map_value_at(n, path[i] % mpack_node_map_count(n));
        else break;
    }
    return n;
}
#define X(stmt) do { t_open(&t); n = t_node(&t); stmt; oerr((unsigned)mpack_tree_error(&t)); mpack_tree_destroy(&t); } while (0)
#define XI(f) X(o64((uint64_t)f(n)))
static void n_basic(int64_t key, const char* str, size_t strn) {
    mpack_tree_t t; mpack_node_t n; char b[80]; size_t z; const char* strs[3];
    strs[0] = "abc"; strs[1] = "key"; strs[2] = str;
    XI(mpack_node_u8); XI(mpack_node_u16); XI(mpack_node_u32); XI(mpack_node_u64); XI(mpack_node_i8); XI(mpack_node_i16); XI(mpack_node_i32); XI(mpack_node_i64); XI(mpack_node_uint); XI(mpack_node_int);
    XI(mpack_node_bool); X(mpack_node_nil(n)); X(mpack_node_true(n)); X(mpack_node_false(n)); X(o8(mpack_node_is_nil(n))); X(o8(mpack_node_is_missing(n))); X(mpack_node_missing(n));
    XI(mpack_node_array_length); XI(mpack_node_map_count); XI(mpack_node_strlen); XI(mpack_node_bin_size); XI(mpack_node_data_len); X(mpack_node_check_utf8(n)); X(mpack_node_check_utf8_cstr(n));
    X(n_walk(mpack_node_array_at(n, (size_t)(key & 7)), 990)); X(n_walk(mpack_node_map_key_at(n, (size_t)(key & 3)), 990)); X(n_walk(mpack_node_map_value_at(n, (size_t)(key & 3)), 990));
    X(n_walk(mpack_node_map_int(n, key), 990)); X(n_walk(mpack_node_map_uint(n, (uint64_t)key), 990)); X(n_walk(mpack_node_map_int_optional(n, key), 990)); X(n_walk(mpack_node_map_uint_optional(n, (uint64_t)key), 990));
    X(n_walk(mpack_node_map_str(n, str, strn), 990)); X(n_walk(mpack_node_map_str_optional(n, str, strn), 990)); X(n_walk(mpack_node_map_cstr(n, str), 990)); X(n_walk(mpack_node_map_cstr_optional(n, str), 990));
    X(o8(mpack_node_map_contains_int(n, key))); X(o8(mpack_node_map_contains_uint(n, (uint64_t)key))); X(o8(mpack_node_map_contains_str(n, str, strn))); X(o8(mpack_node_map_contains_cstr(n, str)));
    X((z = mpack_node_copy_data(n, b, sizeof b), obytes(b, z))); X((z = mpack_node_copy_utf8(n, b, sizeof b), obytes(b, z))); X((mpack_node_copy_cstr(n, b, sizeof b), obytes(b, strlen(b)))); X((mpack_node_copy_utf8_cstr(n, b, 20), obytes(b, strlen(b))));
    X(o64(mpack_node_enum(n, strs, 3))); X(o64(mpack_node_enum_optional(n, strs, 3)));
}
static void job_node(void) {
    unsigned set; mpack_tree_t t; mpack_node_t n; int i; int64_t key; char* str; size_t strn; int ok;
    set = g8(); tkind = g8(); tpiece = 1 + g32(); tmax = g32(); tnodes = g32(); key = (int64_t)g64(); npath = (int)(g8() & 3); for (i = 0; i < npath; i++) path[i] = g8();
    str = gbytes(&strn); tsrc = gbytes(&tsrc_n);
    ok = t_open(&t); oerr((unsigned)mpack_tree_error(&t)); if (ok) { o64(mpack_tree_size(&t)); n_walk(mpack_tree_root(&t), 0); oerr((unsigned)mpack_tree_error(&t)); } mpack_tree_destroy(&t);
    if (ok) switch (set) {
    case 0: n_basic(key, str, strn); break;
    case 1: {
#if MPACK_FLOAT
        float f; uint32_t v; X((f = mpack_node_float_strict(n), memcpy(&v, &f, 4), o64(v)));
#endif
        break; }
    case 2: {
#if MPACK_FLOAT && MPACK_DOUBLE
        float f; uint32_t v; double d; uint64_t u; X((f = mpack_node_float(n), memcpy(&v, &f, 4), o64(v))); X((d = mpack_node_double(n), memcpy(&u, &d, 8), o64(u))); X((d = mpack_node_double_strict(n), memcpy(&u, &d, 8), o64(u)));
#endif
        break; }
    case 3: {
#if MPACK_EXTENSIONS
        mpack_timestamp_t s; X((s = mpack_node_timestamp(n), o64((uint64_t)s.seconds), o64(s.nanoseconds))); XI(mpack_node_timestamp_seconds); XI(mpack_node_timestamp_nanoseconds); X(o8((uc)mpack_node_exttype(n)));
#endif
        break; }
    default: {
#ifdef MPACK_MALLOC
        char* p; X((p = mpack_node_cstr_alloc(n, 60), obytes(p ? p : "-", p ? strlen(p) : 1), pfree(p))); X((p = mpack_node_utf8_cstr_alloc(n, 60), obytes(p ? p : "-", p ? strlen(p) : 1), pfree(p)));
        X((p = mpack_node_data_alloc(n, 60), obytes(p, p ? mpack_node_data_len(n) : 0), pfree(p)));
#endif
        break; }
    }
    free(str); free(tsrc);
}
#else
static void job_node(void) {}
#endif

static void job_print(void) {
#if MPACK_DEBUG && MPACK_STDIO && (MPACK_READER || MPACK_NODE)
    size_t n, bs = 1 + g32(); char* p = gbytes(&n); char* b = (char*)xalloc(bs);
    (void)b;
#if MPACK_READER
    mpack_print_data_to_buffer(p, n, b, bs); obytes(b, strlen(b));
#endif
    free(p); free(b);
#endif
}
static void job_strings(void) { /* descriptions of error codes and types */
    int i;
    static const mpack_error_t es[] = {mpack_ok, mpack_error_io, mpack_error_invalid, mpack_error_unsupported, mpack_error_type, mpack_error_too_big, mpack_error_memory, mpack_error_bug, mpack_error_data, mpack_error_eof};
    static const mpack_type_t ts[] = {mpack_type_missing, mpack_type_nil, mpack_type_bool, mpack_type_int, mpack_type_uint, mpack_type_float, mpack_type_double, mpack_type_str, mpack_type_bin, mpack_type_array, mpack_type_map};
    for (i = 0; i < 10; i++) { const char* s = mpack_error_to_string(es[i]); obytes(s, strlen(s)); o64((uint64_t)es[i]); }
    for (i = 0; i < 11; i++) { const char* s = mpack_type_to_string(ts[i]); obytes(s, strlen(s)); o64((uint64_t)ts[i]); }
}

static int rd(void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t k = read(0, c, n); if (k <= 0) return 0; c += k; n -= (size_t)k; } return 1; }
static int wr(const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = write(1, c, n); if (k <= 0) return 0; c += k; n -= (size_t)k; } return 1; }
int main(void) {
    uint32_t c = caps(), n; static uc job[1 << 20]; struct itimerval t; memset(&t, 0, sizeof t);
    if (!wr(&c, 4)) return 1;
    while (rd(&n, 4) && n <= sizeof job && rd(job, n)) {
        uc* exact = (uc*)malloc(n ? n : 1); memcpy(exact, job, n); jp = exact; jn = n; on = 0;
        t.it_value.tv_sec = 15; setitimer(ITIMER_PROF, &t, NULL); /* ends a hanging job */
        switch (g8()) { case 1: job_write(); break; case 2: job_read(); break; case 3: job_expect(); break; case 4: job_node(); break; case 5: job_tags(); break; case 6: job_print(); break; case 7: job_strings(); break; default: break; }
        t.it_value.tv_sec = 0; setitimer(ITIMER_PROF, &t, NULL);
        free(exact); n = (uint32_t)on;
        if (!wr(&n, 4) || !wr(out, on)) return 1;
    }
    return 0;
}
