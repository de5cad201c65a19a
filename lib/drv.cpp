#include "drv.h"
thread_local int box_fill = 0x5c;
using namespace pbt;
extern "C" {
#define G(name, type) void cg_##name(mpack_writer_t* w, type v); void cgkv_##name(mpack_writer_t* w, const char* k, type v);
G(i8, int8_t) G(i16, int16_t) G(i32, int32_t) G(i64, int64_t) G(u8, uint8_t) G(u16, uint16_t) G(u32, uint32_t) G(u64, uint64_t) G(bool, bool) G(float, float) G(double, double) G(cstr, const char*) G(mcstr, char*)
#undef G
}
Plan* emit_plan;
static uint64_t D(uint64_t n) { // decision
    if (n <= 1) return 0;
    if (emit_plan && emit_plan->replay) return emit_plan->pos < emit_plan->d.size() ? emit_plan->d[emit_plan->pos++] % n : 0;
    uint64_t v = draw(n);
    if (emit_plan) emit_plan->d.push_back((uint32_t)v);
    return v;
}
static bool no_nul(const Bytes& s) { return memchr(s.data(), 0, s.size()) == NULL; }
static bool u8ok(const Bytes& s) { return ref_utf8((const uint8_t*)s.data(), s.size()); }

mpack_tag_t make_tag(const Value& v) {
    switch (v.k) {
    case NIL: return mpack_tag_make_nil();
    case BOOL: return v.u ? mpack_tag_make_true() : mpack_tag_make_false();
    case UINT: return mpack_tag_make_uint(v.u);
    case INT: return mpack_tag_make_int((int64_t)v.u);
#if MPACK_FLOAT
    case FLT: return mpack_tag_make_float(f32_of(v.u));
#else
    case FLT: return mpack_tag_make_raw_float((uint32_t)v.u);
#endif
#if MPACK_DOUBLE
    case DBL: return mpack_tag_make_double(f64_of(v.u));
#else
    case DBL: return mpack_tag_make_raw_double(v.u);
#endif
    case STR: return mpack_tag_make_str((uint32_t)v.s.size());
    case BIN: return mpack_tag_make_bin((uint32_t)v.s.size());
#if MPACK_EXTENSIONS
    case EXT: return mpack_tag_make_ext(v.et, (uint32_t)v.s.size());
#else
    case EXT: break;
#endif
    case ARR: return mpack_tag_make_array((uint32_t)v.count());
    case MAP: return mpack_tag_make_map((uint32_t)v.count());
    }
    return mpack_tag_make_nil();
}

static void write_data(mpack_writer_t* w, const Bytes& s, const EmitOpt& o) {
    if (!o.chunks || !D(3)) { if (s.size() || D(2)) mpack_write_bytes(w, s.size() ? s.data() : NULL, s.size()); return; }
    size_t pos = 0; int guard = 0;
    while (pos < s.size()) {
        size_t left = s.size() - pos;
        size_t k = guard++ > 12 ? left : (D(3) == 0 ? (size_t)D(left + 1) : (size_t)D(left < 40 ? left + 1 : 40));
        mpack_write_bytes(w, s.data() + pos, k);
        pos += k;
    }
}
static void emit_int(mpack_writer_t* w, bool neg, uint64_t u, const EmitOpt& o, const char* key) {
    int64_t i = (int64_t)u;
    for (;;) {
        int c = (int)D(o.generics ? 3 : 1); // 0 plain function, 1 C generic, 2 C++ overload
        int t = (int)D(o.tags ? 12 : 10);
        if (o.plain) { c = 0; t = neg ? 3 : 7; }
        bool s_ok = neg ? true : (u >> 63) == 0;
        if (key && (t >= 8)) t -= 4;
#define EM(fn, type) do { if (key) { if (c == 1) cgkv_##fn(w, key, (type)u); else if (c == 2) mpack_write_kv(w, key, (type)u); else { mpack_write_cstr(w, key); mpack_write_##fn(w, (type)u); } } \
        else if (c == 0) mpack_write_##fn(w, (type)u); else if (c == 1) cg_##fn(w, (type)u); else mpack_write(w, (type)u); return; } while (0)
        switch (t) {
        case 0: if (s_ok && i >= -128 && i <= 127) EM(i8, int8_t); break;
        case 1: if (s_ok && i >= -32768 && i <= 32767) EM(i16, int16_t); break;
        case 2: if (s_ok && i >= -2147483648ll && i <= 2147483647ll) EM(i32, int32_t); break;
        case 3: if (s_ok) EM(i64, int64_t); break;
        case 4: if (!neg && u <= 255) EM(u8, uint8_t); break;
        case 5: if (!neg && u <= 65535) EM(u16, uint16_t); break;
        case 6: if (!neg && u <= 0xffffffffull) EM(u32, uint32_t); break;
        case 7: if (!neg) EM(u64, uint64_t); break;
        case 8: if (s_ok) { mpack_write_int(w, i); return; } break;
        case 9: if (!neg) { mpack_write_uint(w, u); return; } break;
        case 10: if (s_ok) { mpack_write_tag(w, mpack_tag_make_int(i)); return; } break;
        case 11: if (!neg) { mpack_write_tag(w, mpack_tag_make_uint(u)); return; } break;
        }
        if (exhausted() || (emit_plan && emit_plan->replay && emit_plan->pos >= emit_plan->d.size())) { // default choice
            if (key) mpack_write_cstr(w, key);
            if (neg) mpack_write_i64(w, i); else mpack_write_u64(w, u);
            return;
        }
    }
}
static bool is_minimal_ts(const Value& v, int64_t* sec, uint32_t* ns) {
    if (v.k != EXT || v.et != -1) return false;
    const uint8_t* p = (const uint8_t*)v.s.data();
    auto rd = [&](size_t at, int n) { uint64_t x = 0; for (int i = 0; i < n; i++) x = x << 8 | p[at + i]; return x; };
    if (v.s.size() == 4) { *sec = (int64_t)rd(0, 4); *ns = 0; }
    else if (v.s.size() == 8) { uint64_t x = rd(0, 8); *ns = (uint32_t)(x >> 34); *sec = (int64_t)(x & ((1ull << 34) - 1)); }
    else if (v.s.size() == 12) { *ns = (uint32_t)rd(0, 4); *sec = (int64_t)rd(4, 8); }
    else return false;
    return *ns <= 999999999 && ts_payload(*sec, *ns) == v.s;
}
static void emit_container(mpack_writer_t* w, const Value& v, const EmitOpt& o);

void emit(mpack_writer_t* w, const Value& v, const EmitOpt& o) {
    if (o.between) o.between(w, o.ctx);
    if (!o.plain && o.object_bytes && D(20) == 1) {
        Bytes b = enc(v, o.version);
        mpack_write_object_bytes(w, b.data(), b.size());
        return;
    }
    uint32_t n = (uint32_t)v.s.size();
    switch (v.k) {
    case NIL:
        switch (o.plain ? 0 : D(o.generics ? 6 : 4)) {
        case 1: mpack_write_cstr_or_nil(w, NULL); return;
        case 2: mpack_write_utf8_cstr_or_nil(w, NULL); return;
        case 3: if (o.tags) { mpack_write_tag(w, mpack_tag_make_nil()); return; } break;
        case 4: cg_cstr(w, NULL); return;
        case 5: mpack_write(w, (char*)NULL); return;
        }
        mpack_write_nil(w); return;
    case BOOL:
        switch (o.plain ? 0 : D(o.generics ? 5 : 3)) {
        case 1: if (v.u) mpack_write_true(w); else mpack_write_false(w); return;
        case 2: if (o.tags) { mpack_write_tag(w, D(2) ? mpack_tag_make_bool(v.u != 0) : make_tag(v)); return; } break;
        case 3: cg_bool(w, v.u != 0); return;
        case 4: mpack_write(w, (bool)(v.u != 0)); return;
        }
        mpack_write_bool(w, v.u != 0); return;
    case UINT: emit_int(w, false, v.u, o, NULL); return;
    case INT: emit_int(w, (int64_t)v.u < 0, v.u, o, NULL); return;
    case FLT: {
#if MPACK_FLOAT
        float f = f32_of(v.u);
        switch (o.plain ? 0 : D(o.generics ? 4 : 2)) {
        case 1: if (o.tags) { mpack_write_tag(w, make_tag(v)); return; } break;
        case 2: cg_float(w, f); return;
        case 3: mpack_write(w, f); return;
        }
        mpack_write_float(w, f);
#else
        if (o.tags && D(2)) mpack_write_tag(w, make_tag(v)); else mpack_write_raw_float(w, (uint32_t)v.u);
#endif
        return; }
    case DBL: {
#if MPACK_DOUBLE
        double f = f64_of(v.u);
        switch (o.plain ? 0 : D(o.generics ? 4 : 2)) {
        case 1: if (o.tags) { mpack_write_tag(w, make_tag(v)); return; } break;
        case 2: cg_double(w, f); return;
        case 3: mpack_write(w, f); return;
        }
        mpack_write_double(w, f);
#else
        if (o.tags && D(2)) mpack_write_tag(w, make_tag(v)); else mpack_write_raw_double(w, v.u);
#endif
        return; }
    case STR: {
        // copies so that nothing beyond the string is readable
        switch (o.plain ? 0 : D(o.generics ? 10 : 8)) {
        case 1: if (no_nul(v.s)) { mpack_write_cstr(w, v.s.c_str()); return; } break;
        case 2: if (u8ok(v.s)) { Box b(v.s); mpack_write_utf8(w, n ? b.p : NULL, n); return; } break;
        case 3: if (no_nul(v.s) && u8ok(v.s)) { mpack_write_utf8_cstr(w, v.s.c_str()); return; } break;
        case 4: if (no_nul(v.s)) { mpack_write_cstr_or_nil(w, v.s.c_str()); return; } break;
        case 5: if (no_nul(v.s) && u8ok(v.s)) { mpack_write_utf8_cstr_or_nil(w, v.s.c_str()); return; } break;
        case 6: mpack_start_str(w, n); write_data(w, v.s, o); if (D(3)) mpack_finish_str(w); else mpack_finish_type(w, mpack_type_str); return;
        case 7: if (o.tags) { mpack_write_tag(w, mpack_tag_make_str(n)); write_data(w, v.s, o); mpack_finish_str(w); return; } break;
        case 8: if (no_nul(v.s)) { if (D(2)) cg_cstr(w, v.s.c_str()); else cg_mcstr(w, (char*)v.s.c_str()); return; } break;
        case 9: if (no_nul(v.s)) { if (D(2)) mpack_write(w, (char*)v.s.c_str()); else mpack_write(w, (const char*)v.s.c_str()); return; } break;
        }
        Box b(v.s);
        mpack_write_str(w, n || o.plain ? b.p : NULL, n); return; }
    case BIN:
        switch (o.plain ? 0 : D(3)) {
        case 1: mpack_start_bin(w, n); write_data(w, v.s, o); if (D(3)) mpack_finish_bin(w); else mpack_finish_type(w, mpack_type_bin); return;
        case 2: if (o.tags) { mpack_write_tag(w, mpack_tag_make_bin(n)); write_data(w, v.s, o); mpack_finish_bin(w); return; } break;
        }
        { Box b(v.s); mpack_write_bin(w, n || o.plain ? b.p : NULL, n); } return;
    case EXT: {
#if MPACK_EXTENSIONS
        int64_t sec; uint32_t ns;
        if (!o.plain && is_minimal_ts(v, &sec, &ns) && D(3)) {
            switch (D(3)) {
            case 1: { mpack_timestamp_t t; t.seconds = sec; t.nanoseconds = ns; mpack_write_timestamp_struct(w, t); return; }
            case 2: if (ns == 0) { mpack_write_timestamp_seconds(w, sec); return; } break;
            }
            mpack_write_timestamp(w, sec, ns); return;
        }
        switch (o.plain ? 0 : D(3)) {
        case 1: mpack_start_ext(w, v.et, n); write_data(w, v.s, o); if (D(3)) mpack_finish_ext(w); else mpack_finish_type(w, mpack_type_ext); return;
        case 2: if (o.tags) { mpack_write_tag(w, mpack_tag_make_ext(v.et, n)); write_data(w, v.s, o); mpack_finish_ext(w); return; } break;
        }
        { Box b(v.s); mpack_write_ext(w, v.et, n || o.plain ? b.p : NULL, n); }
#endif
        return; }
    case ARR: case MAP: emit_container(w, v, o); return;
    }
}
static void emit_container(mpack_writer_t* w, const Value& v, const EmitOpt& o) {
    bool arr = v.k == ARR;
    uint32_t n = (uint32_t)v.count();
    bool build = o.all_builders || (o.builders && D(2));
#if !MPACK_BUILDER
    build = false;
#endif
    if (build) {
#if MPACK_BUILDER
        if (arr) mpack_build_array(w); else mpack_build_map(w);
#endif
    } else if (!o.plain && o.tags && D(6) == 1)
        mpack_write_tag(w, arr ? mpack_tag_make_array(n) : mpack_tag_make_map(n));
    else if (arr) mpack_start_array(w, n);
    else mpack_start_map(w, n);
    for (size_t i = 0; i < v.c.size(); i++) {
        if (!arr && !(i & 1) && !o.plain && o.generics && v.c[i].k == STR && no_nul(v.c[i].s) && D(4) == 1) {
            const Value& x = v.c[i + 1]; const char* k = v.c[i].s.c_str();
            int c = (int)D(2);
            bool done = true;
            if (x.k == UINT || x.k == INT) emit_int(w, (int64_t)x.u < 0 && x.k == INT, x.u, o, k);
            else if (x.k == BOOL) { if (c) cgkv_bool(w, k, x.u != 0); else mpack_write_kv(w, k, (bool)(x.u != 0)); }
#if MPACK_FLOAT
            else if (x.k == FLT) { if (c) cgkv_float(w, k, f32_of(x.u)); else mpack_write_kv(w, k, f32_of(x.u)); }
#endif
#if MPACK_DOUBLE
            else if (x.k == DBL) { if (c) cgkv_double(w, k, f64_of(x.u)); else mpack_write_kv(w, k, f64_of(x.u)); }
#endif
            else if (x.k == STR && no_nul(x.s)) {
                switch (D(4)) {
                case 0: cgkv_cstr(w, k, x.s.c_str()); break;
                case 1: cgkv_mcstr(w, k, (char*)x.s.c_str()); break;
                case 2: mpack_write_kv(w, k, x.s.c_str()); break;
                default: mpack_write_kv(w, k, (char*)x.s.c_str());
                }
            } else if (x.k == NIL) { if (c) cgkv_cstr(w, k, NULL); else mpack_write_kv(w, k, (const char*)NULL); }
            else done = false;
            if (done) { i++; continue; }
        }
        emit(w, v.c[i], o);
    }
    if (build) {
#if MPACK_BUILDER
        if (arr) mpack_complete_array(w); else mpack_complete_map(w);
#endif
    } else if (!o.plain && D(4) == 1) mpack_finish_type(w, arr ? mpack_type_array : mpack_type_map);
    else if (arr) mpack_finish_array(w);
    else mpack_finish_map(w);
}

// ------------------------------------------------------------------ reading
Value tag_value(mpack_tag_t t, uint32_t* len) {
    Value v; *len = 0;
    switch (mpack_tag_type(&t)) {
    case mpack_type_nil: v.k = NIL; break;
    case mpack_type_bool: v.k = BOOL; v.u = mpack_tag_bool_value(&t); break;
    case mpack_type_int: v.k = INT; v.u = (uint64_t)mpack_tag_int_value(&t); break;
    case mpack_type_uint: v.k = UINT; v.u = mpack_tag_uint_value(&t); break;
#if MPACK_FLOAT
    case mpack_type_float: v.k = FLT; v.u = raw_of(mpack_tag_float_value(&t)); break;
#else
    case mpack_type_float: v.k = FLT; v.u = mpack_tag_raw_float_value(&t); break;
#endif
#if MPACK_DOUBLE
    case mpack_type_double: v.k = DBL; v.u = raw_of(mpack_tag_double_value(&t)); break;
#else
    case mpack_type_double: v.k = DBL; v.u = mpack_tag_raw_double_value(&t); break;
#endif
    case mpack_type_str: v.k = STR; *len = mpack_tag_str_length(&t); CHECK(mpack_tag_bytes(&t) == *len, "tag_bytes disagrees"); break;
    case mpack_type_bin: v.k = BIN; *len = mpack_tag_bin_length(&t); CHECK(mpack_tag_bytes(&t) == *len, "tag_bytes disagrees"); break;
#if MPACK_EXTENSIONS
    case mpack_type_ext: v.k = EXT; *len = mpack_tag_ext_length(&t); v.et = mpack_tag_ext_exttype(&t); CHECK(mpack_tag_bytes(&t) == *len, "tag_bytes disagrees"); break;
#endif
    case mpack_type_array: v.k = ARR; *len = mpack_tag_array_count(&t); break;
    case mpack_type_map: v.k = MAP; *len = mpack_tag_map_count(&t); break;
    default: fail("tag has unexpected type %d", (int)mpack_tag_type(&t));
    }
    return v;
}
static uint64_t R(uint64_t n) { return draw(n); }
static bool read_data(mpack_reader_t* r, Value& v, uint32_t len, const ReadOpt& o) {
    int mode = o.plain ? 0 : (int)R(6);
    if (mode == 2 && (!o.inplace || len > o.max_inplace)) mode = 1;
    if (mode == 3 && !o.alloc) mode = 0;
    switch (mode) {
    default: {
        if (len > (1u << 24)) { mpack_skip_bytes(r, len); v.s.clear(); return mpack_reader_error(r) == mpack_ok; }
        Box b(len);
        mpack_read_bytes(r, b.p, len);
        if (mpack_reader_error(r) != mpack_ok) return false;
        v.s.assign(b.p, len); return true; }
    case 1: { // chunks mixing copy, inplace, skip-free
        size_t left = len; int guard = 0;
        while (left) {
            size_t k = guard++ > 16 ? left : 1 + (size_t)R(left < 50 ? left : 50);
            if (k > left) k = left;
            if (k > (1u << 24)) k = 1u << 24;
            if (o.inplace && k <= o.max_inplace && R(2)) {
                const char* p = mpack_read_bytes_inplace(r, k);
                if (mpack_reader_error(r) != mpack_ok) return false;
                CHECK(p != NULL, "inplace read succeeded but returned NULL");
                v.s.append(p, k);
            } else {
                Box b(k);
                mpack_read_bytes(r, b.p, k);
                if (mpack_reader_error(r) != mpack_ok) return false;
                v.s.append(b.p, k);
            }
            left -= k;
        }
        return true; }
    case 2: {
        const char* p = mpack_read_bytes_inplace(r, len);
        if (mpack_reader_error(r) != mpack_ok) return false;
        if (len) v.s.assign(p, len);
        return true; }
    case 3: {
        char* p = mpack_read_bytes_alloc(r, len);
        if (mpack_reader_error(r) != mpack_ok) { CHECK(p == NULL, "alloc read returned a block despite error"); return false; }
        if (len == 0) { CHECK(p == NULL, "read_bytes_alloc(0) should return NULL"); return true; }
        CHECK(p != NULL, "alloc read returned NULL without error");
        v.s.assign(p, len); vt_free(p); return true; }
    case 4: { // what remaining() shows must be what is read next
        if (len > (1u << 24)) { mpack_skip_bytes(r, len); v.s.clear(); return mpack_reader_error(r) == mpack_ok; }
#if !MPACK_READ_TRACKING
        const char* d; size_t have = mpack_reader_remaining(r, &d);
        Bytes pre(d ? d : "", have < len ? have : len);
#else
        Bytes pre;
#endif
        Box b(len);
        mpack_read_bytes(r, b.p, len);
        if (mpack_reader_error(r) != mpack_ok) return false;
        v.s.assign(b.p, len);
        CHECK(v.s.compare(0, pre.size(), pre) == 0, "mpack_reader_remaining data differs from what was read next");
        return true; }
    case 5: { // should_read_bytes_inplace honoured like the documentation example
        if (o.inplace && mpack_should_read_bytes_inplace(r, len)) {
            const char* p = mpack_read_bytes_inplace(r, len);
            if (mpack_reader_error(r) != mpack_ok) return false;
            if (len) v.s.assign(p, len);
            return true;
        }
        size_t left = len;
        while (left > 0) {
            char buf[61]; size_t step = left < sizeof buf ? left : sizeof buf;
            mpack_read_bytes(r, buf, step);
            if (mpack_reader_error(r) != mpack_ok) return false;
            v.s.append(buf, step); left -= step;
        }
        return true; }
    }
}
bool read_value(mpack_reader_t* r, Value& out, const ReadOpt& o) {
    if (o.peek && !o.plain && R(5) == 1) {
        mpack_tag_t p = mpack_peek_tag(r);
        if (mpack_reader_error(r) != mpack_ok) return false;
#if !MPACK_READ_TRACKING
        const char* d0; size_t n0 = mpack_reader_remaining(r, &d0);
        mpack_tag_t q = mpack_peek_tag(r);
        const char* d1; size_t n1 = mpack_reader_remaining(r, &d1);
        CHECK(n0 == n1 && d0 == d1, "peeking twice moved the reader");
#else
        mpack_tag_t q = mpack_peek_tag(r);
#endif
        if (mpack_reader_error(r) != mpack_ok) fail("second peek failed");
        CHECK(mpack_tag_equal(p, q), "two peeks differ");
        mpack_tag_t t = mpack_read_tag(r);
        if (mpack_reader_error(r) != mpack_ok) { if (vt.nfailed) return false; fail("read_tag failed after a successful peek"); }
        CHECK(mpack_tag_equal(p, t) && p.type == t.type, "peeked tag differs from read tag");
        uint32_t len; out = tag_value(t, &len);
        if (out.k == STR || out.k == BIN || out.k == EXT) {
            if (!read_data(r, out, len, o)) return false;
        } else if (out.k == ARR || out.k == MAP) {
            uint64_t m = out.k == ARR ? len : (uint64_t)len * 2;
            for (uint64_t i = 0; i < m; i++) { Value x; if (!read_value(r, x, o)) return false; out.c.push_back(std::move(x)); }
        }
        switch (out.k) { case STR: mpack_done_str(r); break; case BIN: mpack_done_bin(r); break;
#if MPACK_EXTENSIONS
        case EXT: mpack_done_ext(r); break;
#endif
        case ARR: mpack_done_array(r); break; case MAP: mpack_done_map(r); break; default: break; }
        return mpack_reader_error(r) == mpack_ok;
    }
    mpack_tag_t t = mpack_read_tag(r);
    if (mpack_reader_error(r) != mpack_ok) { CHECK(t.type == mpack_type_nil, "read_tag in error must be nil"); return false; }
    uint32_t len; out = tag_value(t, &len);
    if (out.k == STR || out.k == BIN || out.k == EXT) {
        if (!read_data(r, out, len, o)) return false;
        mpack_done_type(r, mpack_tag_type(&t));
    } else if (out.k == ARR || out.k == MAP) {
        uint64_t m = out.k == ARR ? len : (uint64_t)len * 2;
        for (uint64_t i = 0; i < m; i++) { Value x; if (!read_value(r, x, o)) return false; out.c.push_back(std::move(x)); }
        mpack_done_type(r, mpack_tag_type(&t));
    }
    return mpack_reader_error(r) == mpack_ok;
}
bool node_value(mpack_node_t n, Value& out, const char** why) {
    mpack_type_t ty = mpack_node_type(n);
    switch (ty) {
    case mpack_type_nil: out.k = NIL; mpack_node_nil(n); break;
    case mpack_type_bool: out.k = BOOL; out.u = mpack_node_bool(n); break;
    case mpack_type_int: out.k = INT; out.u = (uint64_t)mpack_node_i64(n); break;
    case mpack_type_uint: out.k = UINT; out.u = mpack_node_u64(n); break;
#if MPACK_FLOAT
    case mpack_type_float: out.k = FLT; out.u = raw_of(mpack_node_float_strict(n)); break;
#else
    case mpack_type_float: out.k = FLT; out.u = mpack_node_raw_float(n); break;
#endif
#if MPACK_DOUBLE
    case mpack_type_double: out.k = DBL; out.u = raw_of(mpack_node_double_strict(n)); break;
#else
    case mpack_type_double: out.k = DBL; out.u = mpack_node_raw_double(n); break;
#endif
    case mpack_type_str: out.k = STR; out.s.assign(mpack_node_str(n) ? mpack_node_str(n) : "", mpack_node_strlen(n)); break;
    case mpack_type_bin: out.k = BIN; out.s.assign(mpack_node_bin_data(n) ? mpack_node_bin_data(n) : "", mpack_node_bin_size(n)); break;
#if MPACK_EXTENSIONS
    case mpack_type_ext: out.k = EXT; out.et = mpack_node_exttype(n); out.s.assign(mpack_node_data(n) ? mpack_node_data(n) : "", mpack_node_data_len(n)); break;
#endif
    case mpack_type_array: { out.k = ARR; size_t c = mpack_node_array_length(n); for (size_t i = 0; i < c; i++) { Value x; if (!node_value(mpack_node_array_at(n, i), x, why)) return false; out.c.push_back(std::move(x)); } break; }
    case mpack_type_map: { out.k = MAP; size_t c = mpack_node_map_count(n); for (size_t i = 0; i < c; i++) { Value x, y; if (!node_value(mpack_node_map_key_at(n, i), x, why) || !node_value(mpack_node_map_value_at(n, i), y, why)) return false; out.c.push_back(std::move(x)); out.c.push_back(std::move(y)); } break; }
    default: *why = "unexpected node type"; return false;
    }
    if (mpack_node_error(n) != mpack_ok) { *why = "error while reading node"; return false; }
    uint32_t len; Value tv = tag_value(mpack_node_tag(n), &len);
    if (tv.k != out.k || tv.u != out.u || tv.et != out.et || ((out.k == STR || out.k == BIN || out.k == EXT) && len != out.s.size()) || ((out.k == ARR || out.k == MAP) && len != out.count())) { *why = "node tag disagrees with accessors"; return false; }
    return true;
}

// typed reads for a known value; every call must succeed
static void expect_int(mpack_reader_t* r, const Value& v) {
    bool neg = v.k == INT && (int64_t)v.u < 0; uint64_t u = v.u; int64_t i = (int64_t)u;
    bool s_ok = neg || (u >> 63) == 0;
    for (int tries = 0;; tries++) {
        int t = tries > 20 ? (neg ? 3 : 7) : (int)R(18);
#define EX(cond, got) if (cond) { uint64_t g = (uint64_t)(int64_t)(got); CHECK(g == u, "typed read %d of %s returned %llx", t, show(v).c_str(), (unsigned long long)g); return; } break
#define EU(cond, got) if (cond) { uint64_t g = (uint64_t)(got); CHECK(g == u, "typed read %d of %s returned %llx", t, show(v).c_str(), (unsigned long long)g); return; } break
        switch (t) {
        case 0: EX(s_ok && i >= -128 && i <= 127, mpack_expect_i8(r));
        case 1: EX(s_ok && i >= -32768 && i <= 32767, mpack_expect_i16(r));
        case 2: EX(s_ok && i >= INT32_MIN && i <= INT32_MAX, mpack_expect_i32(r));
        case 3: EX(s_ok, mpack_expect_i64(r));
        case 4: EU(!neg && u <= 255, mpack_expect_u8(r));
        case 5: EU(!neg && u <= 65535, mpack_expect_u16(r));
        case 6: EU(!neg && u <= 0xffffffffull, mpack_expect_u32(r));
        case 7: EU(!neg, mpack_expect_u64(r));
        case 8: if (!neg) { mpack_expect_uint_match(r, u); return; } break;
        case 9: if (s_ok) { mpack_expect_int_match(r, i); return; } break;
        case 10: EX(s_ok, mpack_expect_i64_range(r, i, i));
        case 11: EU(!neg, mpack_expect_u64_range(r, u ? u - 1 : 0, u));
        case 12: EX(s_ok && i >= INT32_MIN && i <= INT32_MAX, mpack_expect_int(r));
        case 13: EU(!neg && u <= 0xffffffffull, mpack_expect_uint(r));
        case 14: EX(s_ok && i >= 0, mpack_expect_i64_max(r, i));
        case 15: EU(!neg, mpack_expect_u64_max(r, u));
        case 16: mpack_expect_tag(r, make_tag(v)); return;
        case 17: EX(s_ok && i >= -128 && i <= 127, mpack_expect_i8_range(r, (int8_t)i, 127));
        }
    }
}
static Bytes take(mpack_reader_t* r, uint32_t n) { Box b(n); mpack_read_bytes(r, b.p, n); return Bytes(b.p, n); }
void expect_value(mpack_reader_t* r, const Value& v) {
    uint32_t n = (uint32_t)v.s.size();
#define OKR(what) CHECK(mpack_reader_error(r) == mpack_ok, "%s failed (%s) on %s", what, err_name(mpack_reader_error(r)), show(v).c_str())
#define SAME(got, what) do { OKR(what); CHECK((got) == v.s, "%s returned other data for %s: %s", what, show(v).c_str(), hex((got).data(), (got).size()).c_str()); } while (0)
    switch (v.k) {
    case NIL: if (R(2)) mpack_expect_nil(r); else mpack_expect_tag(r, mpack_tag_make_nil()); OKR("expect_nil"); return;
    case BOOL: switch (R(3)) { case 0: CHECK(mpack_expect_bool(r) == (v.u != 0), "expect_bool value"); break; case 1: if (v.u) mpack_expect_true(r); else mpack_expect_false(r); break; default: mpack_expect_tag(r, make_tag(v)); } OKR("expect_bool"); return;
    case UINT: case INT: expect_int(r, v); OKR("expect integer"); return;
#if MPACK_FLOAT
    case FLT: switch (R(3)) { case 0: CHECK(raw_of(mpack_expect_float_strict(r)) == v.u, "expect_float_strict value"); break; case 1: mpack_expect_tag(r, make_tag(v)); break; default: CHECK(raw_of(mpack_expect_float(r)) == v.u, "expect_float value"); } OKR("expect_float"); return;
#else
    case FLT: CHECK(mpack_expect_raw_float(r) == v.u, "expect_raw_float"); OKR("raw"); return;
#endif
#if MPACK_DOUBLE
    case DBL: switch (R(3)) { case 0: CHECK(raw_of(mpack_expect_double_strict(r)) == v.u, "expect_double_strict value"); break; case 1: mpack_expect_tag(r, make_tag(v)); break; default: CHECK(raw_of(mpack_expect_double(r)) == v.u, "expect_double value"); } OKR("expect_double"); return;
#else
    case DBL: CHECK(mpack_expect_raw_double(r) == v.u, "expect_raw_double"); OKR("raw"); return;
#endif
    case STR: {
        bool nn = no_nul(v.s), u8 = u8ok(v.s);
        for (int tries = 0;; tries++) {
            switch (tries > 12 ? 0 : R(11)) {
            case 0: { uint32_t k = mpack_expect_str(r); OKR("expect_str"); CHECK(k == n, "expect_str length"); Bytes g = take(r, k); mpack_done_str(r); SAME(g, "expect_str"); return; }
            case 1: { Box b(n + R(4)); size_t k = mpack_expect_str_buf(r, b.p, b.n); OKR("str_buf"); CHECK(k == n, "str_buf length"); Bytes g(b.p, k); SAME(g, "str_buf"); return; }
            case 2: if (u8) { Box b(n + R(4)); size_t k = mpack_expect_utf8(r, b.p, b.n); OKR("utf8"); CHECK(k == n, "utf8 length"); Bytes g(b.p, k); SAME(g, "utf8"); return; } break;
            case 3: { uint32_t k = mpack_expect_str_max(r, n + (uint32_t)R(3)); OKR("str_max"); CHECK(k == n, "str_max"); Bytes g = take(r, k); mpack_done_str(r); SAME(g, "str_max"); return; }
            case 4: { mpack_expect_str_length(r, n); OKR("str_length"); Bytes g = take(r, n); mpack_done_str(r); SAME(g, "str_length"); return; }
            case 5: { Box b(v.s); mpack_expect_str_match(r, b.p, n); OKR("str_match"); return; }
            case 6: if (nn) { Box b(n + 1 + R(4)); mpack_expect_cstr(r, b.p, b.n); OKR("cstr"); Bytes g(b.p); SAME(g, "cstr"); return; } break;
            case 7: if (nn && u8) { Box b(n + 1 + R(4)); mpack_expect_utf8_cstr(r, b.p, b.n); OKR("utf8_cstr"); Bytes g(b.p); SAME(g, "utf8_cstr"); return; } break;
            case 8: if (nn) { char* p = mpack_expect_cstr_alloc(r, n + 1 + R(4)); OKR("cstr_alloc"); Bytes g(p); vt_free(p); SAME(g, "cstr_alloc"); return; } break;
            case 9: if (nn && u8) { char* p = mpack_expect_utf8_cstr_alloc(r, n + 1 + R(4)); OKR("utf8_cstr_alloc"); Bytes g(p); vt_free(p); SAME(g, "utf8_cstr_alloc"); return; } break;
            case 10: if (nn) { mpack_expect_cstr_match(r, v.s.c_str()); OKR("cstr_match"); return; } break;
            }
        } }
    case BIN:
        switch (R(6)) {
        case 0: { uint32_t k = mpack_expect_bin(r); OKR("bin"); CHECK(k == n, "bin length"); Bytes g = take(r, k); mpack_done_bin(r); SAME(g, "bin"); return; }
        case 1: { Box b(n + R(4)); size_t k = mpack_expect_bin_buf(r, b.p, b.n); OKR("bin_buf"); CHECK(k == n, "bin_buf"); Bytes g(b.p, k); SAME(g, "bin_buf"); return; }
        case 2: { uint32_t k = mpack_expect_bin_max(r, n + (uint32_t)R(3)); OKR("bin_max"); CHECK(k == n, "bin_max"); Bytes g = take(r, k); mpack_done_bin(r); SAME(g, "bin_max"); return; }
        case 3: { mpack_expect_bin_size(r, n); OKR("bin_size"); Bytes g = take(r, n); mpack_done_bin(r); SAME(g, "bin_size"); return; }
        case 4: { Box b(n); mpack_expect_bin_size_buf(r, b.p, n); OKR("bin_size_buf"); Bytes g(b.p, n); SAME(g, "bin_size_buf"); return; }
        default: { size_t k = 99; char* p = mpack_expect_bin_alloc(r, n + R(4), &k); OKR("bin_alloc"); CHECK(k == n && (n == 0) == (p == NULL), "bin_alloc"); Bytes g(p ? p : "", k); vt_free(p); SAME(g, "bin_alloc"); return; }
        }
#if MPACK_EXTENSIONS
    case EXT: {
        int8_t et = 77; int64_t sec; uint32_t ns;
        if (v.et == -1) { // ext functions reject timestamps by contract
            if (!is_minimal_ts(v, &sec, &ns) || R(3) == 0) { mpack_expect_tag(r, make_tag(v)); OKR("expect_tag ext"); Bytes g = take(r, n); mpack_done_ext(r); SAME(g, "expect_tag ext"); return; }
            if (R(2)) { mpack_timestamp_t t = mpack_expect_timestamp(r); OKR("timestamp"); CHECK(t.seconds == sec && t.nanoseconds == ns, "timestamp value"); }
            else { int64_t s = mpack_expect_timestamp_truncate(r); OKR("timestamp_truncate"); CHECK(s == sec, "timestamp_truncate"); }
            return;
        }
        switch (R(5)) {
        case 0: { uint32_t k = mpack_expect_ext(r, &et); OKR("ext"); CHECK(k == n && et == v.et, "ext header"); Bytes g = take(r, k); mpack_done_ext(r); SAME(g, "ext"); return; }
        case 1: { Box b(n + R(4)); size_t k = mpack_expect_ext_buf(r, &et, b.p, b.n); OKR("ext_buf"); CHECK(k == n && et == v.et, "ext_buf"); Bytes g(b.p, k); SAME(g, "ext_buf"); return; }
        case 2: { uint32_t k = mpack_expect_ext_max(r, &et, n + (uint32_t)R(3)); OKR("ext_max"); CHECK(k == n && et == v.et, "ext_max"); Bytes g = take(r, k); mpack_done_ext(r); SAME(g, "ext_max"); return; }
        case 3: { mpack_expect_ext_size(r, &et, n); OKR("ext_size"); CHECK(et == v.et, "ext_size type"); Bytes g = take(r, n); mpack_done_ext(r); SAME(g, "ext_size"); return; }
        default: { size_t k = 99; char* p = mpack_expect_ext_alloc(r, &et, n + R(4), &k); OKR("ext_alloc"); CHECK(k == n && et == v.et, "ext_alloc"); Bytes g(p ? p : "", k); if (p) vt_free(p); SAME(g, "ext_alloc"); return; }
        } }
#endif
    case ARR: case MAP: {
        uint32_t c = (uint32_t)v.count(), k = 12345; bool a = v.k == ARR;
        switch (R(6)) {
        case 0: k = a ? mpack_expect_array(r) : mpack_expect_map(r); break;
        case 1: k = a ? mpack_expect_array_range(r, c ? c - 1 : 0, c) : mpack_expect_map_range(r, c ? c - 1 : 0, c); break;
        case 2: k = a ? mpack_expect_array_max(r, c) : mpack_expect_map_max(r, c); break;
        case 3: if (a) mpack_expect_array_match(r, c); else mpack_expect_map_match(r, c); k = c; break;
        case 4: { bool t = a ? mpack_expect_array_or_nil(r, &k) : mpack_expect_map_or_nil(r, &k); CHECK(t, "or_nil returned false"); break; }
        default: { bool t = a ? mpack_expect_array_max_or_nil(r, c + 1, &k) : mpack_expect_map_max_or_nil(r, c + 1, &k); CHECK(t, "max_or_nil returned false"); break; }
        }
        OKR("expect container"); CHECK(k == c, "container count %u for %s", k, show(v).c_str());
        for (auto& x : v.c) { expect_value(r, x); }
        if (a) mpack_done_array(r); else mpack_done_map(r);
        OKR("done container");
        return; }
    default: fail("unsupported kind");
    }
}

// ------------------------------------------------------------------ sources
size_t Source::next(size_t want) {
    fills++;
    if (want > max_request) max_request = want;
    if (failed) { after_error++; }
    size_t lim = n < fail_at ? n : fail_at;
    size_t left = lim - pos;
    if (left == 0) { failed = true; return 0; }
    size_t k = sizes.empty() ? left : 0;
    for (size_t t = 0; k == 0 && t < sizes.size(); t++) k = sizes[si++ % sizes.size()];
    if (k == 0) k = 1;
    if (k > left) k = left;
    if (k > want) k = want;
    return k;
}
size_t source_fill(mpack_reader_t* r, char* buf, size_t count) {
    Source* s = (Source*)mpack_reader_context(r);
    if (count == 0) fail("fill function called for zero bytes");
    size_t k = s->next(count);
    if (k == 0) {
        size_t m = 0; if (s->fail_mode == 4) { m = s->n - s->pos < count ? s->n - s->pos : count; memcpy(buf, s->p + s->pos, m); }
        if (s->fail_mode >= 2) mpack_reader_flag_error(r, s->flag);
        if (m) return m;
        return s->fail_mode & 1 ? (size_t)-1 : 0;
    }
    memcpy(buf, s->p + s->pos, k); s->pos += k;
    return k;
}
void source_skip(mpack_reader_t* r, size_t count) {
    Source* s = (Source*)mpack_reader_context(r);
    s->skips++; s->skipped += count;
    size_t lim = s->n < s->fail_at ? s->n : s->fail_at;
    if (count > lim - s->pos) { s->pos = lim; s->failed = true; mpack_reader_flag_error(r, s->fail_mode >= 2 ? s->flag : mpack_error_io); return; }
    s->pos += count;
}
size_t source_tree_read(mpack_tree_t* t, char* buf, size_t count) {
    Source* s = (Source*)mpack_tree_context(t);
    if (count == 0) fail("tree read function called for zero bytes");
    size_t k = s->next(count);
    if (k == 0) {
        size_t m = 0; if (s->fail_mode == 4) { m = s->n - s->pos < count ? s->n - s->pos : count; memcpy(buf, s->p + s->pos, m); }
        if (s->fail_mode >= 2) mpack_tree_flag_error(t, s->flag);
        if (m) return m;
        return s->fail_mode & 1 ? (size_t)-1 : 0;
    }
    memcpy(buf, s->p + s->pos, k); s->pos += k;
    return k;
}
Source gen_source(const Box& b) {
    Source s; s.p = b.p; s.n = b.n;
    switch (draw(5)) {
    case 0: break; // as much as asked
    case 1: s.sizes = {1}; break;
    case 2: s.sizes = {1 + (size_t)draw(8)}; break;
    case 3: { size_t k = 1 + draw(6); for (size_t i = 0; i < k; i++) s.sizes.push_back(1 + (size_t)draw(40)); break; }
    default: { size_t k = 1 + draw(6); for (size_t i = 0; i < k; i++) s.sizes.push_back(1 + (size_t)draw(b.n + 1)); break; }
    }
    return s;
}

#ifdef __LP64__
#include <sys/mman.h>
const size_t HUGE_REGION = (size_t)0x100000000ull + (4u << 20);
char* huge_region() {
    static char* p = NULL; static bool tried = false;
    if (!tried) { tried = true; void* m = mmap(NULL, HUGE_REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); p = m == MAP_FAILED ? NULL : (char*)m; }
    return p;
}
char* huge_message(const Bytes& in) {
    char* p = huge_region(); if (!p) return p;
    memset(p, 0, 300000); memcpy(p, in.data(), in.size() < 200000 ? in.size() : 200000); return p;
}
size_t big_limit(size_t lim, unsigned one_in) {
    if (!pbt::chance(1, one_in) || lim > (1u << 20) || !huge_region()) return lim;
    pbt::label("limit-over-32-bits"); return (size_t)0x100000000ull + lim;
}
#else
const size_t HUGE_REGION = 0;
char* huge_region() { return NULL; }
char* huge_message(const Bytes&) { return NULL; }
size_t big_limit(size_t lim, unsigned) { return lim; }
#endif
