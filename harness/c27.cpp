// C27: arbitrary bytes under arbitrary sequences of reader, expect, node, tag
// and print calls: no sanitizer report, no failed assertion, bounded work and
// bounded stack. The library is also built with edge counters ("work"
// configurations), which make work and stack use deterministic measures.
#include "ops.h"
using namespace pbt;
const char* pbt::harness_name = "c27";
static uint64_t edges; static uintptr_t low; static bool instrumented;
extern "C" __attribute__((no_sanitize("address", "undefined"))) void __sanitizer_cov_trace_pc_guard(uint32_t*) { edges++; uintptr_t a = (uintptr_t)__builtin_frame_address(0); if (a < low) low = a; }
extern "C" __attribute__((no_sanitize("address", "undefined"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) { instrumented = true; }
// One measured region: everything the library does between begin and end.
static uint64_t e0; static uintptr_t s0;
static double worst; static size_t worst_stack;
static const uint64_t PER_BYTE = 80, PER_CALL = 6000; static const size_t STACK = 40000;
static __attribute__((noinline)) void work_begin() { e0 = edges; s0 = low = (uintptr_t)__builtin_frame_address(0); }
static void work_end(const char* what, size_t bytes) {
    if (!instrumented) return;
    uint64_t e = edges - e0; size_t st = s0 > low ? s0 - low : 0;
    CHECK(e <= PER_CALL + PER_BYTE * bytes, "%s took %llu steps for %zu bytes", what, (unsigned long long)e, bytes);
    CHECK(st <= STACK, "%s used %zu bytes of stack", what, st);
    if (const char* wl = getenv("VT_WORK")) { FILE* stderr_ = fopen(wl, "a"); double q = ((double)e - (double)PER_CALL / 4) / ((double)bytes + 1); if (q > worst) { worst = q; fprintf(stderr_, "work %s: %llu steps, %zu bytes\n", what, (unsigned long long)e, bytes); } if (st > worst_stack) { worst_stack = st; fprintf(stderr_, "stack %s: %zu\n", what, st); } fclose(stderr_); }
}
static bool scratch_op(int op) { return op == 5 || op == 6 || op == 7 || op == 8 || op == 9 || op == 10; }
static int guided(mpack_reader_t* r, OpState& st, mpack_tag_t* seen) {
    seen->type = mpack_type_missing;
#if MPACK_EXTENSIONS
    if (st.open_len && st.open == mpack_type_ext && coin()) return 14;
#endif
    if (st.open_len) { return pick({5, 6, 7, 8, 9, 10, 11, 12, 13, 18}); }
    mpack_tag_t t = mpack_peek_tag(r); *seen = t;
    switch (t.type) {
    case mpack_type_nil: return pick({0, 49, 64, 69, 70, 17, 4});
    case mpack_type_bool: return pick({0, 50, 51, 52, 17});
    case mpack_type_int: case mpack_type_uint: return chance(1, 8) ? pick({0, 17, 83, 81}) : (int)range(19, 48);
    case mpack_type_float: case mpack_type_double: return chance(1, 8) ? 0 : (int)range(29, 34);
    case mpack_type_str: return chance(1, 4) ? 0 : (int)pick({71, 72, 73, 74, 75, 76, 82, 83, 17});
    case mpack_type_bin: return chance(1, 4) ? 0 : (int)range(77, 80);
    case mpack_type_array: return chance(1, 2) ? 65 : (int)pick({0, 66, 67, 68, 69, 70, 17});
    case mpack_type_map: return chance(1, 2) ? 60 : (int)pick({0, 61, 62, 63, 64, 17});
#if MPACK_EXTENSIONS
    case mpack_type_ext: return chance(1, 4) ? 0 : (int)range(53, 59);
#endif
    default: return -1;
    }
}
struct Open { mpack_type_t t; uint64_t left; };
static size_t reader_run(const Box& b, size_t from, bool deep) {
    OpState st; mpack_reader_t R; mpack_reader_t* r = &R; Box part(Bytes(b.p + from, b.n - from)); Source src;
    bool stream = coin(); size_t bufn = MPACK_READER_MINIMUM_BUFFER_SIZE + (size_t)(chance(1, 4) ? 1000 + draw(4000) : draw(60)); char* buf = NULL;
    if (stream) {
        src = gen_source(part); size_t pre = coin() ? 0 : std::min((size_t)draw(bufn + 1), part.n); buf = scratch(bufn); memcpy(buf, part.p, pre); src.pos = pre;
        mpack_reader_init(r, buf, bufn, pre); mpack_reader_set_context(r, &src); mpack_reader_set_fill(r, source_fill); if (coin()) mpack_reader_set_skip(r, source_skip);
        if (chance(1, 8)) { src.fail_at = (size_t)range(pre, part.n); src.fail_mode = (int)draw(2); }
    } else mpack_reader_init_data(r, part.p, part.n);
    std::vector<Open> open; bool wild = chance(1, 5); int nops = 1 + (int)draw(deep ? 400 : 40); size_t done = 0;
    note("reader on %zu bytes at %zu: %s, %s, %d ops", part.n, from, stream ? "stream" : "memory", wild ? "wild" : "guided", nops);
    for (int i = 0; i < nops && mpack_reader_error(r) == mpack_ok; i++) {
        if (!wild && !st.open_len) while (!open.empty() && open.back().left == 0) { if (open.back().t == mpack_type_map) mpack_done_map(r); else mpack_done_array(r); open.pop_back(); if (!open.empty()) open.back().left--; }
        work_begin();
        mpack_tag_t seen; int op = wild || chance(1, 12) ? -1 : guided(r, st, &seen);
        OpState before = st; size_t total = vt.total; size_t asked = scratch_list.size();
        if (mpack_reader_error(r) == mpack_ok) reader_op(r, &st, op); else op_name = "peek";
        size_t big = 0; for (size_t k = asked; k < scratch_list.size(); k++) big += 70000; (void)big; (void)total; (void)scratch_op;
        work_end(op_name, part.n + (stream ? part.n : 0) + 300); // every callback delivers at least one byte
        note("  %s -> %s", op_name, err_name(mpack_reader_error(r))); done++;
        if (mpack_reader_error(r) != mpack_ok || wild) { if (wild && chance(1, 2)) st = OpState(); continue; }
        if (before.open_len) { // some payload read happened; assume the guided one read all or finish it
            if (op == 5 || op == 6 || op == 7 || op == 8 || op == 9 || op == 10 || op == 11 || op == 12) { st.open_len = 0; if (coin()) { switch (before.open) { case mpack_type_str: mpack_done_str(r); break; case mpack_type_bin: mpack_done_bin(r); break; 
#if MPACK_EXTENSIONS
                case mpack_type_ext: mpack_done_ext(r); break;
#endif
                default: break; } } if (!open.empty()) open.back().left--; }
            continue;
        }
        if (op != -1 && seen.type != mpack_type_missing && op != 4 && op != 13 && op != 18) {
            bool cont = (seen.type == mpack_type_array || seen.type == mpack_type_map) && op != 17;
            if (cont) { if (open.size() < 4000) open.push_back({seen.type, seen.type == mpack_type_map ? (uint64_t)seen.v.n * 2 : seen.v.n}); }
            else if (!st.open_len && !open.empty() && open.back().left) open.back().left--;
        }
    }
    if (mpack_reader_error(r) == mpack_ok) { if (!open.empty() || st.open_len || wild || coin()) mpack_reader_flag_error(r, mpack_error_data); }
    mpack_reader_destroy(r); vt.breaks = 0;
    return done;
}
static mpack_node_data_t pool[128];
static void tree_run(const Box& b, size_t from, bool deep) {
    mpack_tree_t t; Box part(Bytes(b.p + from, b.n - from)); Source src; int kind = (int)draw(3);
    switch (kind) {
    case 0: mpack_tree_init_data(&t, part.p, part.n); if (chance(1, 4)) mpack_tree_set_limits(&t, 1 + (size_t)draw(part.n + 10), 1 + (size_t)draw(100)); break;
    case 1: mpack_tree_init_pool(&t, part.p, part.n, pool, 1 + (size_t)draw(128)); break;
    default: src = gen_source(part); if (chance(1, 6)) { src.fail_at = (size_t)draw(part.n + 1); src.fail_mode = (int)draw(2); } mpack_tree_init_stream(&t, source_tree_read, &src, chance(1, 4) ? 1 + (size_t)draw(part.n + 10) : (size_t)8 << 20, chance(1, 4) ? 1 + (size_t)draw(100) : (size_t)1 << 22); break;
    }
    int messages = 1 + (int)draw(3);
    for (int m = 0; m < messages && mpack_tree_error(&t) == mpack_ok; m++) {
        work_begin();
        bool ok; if (coin()) { mpack_tree_parse(&t); ok = mpack_tree_error(&t) == mpack_ok; op_name = "mpack_tree_parse"; } else { op_name = "mpack_tree_try_parse"; size_t g = 0; do { ok = mpack_tree_try_parse(&t); } while (!ok && mpack_tree_error(&t) == mpack_ok && g++ < 2 * part.n + 4 && !(chance(1, 20) && coin())); }
        work_end(op_name, 4 * part.n + 300);
        note("tree kind %d on %zu bytes at %zu: %s", kind, part.n, from, err_name(mpack_tree_error(&t)));
        if (!ok) break;
        std::vector<mpack_node_t> nodes; mpack_node_t n = mpack_tree_root(&t); nodes.push_back(n);
        // go down as far as one likes through correct accessors
        for (size_t g = 0, d = (size_t)draw(deep ? 300 : 6); g < d; g++) {
            if (mpack_node_type(n) == mpack_type_array && mpack_node_array_length(n)) n = mpack_node_array_at(n, (size_t)draw(mpack_node_array_length(n)));
            else if (mpack_node_type(n) == mpack_type_map && mpack_node_map_count(n)) { size_t k = (size_t)draw(mpack_node_map_count(n)); n = coin() ? mpack_node_map_value_at(n, k) : mpack_node_map_key_at(n, k); }
            else break;
            nodes.push_back(n);
        }
        int nops = (int)draw(20);
        for (int i = 0; i < nops && mpack_tree_error(&t) == mpack_ok; i++) { work_begin(); int o = (int)draw(NODE_OPS - (deep ? 1 : 0)); node_op(pick(nodes), &nodes, o); if (o != 51) work_end(op_name, part.n + 300); note("  %s -> %s", op_name, err_name(mpack_tree_error(&t))); }
    }
    size_t sz = mpack_tree_size(&t); CHECK(mpack_tree_error(&t) != mpack_ok || sz <= part.n || kind == 2, "tree size %zu of %zu bytes", sz, part.n);
    mpack_tree_destroy(&t); vt.breaks = 0;
}
static void count_print(void* c, const char* p, size_t n) { *(size_t*)c += n; volatile char x = n ? p[n - 1] : 0; (void)x; }
static void print_run(const Box& b) {
#if MPACK_DEBUG && MPACK_STDIO
    size_t bs = 1 + op_len(); char* p = scratch(bs); size_t n = 0;
    if (coin()) { mpack_print_data_to_buffer(b.p, b.n, p, bs); CHECK(strnlen(p, bs) < bs, "print left no terminator"); }
    if (coin()) mpack_print_data_to_callback(b.p, b.n, count_print, &n);
#endif
    (void)b;
}
static void tag_run(const Box& b) { // tags of whatever the bytes say
    mpack_tag_t prev = mpack_tag_nil(); mpack_reader_t r; mpack_reader_init_data(&r, b.p, b.n); int g = 0;
    while (mpack_reader_error(&r) == mpack_ok && g++ < 20) {
        mpack_tag_t t = mpack_read_tag(&r); if (mpack_reader_error(&r) != mpack_ok) break;
        CHECK(mpack_tag_equal(t, t) && mpack_tag_cmp(t, t) == 0, "a tag differs from itself"); CHECK((mpack_tag_cmp(t, prev) == 0) == mpack_tag_equal(t, prev), "tag comparison and equality disagree");
        mpack_type_t ty = mpack_tag_type(&t); uint32_t n = 0;
        switch (ty) { case mpack_type_str: n = mpack_tag_str_length(&t); break; case mpack_type_bin: n = mpack_tag_bin_length(&t); break; case mpack_type_array: (void)mpack_tag_array_count(&t); break; case mpack_type_map: (void)mpack_tag_map_count(&t); break; case mpack_type_bool: (void)mpack_tag_bool_value(&t); break; case mpack_type_int: (void)mpack_tag_int_value(&t); break; case mpack_type_uint: (void)mpack_tag_uint_value(&t); break;
#if MPACK_EXTENSIONS
        case mpack_type_ext: n = mpack_tag_ext_length(&t); (void)mpack_tag_ext_exttype(&t); break;
#endif
        default: break; }
#if MPACK_DEBUG && MPACK_STDIO
        char d[100]; size_t ds = 1 + (size_t)draw(99); mpack_tag_debug_describe(t, d, ds); CHECK(strnlen(d, ds) < ds, "describe left no terminator"); mpack_tag_debug_pseudo_json(t, d, ds, b.p, std::min(b.n, (size_t)12)); CHECK(strnlen(d, ds) < ds, "pseudo_json left no terminator");
#endif
        if (n) { if (coin()) mpack_skip_bytes(&r, n); else break; }
        if (mpack_reader_error(&r) != mpack_ok) break;
        switch (ty) { case mpack_type_str: mpack_done_str(&r); break; case mpack_type_bin: mpack_done_bin(&r); break;
#if MPACK_EXTENSIONS
        case mpack_type_ext: mpack_done_ext(&r); break;
#endif
        default: break; }
        prev = t;
    }
    if (mpack_reader_error(&r) == mpack_ok) mpack_reader_flag_error(&r, mpack_error_data);
    mpack_reader_destroy(&r); vt.breaks = 0;
}
// Deep or wide input through every whole-element operation.
static const uint64_t DEEP = 7 * 6 * 3;
static Bytes deep_bytes(int shape, size_t levels, bool closed) {
    static const char* const o[] = {"\x91", "\x81\xc0", "\xdc\x00\x01", "\xdd\x00\x00\x00\x01", "\x81", "\x92\xc0", "\xdf\x00\x00\x00\x01\xc2"}; static const size_t l[] = {1, 2, 3, 5, 1, 2, 6};
    Bytes b; b.reserve(levels * l[shape] * 2 + 8); for (size_t i = 0; i < levels; i++) b.append(o[shape], l[shape]);
    if (closed) { b += '\x01'; if (shape == 4) b.append(levels, '\x02'); }
    return b;
}
static void deep_case(uint64_t i) {
    int shape = (int)(i % 7), how = (int)(i / 7 % 6); static const size_t lv[] = {3000, 60000, 200000}; size_t levels = lv[i / 42]; bool closed = (how & 1) == 0;
    Bytes data = deep_bytes(shape, levels, closed); Box b(data); note("deep: shape %d, %zu levels, way %d, %s", shape, levels, how, closed ? "closed" : "cut off"); label("deep-enumerated"); nontrivial(i);
    Source src; src.p = b.p; src.n = b.n; src.sizes = {1, 700, 13, 4096}; mpack_tree_t t; mpack_reader_t r; char buf[512];
    work_begin();
    switch (how) {
    case 0: case 1: mpack_reader_init_data(&r, b.p, b.n); mpack_discard(&r); op_name = "mpack_discard"; break;
    case 2: case 3: mpack_reader_init(&r, buf, sizeof buf, 0); mpack_reader_set_context(&r, &src); mpack_reader_set_fill(&r, source_fill); mpack_discard(&r); op_name = "mpack_discard (stream)"; break;
    case 4: mpack_tree_init_data(&t, b.p, b.n); mpack_tree_parse(&t); op_name = "mpack_tree_parse"; break;
    default: mpack_tree_init_stream(&t, source_tree_read, &src, (size_t)1 << 24, (size_t)1 << 24); mpack_tree_parse(&t); op_name = "mpack_tree_parse (stream)"; break;
    }
    work_end(op_name, 2 * b.n);
    if (how < 4) { mpack_error_t e = mpack_reader_destroy(&r); CHECK((e == mpack_ok) == closed, "%s: %s", op_name, err_name(e)); }
    else { mpack_error_t e = mpack_tree_error(&t); CHECK((e == mpack_ok) == closed, "%s: %s", op_name, err_name(e)); mpack_tree_destroy(&t); }
}
uint64_t pbt_exhaustive_total() { return DEEP; }
void pbt::property_case() {
    int64_t ex = enumerated(); vt.allow_break = true;
    if (ex >= 0) { deep_case((uint64_t)ex); return; }
    Bytes data; bool deep = false;
    switch (draw(6)) {
    case 0: case 1: data = gen_wire(500, true); break;
    case 2: case 3: { GenOpt o; o.overlong = true; o.big = chance(1, 20); data = enc(gen_value(o)); data += enc(gen_value(GenOpt())); if (data.size() && coin()) for (int k = 1 + (int)draw(3); k > 0; k--) data[(size_t)draw(data.size())] = (char)(coin() ? pick({0xc4, 0xc6, 0xc7, 0xc9, 0xd4, 0xd9, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xff, 0x00, 0xc1}) : (int)draw(256)); break; }
    case 4: { deep = true; data = gen_deep(1 + (size_t)draw(chance(1, 10) ? 20000 : 300), coin()); break; }
    default: for (int k = 1 + (int)draw(12); k > 0; k--) { GenOpt o; o.overlong = true; data += enc(gen_scalar(o)); } break;
    }
    note("data %zu bytes: %s", data.size(), hex(data.data(), data.size(), 120).c_str());
    Box b(data); size_t ops = 0;
    int rounds = 1 + (int)draw(3); bool calm = data.size() < 2000;
    for (int i = 0; i < rounds; i++) {
        size_t from = i == 0 || data.empty() ? 0 : (size_t)draw(data.size());
        switch (draw(calm ? 8 : 6)) { case 0: case 1: case 2: ops += reader_run(b, from, deep); break; case 3: case 4: tree_run(b, from, deep); ops++; break; case 5: tag_run(b); break; default: if (!deep || data.size() < 400) print_run(b); break; }
    }
    scratch_clear();
    if (data.size() >= 4 && ops >= 2) nontrivial(hash_mix(hash_bytes(data.data(), data.size()), ops));
    if (deep) label("deep");
}
