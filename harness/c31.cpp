// C31: queries have no side effects: every query of a parsed tree gives what it
// gives as the first query of a fresh parse, however many others came before,
// and data handed over as const (input, keys, strings) is never written to.
#include "ops.h"
#include <sys/mman.h>
using namespace pbt;
const char* pbt::harness_name = "c31";
// A read-only copy at the end of a page: writing to it, even for a moment, ends the case.
struct Const {
    char* base; size_t len; const char* p; size_t n;
    explicit Const(const Bytes& b) : n(b.size()) {
        size_t pg = 4096; len = (n + pg) / pg * pg; base = (char*)mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED) abort();
        char* q = base + len - n; memcpy(q, b.data(), n); p = q; mprotect(base, len, PROT_READ);
    }
    ~Const() { munmap(base, len); }
    Const(const Const&) = delete; Const& operator=(const Const&) = delete;
};
static std::string fmt(const char* f, ...) { char b[160]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
// ---- queries of nodes
struct Tree {
    mpack_tree_t t; Source src; mpack_node_data_t* pool = nullptr; const char* base;
    Tree(int kind, const Const& m, const Source& s) : base(m.p) {
        src = s; src.pos = 0; src.si = 0;
        switch (kind) { case 0: mpack_tree_init_data(&t, m.p, m.n); break; case 1: pool = (mpack_node_data_t*)malloc(sizeof(mpack_node_data_t) * (m.n + 1)); mpack_tree_init_pool(&t, m.p, m.n, pool, m.n + 1); break;
        default: base = nullptr; mpack_tree_init_stream(&t, source_tree_read, &src, 1 << 20, 100000); }
        if (kind == 3) while (!mpack_tree_try_parse(&t) && mpack_tree_error(&t) == mpack_ok) { } else mpack_tree_parse(&t);
        CHECK(mpack_tree_error(&t) == mpack_ok, "parse: %s", err_name(mpack_tree_error(&t)));
    }
    ~Tree() { mpack_tree_destroy(&t); free(pool); }
};
typedef std::vector<uint32_t> Path;
static mpack_node_t walk(Tree& t, const Path& p) {
    mpack_node_t n = mpack_tree_root(&t.t);
    for (uint32_t i : p) n = mpack_node_type(n) == mpack_type_array ? mpack_node_array_at(n, i) : (i & 1) ? mpack_node_map_value_at(n, i / 2) : mpack_node_map_key_at(n, i / 2);
    return n;
}
struct Query { size_t at; int op; Bytes key; uint64_t a; };
static std::string handle(Tree& t, mpack_node_t n) {
    if (mpack_node_is_missing(n)) return "missing"; if (mpack_tree_error(&t.t) != mpack_ok) return "-";
    mpack_tag_t g = mpack_node_tag(n); std::string s = fmt("%d:%llx", (int)g.type, g.type == mpack_type_bool ? (unsigned long long)g.v.b : g.type == mpack_type_str || g.type == mpack_type_bin || g.type == mpack_type_array || g.type == mpack_type_map ? (unsigned long long)g.v.l : g.type == mpack_type_uint || g.type == mpack_type_int ? (unsigned long long)g.v.u : 0ull);
    if (g.type == mpack_type_str || g.type == mpack_type_bin) { const char* p = mpack_node_data(n); s += fmt("@%ld ", t.base ? (long)(p - t.base) : 0L) + hex(p, mpack_node_data_len(n)); }
    return s;
}
static const int OPS = 40;
static std::string ask(Tree& T, mpack_node_t n, const Query& q) {
    const char* k = q.key.c_str(); size_t kl = q.key.size(); const char* list[3] = {"a", k, "zz"}; size_t c; char* p; static char buf[400]; std::string s;
    auto num = [](long long v) { return fmt("%lld", v); }; auto cpy = [&](char* x) { if (!x) return std::string("NULL"); s = x; vt_free(x); return s; };
    switch (q.op) {
    case 0: return handle(T, n); case 1: return num(mpack_node_type(n)); case 2: return num(mpack_node_is_nil(n)); case 3: return num(mpack_node_is_missing(n));
    case 4: return num(mpack_node_bool(n)); case 5: return num(mpack_node_u8(n)); case 6: return num(mpack_node_i16(n)); case 7: return num(mpack_node_u32(n)); case 8: return num((long long)mpack_node_u64(n)); case 9: return num(mpack_node_i64(n)); case 10: return num(mpack_node_int(n));
#if MPACK_FLOAT
    case 11: return fmt("%llx", (unsigned long long)raw_of(mpack_node_float(n)));
#endif
#if MPACK_DOUBLE
    case 12: return fmt("%llx", (unsigned long long)raw_of(mpack_node_double(n))); case 13: return fmt("%llx", (unsigned long long)raw_of(mpack_node_double_strict(n)));
#endif
#if MPACK_EXTENSIONS
    case 14: { mpack_timestamp_t t = mpack_node_timestamp(n); return fmt("%lld.%u", (long long)t.seconds, t.nanoseconds); } case 15: return num(mpack_node_exttype(n));
#endif
    case 16: mpack_node_check_utf8(n); return "ok"; case 17: mpack_node_check_utf8_cstr(n); return "ok";
    case 18: return num((long long)mpack_node_strlen(n)); case 19: { const char* d = mpack_node_str(n); c = mpack_node_strlen(n); if (mpack_node_error(n) != mpack_ok) return "-"; return fmt("@%ld ", T.base ? (long)(d - T.base) : 0L) + hex(d, c); }
    case 20: { const char* d = mpack_node_bin_data(n); c = mpack_node_bin_size(n); if (mpack_node_error(n) != mpack_ok) return "-"; return fmt("@%ld ", T.base ? (long)(d - T.base) : 0L) + hex(d, c); }
    case 21: memset(buf, 7, sizeof buf); c = mpack_node_copy_data(n, buf, sizeof buf); return hex(buf, c); case 22: memset(buf, 7, sizeof buf); mpack_node_copy_cstr(n, buf, sizeof buf); return buf;
    case 23: memset(buf, 7, sizeof buf); mpack_node_copy_utf8_cstr(n, buf, sizeof buf); return buf; case 24: p = mpack_node_data_alloc(n, sizeof buf); if (p) { s = hex(p, mpack_node_data_len(n)); vt_free(p); } return s;
    case 25: return cpy(mpack_node_cstr_alloc(n, sizeof buf)); case 26: return num((long long)mpack_node_enum_optional(n, list, 3)); case 27: return num((long long)mpack_node_array_length(n));
    case 28: return handle(T, mpack_node_array_at(n, (size_t)q.a)); case 29: return num((long long)mpack_node_map_count(n)); case 30: return handle(T, mpack_node_map_key_at(n, (size_t)q.a)); case 31: return handle(T, mpack_node_map_value_at(n, (size_t)q.a));
    case 32: return handle(T, mpack_node_map_str(n, q.key.data(), kl)); case 33: return handle(T, mpack_node_map_str_optional(n, q.key.data(), kl)); case 34: return num(mpack_node_map_contains_str(n, q.key.data(), kl)); case 35: return handle(T, mpack_node_map_cstr_optional(n, k));
    case 36: return handle(T, mpack_node_map_uint_optional(n, q.a)); case 37: return handle(T, mpack_node_map_int(n, (int64_t)q.a)); case 38: return num(mpack_node_map_contains_int(n, (int64_t)q.a)) + num(mpack_node_map_contains_cstr(n, k));
    case 39: { s = num((long long)mpack_tree_size(&T.t));
#if MPACK_DEBUG && MPACK_STDIO
        memset(buf, 7, sizeof buf); mpack_node_print_to_buffer(n, buf, sizeof buf); s += buf;
#endif
        return s; }
    }
    return "none";
}
static int gen_op(const Value& v) {
    switch (v.k) {
    case BOOL: return chance(1, 2) ? 4 : (int)draw(4); case UINT: case INT: return 5 + (int)draw(chance(1, 4) ? 9 : 6); case FLT: case DBL: return 11 + (int)draw(3); case EXT: return 14 + (int)draw(2);
    case STR: return pick({16, 17, 18, 19, 21, 22, 23, 24, 25, 26}); case BIN: return pick({20, 21, 24}); case ARR: return 27 + (int)draw(2); case MAP: return 29 + (int)draw(10);
    default: return (int)draw(4);
    }
}
static void collect(const Value& v, Path& p, std::vector<Path>& ps, std::vector<const Value*>& vs) {
    ps.push_back(p); vs.push_back(&v);
    for (size_t i = 0; i < v.c.size(); i++) { p.push_back((uint32_t)i); collect(v.c[i], p, ps, vs); p.pop_back(); }
}
static void node_case() {
    GenOpt go; go.text_keys = coin(); go.max_nodes = pick<size_t>({5, 40, 120});
#if !MPACK_EXTENSIONS
    go.ext = false;
#endif
    Value v = gen_value(go);
    if (coin()) { Value m = mk(MAP); size_t n = 2 + (size_t)draw(chance(1, 12) ? 150 : 9); if (n > 30) while (v.c.size() > 2) v.c.pop_back(); for (size_t i = 0; i < n; i++) { bool txt = coin(); Value k = txt ? mk_data(STR, Bytes(1, (char)('a' + i % 26)) + (i < 26 ? Bytes() : std::to_string(i)) + gen_textish((size_t)draw(4))) : mk(UINT, i); m.c.push_back(k); m.c.push_back(coin() ? gen_scalar(go) : v); } v = m; }
    Const m(enc(v)); Box fed(Bytes(m.p, m.n)); Source src = gen_source(fed); int kind = (int)draw(4);
    std::vector<Path> ps; std::vector<const Value*> vs; { Path p; collect(v, p, ps, vs); }
    size_t nq = 2 + (size_t)draw(12); std::vector<Query> qs; std::vector<std::string> want;
    for (size_t i = 0; i < nq; i++) {
        Query q; q.at = (size_t)draw(ps.size()); const Value& x = *vs[q.at]; q.op = chance(1, 5) ? (int)draw(OPS) : gen_op(x); q.a = draw(x.count() + 1);
        q.key = "nokey"; if (x.k == MAP && !x.c.empty() && chance(3, 4)) { const Value& k = x.c[2 * (size_t)draw(x.count())]; if (k.k == STR) q.key = k.s; else if (k.k == UINT || k.k == INT) q.a = k.u; }
        if (chance(1, 8)) q.op = 39;
        Tree f(kind, m, src); std::string r = ask(f, walk(f, ps[q.at]), q);
        if (mpack_tree_error(&f.t) != mpack_ok) { label("query-in-error"); continue; } // (ends the tree: C10)
        qs.push_back(q); want.push_back(r);
    }
    if (qs.size() < 2) return;
    Tree t(kind, m, src); std::vector<mpack_node_t> hs; bool early = coin(); if (early) for (auto& q : qs) hs.push_back(walk(t, ps[q.at]));
    size_t steps = qs.size() * 2 + (size_t)draw(chance(1, 20) ? 400 : 20), last = 0;
    for (size_t i = 0; i < steps; i++) {
        size_t j = i < qs.size() ? (last + 1 + (size_t)draw(2)) % qs.size() : (size_t)draw(qs.size()); last = j; const Query& q = qs[j];
        std::string got = ask(t, early && coin() ? hs[j] : walk(t, ps[q.at]), q);
        CHECK(mpack_tree_error(&t.t) == mpack_ok, "query %zu (op %d of node %zu) ended in %s, alone it gave %s", i, q.op, q.at, err_name(mpack_tree_error(&t.t)), want[j].c_str());
        CHECK(got == want[j], "query %zu (op %d of node %zu) gave %s, alone it gave %s", i, q.op, q.at, got.c_str(), want[j].c_str());
    }
    CHECK(memcmp(fed.p, m.p, m.n) == 0, "the stream's data was changed");
    Value back; const char* why = nullptr; CHECK(node_value(mpack_tree_root(&t.t), back, &why) && eq(back, v, false), "after %zu queries the tree reads as %s", steps, show(back).c_str());
    nontrivial(hash_mix(hash_value(v), hash_mix(steps * 8 + (uint64_t)kind, qs.size()))); label("queries");
}
// ---- const input of readers
static void reader_case() {
    Bytes d = chance(1, 3) ? gen_wire(300) : enc(gen_value(GenOpt())) + enc(gen_value(GenOpt())); Const in(d); mpack_reader_t r; mpack_reader_init_data(&r, in.p, in.n);
    OpState st; int n = 1 + (int)draw(30); std::vector<std::pair<const char*, Bytes>> held; vt.allow_break = true;
    for (int i = 0; i < n && mpack_reader_error(&r) == mpack_ok; i++) {
        if (chance(1, 5)) { // bytes read in place stay what they are
            mpack_tag_t t = mpack_peek_tag(&r); if (mpack_reader_error(&r) == mpack_ok && (t.type == mpack_type_str || t.type == mpack_type_bin)) { const char* rest; size_t left = mpack_reader_remaining(&r, &rest); mpack_read_tag(&r); const char* p = mpack_read_bytes_inplace(&r, t.v.l); (void)left; (void)rest;
                if (mpack_reader_error(&r) == mpack_ok) { CHECK(p >= in.p && p + t.v.l <= in.p + in.n, "in-place data outside of the input"); held.push_back({p, Bytes(p, t.v.l)}); if (t.type == mpack_type_str) mpack_done_str(&r); else mpack_done_bin(&r); } continue; }
        }
        reader_op(&r, &st);
    }
    for (auto& h : held) CHECK(Bytes(h.first, h.second.size()) == h.second, "bytes read in place changed");
    mpack_reader_flag_error(&r, mpack_error_data); mpack_reader_destroy(&r); scratch_clear();
    nontrivial(hash_mix(hash_bytes(d.data(), d.size()), (uint64_t)n)); label("const-input");
}
// ---- const data given to writers
static void writer_case() {
    size_t n = chance(1, 8) ? 200 + (size_t)draw(70000) : (size_t)draw(60); bool txt = coin(); Const d(txt ? gen_textish(n) + Bytes(1, '\0') : gen_text(n, false) + Bytes(1, '\0')); n = d.n - 1;
    char* data = nullptr; size_t size = 0; mpack_writer_t w; Bytes want; Box buf(MPACK_WRITER_MINIMUM_BUFFER_SIZE + (size_t)draw(100)); static Bytes out; out.clear(); bool grow = coin(), build = coin();
    if (grow) mpack_writer_init_growable(&w, &data, &size); else { mpack_writer_init(&w, buf.p, buf.n); mpack_writer_set_flush(&w, [](mpack_writer_t*, const char* p, size_t c) { out.append(p, c); }); }
    size_t k = 1 + (size_t)draw(5); bool has0 = strlen(d.p) != n, u8 = ref_utf8((const uint8_t*)d.p, n);
    if (build) { mpack_build_array(&w); ref_header(want, ARR, k, 0, 1); }
    for (size_t i = 0; i < k; i++) switch (draw(6)) {
    case 0: mpack_write_str(&w, d.p, (uint32_t)n); ref_encode(mk_data(STR, Bytes(d.p, n)), want); break;
    case 1: mpack_write_bin(&w, d.p, (uint32_t)n); ref_encode(mk_data(BIN, Bytes(d.p, n)), want); break;
    case 2: if (u8) { mpack_write_utf8(&w, d.p, (uint32_t)n); ref_encode(mk_data(STR, Bytes(d.p, n)), want); break; } // fallthrough
    case 3: if (!has0) { mpack_write_cstr(&w, d.p); ref_encode(mk_data(STR, Bytes(d.p, n)), want); break; } // fallthrough
    case 4: mpack_start_bin(&w, (uint32_t)n); mpack_write_bytes(&w, d.p, n); mpack_finish_bin(&w); ref_encode(mk_data(BIN, Bytes(d.p, n)), want); break;
    default: { Const o(enc(mk_data(STR, Bytes(d.p, n)))); mpack_write_object_bytes(&w, o.p, o.n); want.append(o.p, o.n); break; }
    }
    if (build) mpack_complete_array(&w);
    mpack_error_t e = mpack_writer_destroy(&w); CHECK(e == mpack_ok, "writer: %s", err_name(e));
    if (grow) { out.assign(data, size); vt_free(data); }
    CHECK(out == want, "wrote %s, expected %s", hex(out.data(), out.size()).c_str(), hex(want.data(), want.size()).c_str());
    nontrivial(hash_mix(hash_bytes(want.data(), want.size()), 3)); label("const-output-data");
}
void pbt::property_case() { (void)enumerated(); switch (draw(6)) { case 0: reader_case(); break; case 1: writer_case(); break; default: node_case(); } }
