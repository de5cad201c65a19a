// C09: containers whose size is determined automatically encode exactly like
// declared ones.
#include "drv.h"
using namespace pbt;
const char* pbt::harness_name = "c09";
struct Sink { Bytes out; };
static void sink_flush(mpack_writer_t* w, const char* p, size_t n) { ((Sink*)mpack_writer_context(w))->out.append(p, n); }
static bool breaks;
// build a message with `pad` bytes in front of a nested builder, several shapes
static const int SHAPES = 12;
#ifdef VT_TINY
static const int PADS = 420;
#else
static const int PADS = 4300;
#endif
uint64_t pbt_exhaustive_total() { return (uint64_t)SHAPES * PADS; }
static Value arr(std::initializer_list<Value> l) { Value v = mk(ARR); v.c = l; return v; }
static Value map(std::initializer_list<Value> l) { Value v = mk(MAP); v.c = l; return v; }
static Value shape(int s, size_t pad) {
    Value p = mk_data(BIN, Bytes(pad, 'p')), x = mk(UINT, 7), b40 = mk_data(STR, Bytes(40, 'q')), f31 = mk_data(STR, Bytes(31, 'f'));
    switch (s) {
    case 0: return arr({p, arr({})});
    case 1: return arr({p, arr({}), x});
    case 2: return arr({p, map({x, p}), arr({arr({}), x})});
    case 3: return map({x, arr({p, arr({arr({arr({})})})}), mk_data(STR, "k"), x});
    case 4: return arr({p, arr({x, mk(UINT, ~0ull)}), b40});
    case 5: return arr({p, f31, arr({f31}), arr({}), arr({})});
    case 6: return arr({arr({}), p, arr({}), p});
    case 7: { Value v = arr({p}); for (int i = 0; i < 20; i++) v.c.push_back(arr({})); return v; }
    case 8: { Value v = arr({}); for (int i = 0; i < 30; i++) v = arr({mk_data(STR, Bytes(pad % 37, 'z')), v}); return v; }
    case 9: { Value v = map({}); for (size_t i = 0; i < 17; i++) { v.c.push_back(mk(UINT, i)); v.c.push_back(mk_data(BIN, Bytes((pad + i) % 60, 'm'))); } return arr({v, arr({v})}); }
    case 10: { Value v = arr({}); for (size_t i = 0; i < pad % 70; i++) v.c.push_back(mk(UINT, i)); return arr({p, v, v}); }
    default: return arr({mk_data(STR, Bytes(pad % 90, 's')), arr({mk_data(STR, Bytes(pad / 3, 't')), arr({f31}), mk(UINT, 1)}), arr({})});
    }
}
static void run(const Value& v, const EmitOpt& eo0, int sink, size_t cap) {
    EmitOpt eo = eo0; Bytes want = enc(v); mpack_writer_t w; Bytes got; mpack_error_t e;
    if (sink == 0) {
        char* d = NULL; size_t n = 0; mpack_writer_init_growable(&w, &d, &n);
        emit(&w, v, eo); e = mpack_writer_destroy(&w);
        if (e == mpack_ok) { got.assign(d, n); vt_free(d); }
    } else if (sink == 1) {
        Box b(want.size()); mpack_writer_init(&w, b.p, b.n); emit(&w, v, eo);
        got.assign(b.p, mpack_writer_buffer_used(&w)); e = mpack_writer_destroy(&w);
    } else {
        Box b(cap); Sink s; mpack_writer_init(&w, b.p, b.n); mpack_writer_set_context(&w, &s); mpack_writer_set_flush(&w, sink_flush);
        emit(&w, v, eo); e = mpack_writer_destroy(&w); got = s.out;
    }
    CHECK(e == mpack_ok, "builder document ended in %s (sink %d)", err_name(e), sink);
    if (got != want) {
        size_t d = 0; while (d < got.size() && d < want.size() && got[d] == want[d]) d++;
        fail("sink %d: %zu bytes, expected %zu; first difference at %zu: %s vs %s; value %s", sink, got.size(), want.size(), d, hex(got.data() + d, got.size() - d, 16).c_str(), hex(want.data() + d, want.size() - d, 16).c_str(), show(v, 200).c_str());
    }
}
static size_t count_builds(const Value& v) { size_t n = (v.k == ARR || v.k == MAP); for (auto& c : v.c) n += count_builds(c); return n; }
// an automatic map that ends after a key, at any depth
static void odd_map() {
    vt.allow_break = true;
    GenOpt go; go.max_nodes = 6; go.max_len = 200;
#if !MPACK_EXTENSIONS
    go.ext = false;
#endif
    EmitOpt eo; eo.builders = true; eo.object_bytes = true;
    int outer = (int)draw(5); size_t pairs = (size_t)draw(20);
    Sink s; Box b(MPACK_WRITER_MINIMUM_BUFFER_SIZE + (size_t)draw(60)); mpack_writer_t w; char* d = NULL; size_t n = 0; bool grow = coin();
    if (grow) mpack_writer_init_growable(&w, &d, &n);
    else { mpack_writer_init(&w, b.p, b.n); mpack_writer_set_context(&w, &s); mpack_writer_set_flush(&w, sink_flush); }
    for (int i = 0; i < outer; i++) mpack_build_array(&w);
    mpack_build_map(&w);
    for (size_t i = 0; i < pairs; i++) { emit(&w, gen_value(go), eo); emit(&w, gen_value(go), eo); }
    emit(&w, gen_value(go), eo);
    CHECK(mpack_writer_error(&w) == mpack_ok && vt.breaks == 0, "error %s before the odd map was completed", err_name(mpack_writer_error(&w)));
    mpack_complete_map(&w);
    CHECK(mpack_writer_error(&w) == mpack_error_bug, "completing a map after a key without value gave %s", err_name(mpack_writer_error(&w)));
    for (int i = 0; i < outer; i++) mpack_complete_array(&w);
    CHECK(mpack_writer_destroy(&w) == mpack_error_bug, "destroy lost the error");
    CHECK(s.out.empty() && d == NULL, "an odd map was emitted");
    label("odd-map"); nontrivial(hash_mix(outer * 100 + pairs, draw(1) + n)); note("odd map inside %d arrays after %zu pairs", outer, pairs);
}
void pbt::property_case() {
    int64_t ex = enumerated();
    EmitOpt eo; eo.builders = true;
    if (ex >= 0) {
        Value v = shape((int)(ex % SHAPES), (size_t)(ex / SHAPES));
        eo.all_builders = true; eo.plain = true;
        run(v, eo, 0, 0); run(v, eo, 1, 0); run(v, eo, 2, MPACK_WRITER_MINIMUM_BUFFER_SIZE);
        note("shape %d pad %d, every container automatic", (int)(ex % SHAPES), (int)(ex / SHAPES)); nontrivial((uint64_t)ex + 1); return;
    }
    if (chance(1, 12)) { odd_map(); return; }
    GenOpt go; go.max_depth = 2 + (int)draw(7); go.max_nodes = 60; go.big = chance(1, 40); if (coin()) go.max_len = 60;
#if !MPACK_EXTENSIONS
    go.ext = false;
#endif
#ifndef VT_TINY
    if (chance(1, 3)) go.max_len = 3000;
#endif
    Value v = gen_value(go);
    if (v.k != ARR && v.k != MAP) v = arr({v, arr({}), v});
    if (chance(1, 10)) { int n = (int)draw(60); for (int i = 0; i < n; i++) v = coin() ? arr({v}) : map({mk(UINT, (uint64_t)i), v}); label("deep"); }
    eo.all_builders = coin(); eo.plain = chance(1, 4);
    note("%s", show(v).c_str());
    Plan plan; emit_plan = &plan;
    run(v, eo, 0, 0);
    plan.replay = true; plan.pos = 0; run(v, eo, 1, 0);
    plan.pos = 0; run(v, eo, 2, MPACK_WRITER_MINIMUM_BUFFER_SIZE + (size_t)draw(4));
    plan.pos = 0; run(v, eo, 2, MPACK_WRITER_MINIMUM_BUFFER_SIZE + (size_t)draw(400));
    emit_plan = nullptr;
    if (count_builds(v) > 1) nontrivial(hash_mix(hash_value(v), eo.all_builders));
}
