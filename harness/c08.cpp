// C08: a writer on a fixed buffer never writes outside it, succeeds exactly when
// the message fits and ends in too_big otherwise.
#include "drv.h"
using namespace pbt;
const char* pbt::harness_name = "c08";
uint64_t pbt_exhaustive_total() { return boundary_total(); }
static int err_calls; static mpack_error_t err_seen;
static void on_err(mpack_writer_t*, mpack_error_t e) { err_calls++; err_seen = e; }
static void try_size(const std::vector<Value>& vs, const Bytes& want, size_t size, const EmitOpt& eo, Plan& plan, const std::vector<size_t>& ends) {
    // guard bytes on both sides inside one block, and a block of exactly `size`
    for (int guard = 0; guard < 2; guard++) {
        plan.pos = 0; err_calls = 0;
        const size_t G = guard ? 64 : 0;
        Box b(size + 2 * G, 0xAB); char* buf = b.p + G;
        mpack_writer_t w;
        mpack_writer_init(&w, buf, size); mpack_writer_set_error_handler(&w, on_err);
        CHECK(mpack_writer_buffer_size(&w) == size && mpack_writer_buffer_left(&w) == size, "fresh writer reports size %zu left %zu", mpack_writer_buffer_size(&w), mpack_writer_buffer_left(&w));
        for (size_t i = 0; i < vs.size(); i++) {
            emit(&w, vs[i], eo);
            bool fits = ends[i] <= size;
            mpack_error_t e = mpack_writer_error(&w);
            CHECK((e == mpack_ok) == fits, "buffer of %zu bytes, %zu needed so far: error is %s", size, ends[i], err_name(e));
            if (fits) CHECK(mpack_writer_buffer_used(&w) == ends[i], "used %zu expected %zu", mpack_writer_buffer_used(&w), ends[i]);
        }
        // more writes after an overflow change nothing
        bool ok = want.size() <= size;
        if (!ok) { mpack_write_nil(&w); mpack_write_u8(&w, 1); mpack_write_str(&w, "abcdefgh", 8); mpack_write_bin(&w, want.data(), (uint32_t)(want.size() < 100 ? want.size() : 100)); mpack_start_array(&w, 0); mpack_finish_array(&w); }
        size_t used = ok ? mpack_writer_buffer_used(&w) : 0;
        mpack_error_t e = mpack_writer_destroy(&w);
        CHECK(e == (ok ? mpack_ok : mpack_error_too_big), "buffer %zu for %zu bytes: destroy returned %s", size, want.size(), err_name(e));
        CHECK(err_calls == (ok ? 0 : 1) && (ok || err_seen == mpack_error_too_big), "error callback called %d times (%s)", err_calls, err_name(err_seen));
        if (ok) CHECK(used == want.size() && memcmp(buf, want.data(), used) == 0, "buffer %zu: wrong content", size);
        if (guard) {
            for (size_t i = 0; i < G; i++) CHECK((unsigned char)b.p[i] == 0xAB && (unsigned char)b.p[G + size + i] == 0xAB, "byte %zd relative to a buffer of %zu was modified", (unsigned char)b.p[i] != 0xAB ? (ptrdiff_t)i - (ptrdiff_t)G : (ptrdiff_t)(size + i), size);
            // nothing past the end of the message either, when it fits
        }
    }
}
void pbt::property_case() {
    int64_t ex = enumerated();
    std::vector<Value> vs;
    EmitOpt eo;
    if (ex >= 0) {
        Value v = boundary_value((uint64_t)ex); v.form = 0;
#if !MPACK_EXTENSIONS
        if (v.k == EXT) return;
#endif
        vs.push_back(v); eo.builders = ex & 1;
    } else {
        GenOpt go; go.big = chance(1, 60); if (chance(1, 2)) { go.max_len = 40; go.max_nodes = 12; }
#if !MPACK_EXTENSIONS
        go.ext = false;
#endif
        size_t nmsg = 1 + (size_t)draw(3);
        for (size_t i = 0; i < nmsg; i++) vs.push_back(gen_value(go));
        eo.builders = chance(1, 3);
    }
    std::vector<size_t> ends; Bytes want; for (auto& v : vs) { ref_encode(v, want); ends.push_back(want.size()); }
    for (auto& v : vs) note("%s", show(v).c_str());
    Plan plan; emit_plan = &plan;
    { mpack_writer_t w; Box b(want.size()); mpack_writer_init(&w, b.p, b.n); for (auto& v : vs) emit(&w, v, eo); CHECK(mpack_writer_destroy(&w) == mpack_ok, "exact buffer of %zu bytes ended in error", b.n); }
    plan.replay = true;
    if (want.size() < 100000 && chance(1, 20) && huge_region()) { // a buffer longer than 32 bits can count
        size_t size = (size_t)0x100000000ull + (size_t)draw(want.size() + 1); char* b = huge_region(); plan.pos = 0; mpack_writer_t w; mpack_writer_init(&w, b, size); label("over-32-bits");
        for (size_t i = 0; i < vs.size(); i++) { emit(&w, vs[i], eo); CHECK(mpack_writer_error(&w) == mpack_ok && mpack_writer_buffer_used(&w) == ends[i] && mpack_writer_buffer_left(&w) == size - ends[i] && mpack_writer_buffer_size(&w) == size, "buffer of %zu bytes, %zu needed so far: error is %s, used %zu left %zu", size, ends[i], err_name(mpack_writer_error(&w)), mpack_writer_buffer_used(&w), mpack_writer_buffer_left(&w)); }
        CHECK(mpack_writer_destroy(&w) == mpack_ok && !memcmp(b, want.data(), want.size()), "buffer of %zu bytes: wrong content", size);
    }
    if (want.size() <= 40) for (size_t s = 0; s <= want.size() + 2; s++) try_size(vs, want, s, eo, plan, ends);
    else {
        try_size(vs, want, want.size(), eo, plan, ends); try_size(vs, want, want.size() - 1, eo, plan, ends); try_size(vs, want, 0, eo, plan, ends);
        int n = want.size() > 4000 ? 3 : 10;
        for (int i = 0; i < n; i++) try_size(vs, want, coin() ? (size_t)draw(want.size()) : (size_t)(ends[draw(ends.size())] - draw(ends[0] < 40 ? ends[0] : 40)), eo, plan, ends);
    }
    emit_plan = nullptr;
    if (want.size() > 2) nontrivial(hash_mix(hash_bytes(want.data(), want.size()), plan.d.size()));
    label(eo.builders ? "with-builders" : "plain");
}
