// C07: writer output does not depend on its buffer and sink. The same recorded
// sequence of calls is replayed on every kind of sink.
#include "drv.h"
using namespace pbt;
const char* pbt::harness_name = "c07";
struct Sink { Bytes out; size_t calls = 0, empty = 0; const char* buf = nullptr; size_t cap = 0; };
static void sink_flush(mpack_writer_t* w, const char* p, size_t n) {
    Sink* s = (Sink*)mpack_writer_context(w); s->calls++; if (!n) s->empty++;
    s->out.append(p, n);
    if (s->buf && n && p >= s->buf && p < s->buf + s->cap) memset((char*)p, 0xdd, n); // the callback owns what it was given
}
struct Track { std::vector<size_t>* log; bool record; size_t i = 0; Sink* sink = nullptr; const char* what = ""; };
static void between(mpack_writer_t* w, void* ctx) {
    Track* t = (Track*)ctx; if (!t->log) return;
    size_t used = mpack_writer_buffer_used(w) + (t->sink ? t->sink->out.size() : 0);
    CHECK(mpack_writer_buffer_used(w) + mpack_writer_buffer_left(w) == mpack_writer_buffer_size(w), "%s: used %zu + left %zu != size %zu", t->what, mpack_writer_buffer_used(w), mpack_writer_buffer_left(w), mpack_writer_buffer_size(w));
    if (t->record) t->log->push_back(used);
    else { CHECK(t->i < t->log->size() && (*t->log)[t->i] == used, "%s: %zu bytes delivered or buffered before call %zu, the growable buffer had %zu", t->what, used, t->i, t->i < t->log->size() ? (*t->log)[t->i] : 0); t->i++; }
}
void pbt::property_case() {
    (void)enumerated();
    GenOpt go; go.big = chance(1, 40); go.ext = true; if (chance(1, 3)) go.max_len = 30;
#if !MPACK_EXTENSIONS
    go.ext = false;
#endif
    EmitOpt eo; eo.builders = chance(1, 3);
    size_t nmsg = (size_t)draw(5) + (chance(1, 20) ? 0 : 1);
    std::vector<Value> vs; for (size_t i = 0; i < nmsg; i++) vs.push_back(gen_value(go));
    std::vector<size_t> log; bool watch = !eo.builders;
    Plan plan; emit_plan = &plan;
    // 1. growable: records the calls
    Bytes ref; mpack_writer_t w; std::vector<size_t> ends;
    {
        char* data = (char*)1; size_t size = 4321;
        mpack_writer_init_growable(&w, &data, &size);
        Track t{watch ? &log : nullptr, true}; eo.between = between; eo.ctx = &t;
        size_t before = 0;
        for (auto& v : vs) { emit(&w, v, eo); size_t u = mpack_writer_buffer_used(&w); CHECK(u >= before, "used size went back"); before = u; ends.push_back(u); }
        size_t used = mpack_writer_buffer_used(&w);
        mpack_error_t e = mpack_writer_destroy(&w);
        CHECK(e == mpack_ok, "growable writer ended in %s", err_name(e));
        CHECK(size == used, "growable size %zu, used before destroy %zu", size, used);
        CHECK(data != NULL && vt_is_live(data), "growable data pointer is not a live block");
        CHECK(vt_size(data) >= size, "growable data block is %zu bytes for %zu", vt_size(data), size);
        ref.assign(data, size); vt_free(data);
    }
    Bytes want; for (auto& v : vs) ref_encode(v, want);
    CHECK(ref == want, "growable output differs from the reference encoding: %s vs %s", hex(ref.data(), ref.size(), 80).c_str(), hex(want.data(), want.size(), 80).c_str());
    for (auto& v : vs) note("%s", show(v).c_str());
    plan.replay = true;
    // 1b. growable, flushed between messages: neither the bytes nor the order of
    // magnitude of the memory used may depend on how often
    if (chance(1, 2)) {
        plan.pos = 0; char* data = nullptr; size_t size = 0;
        mpack_writer_init_growable(&w, &data, &size); eo.between = nullptr;
        size_t i = 0, flushes = 0; bool many = chance(1, 6);
        for (auto& v : vs) {
            size_t k = many ? (size_t)draw(40) : (size_t)draw(3);
            for (size_t j = 0; j < k; j++) { mpack_writer_flush_message(&w); flushes++; CHECK(mpack_writer_error(&w) == mpack_ok, "flushing a growable writer %zu times with %zu bytes ended in %s", flushes, i ? ends[i - 1] : 0, err_name(mpack_writer_error(&w))); CHECK(mpack_writer_buffer_used(&w) == (i ? ends[i - 1] : 0), "growable: used %zu after flush_message", mpack_writer_buffer_used(&w)); }
            emit(&w, v, eo); CHECK(mpack_writer_buffer_used(&w) == ends[i], "growable with flushes: used %zu after message %zu, expected %zu", mpack_writer_buffer_used(&w), i, ends[i]); i++;
        }
        size_t cap = mpack_writer_buffer_size(&w);
        mpack_error_t e = mpack_writer_destroy(&w);
        CHECK(e == mpack_ok && size == want.size() && memcmp(data, want.data(), size) == 0, "growable writer with flushes ended in %s with %zu bytes, expected %zu", err_name(e), size, want.size());
        CHECK(cap <= MPACK_BUFFER_SIZE * 2 + want.size() * 8, "the growable buffer holds %zu bytes for %zu after %zu flushes", cap, want.size(), flushes);
        vt_free(data); eo.between = between; if (flushes > 12) label("many-growable-flushes");
    }
    // 2. sufficiently large fixed buffer (exact or larger)
    {
        plan.pos = 0; Box b(want.size() + (coin() ? 0 : (size_t)draw(50)));
        mpack_writer_init(&w, b.p, b.n);
        Track t{watch ? &log : nullptr, false, 0, nullptr, "fixed buffer"}; eo.ctx = &t;
        size_t i = 0; for (auto& v : vs) { emit(&w, v, eo); CHECK(mpack_writer_buffer_used(&w) == ends[i], "fixed buffer: used %zu after message %zu, growable %zu", mpack_writer_buffer_used(&w), i, ends[i]); i++; }
        size_t used = mpack_writer_buffer_used(&w);
        mpack_error_t e = mpack_writer_destroy(&w);
        CHECK(e == mpack_ok, "fixed buffer of %zu for %zu bytes ended in %s", b.n, want.size(), err_name(e));
        CHECK(used == want.size() && memcmp(b.p, want.data(), used) == 0, "fixed buffer output differs (%zu bytes, expected %zu)", used, want.size());
    }
    // 3. flush callback with several buffer sizes and manual flushes
    int rounds = 1 + (int)draw(3);
    for (int r = 0; r < rounds; r++) {
        plan.pos = 0;
        size_t cap = MPACK_WRITER_MINIMUM_BUFFER_SIZE + (r == 0 ? (size_t)draw(4) : chance(1, 4) && want.size() > 40 ? want.size() - MPACK_WRITER_MINIMUM_BUFFER_SIZE - 2 + (size_t)draw(5) : (size_t)draw(300));
        if (cap < MPACK_WRITER_MINIMUM_BUFFER_SIZE) cap = MPACK_WRITER_MINIMUM_BUFFER_SIZE;
        Box b(cap); Sink s; s.buf = b.p; s.cap = cap; int flushes = 0;
        mpack_writer_init_stack(&w); // (a macro that declares a local buffer)
        if (chance(1, 12)) { cap = s.cap = MPACK_STACK_SIZE; s.buf = nullptr; label("stack-buffer"); } else { mpack_writer_destroy(&w); mpack_writer_init(&w, b.p, b.n); }
        mpack_writer_set_context(&w, &s); mpack_writer_set_flush(&w, sink_flush);
        Track t{watch ? &log : nullptr, false, 0, &s, "flush callback"}; eo.ctx = &t;
        size_t i = 0; unsigned often = (unsigned)draw(3);
        for (auto& v : vs) {
            if (often && chance(often, 3)) { mpack_writer_flush_message(&w); flushes++; CHECK(mpack_writer_buffer_used(&w) == 0, "bytes left in the buffer after mpack_writer_flush_message"); CHECK(s.out.size() == (i ? ends[i - 1] : 0), "flush_message delivered up to %zu, expected %zu", s.out.size(), i ? ends[i - 1] : 0); }
            emit(&w, v, eo);
            CHECK(s.out.size() + mpack_writer_buffer_used(&w) == ends[i], "flush buffer %zu: %zu bytes after message %zu, growable %zu", cap, s.out.size() + mpack_writer_buffer_used(&w), i, ends[i]);
            i++;
        }
        if (coin()) { mpack_writer_flush_message(&w); CHECK(s.out.size() == want.size(), "final flush_message delivered %zu of %zu", s.out.size(), want.size()); }
        mpack_error_t e = mpack_writer_destroy(&w);
        CHECK(e == mpack_ok, "writer with flush buffer %zu ended in %s", cap, err_name(e));
        if (s.out != want) { size_t d = 0; while (d < s.out.size() && d < want.size() && s.out[d] == want[d]) d++; fail("flush buffer %zu: delivered %zu bytes, expected %zu, first difference at %zu", cap, s.out.size(), want.size(), d); }
        if (s.calls > 1) label("several-flushes");
    }
    // 4. the documented minimum is enforced
    if (chance(1, 30)) {
        Box b((size_t)draw(MPACK_WRITER_MINIMUM_BUFFER_SIZE)); Sink s; vt.allow_break = true;
        mpack_writer_init(&w, b.p, b.n); mpack_writer_set_context(&w, &s); mpack_writer_set_flush(&w, sink_flush);
        CHECK(mpack_writer_error(&w) == mpack_error_bug, "flush with a %zu byte buffer gave %s", b.n, err_name(mpack_writer_error(&w)));
        plan.pos = 0; eo.between = nullptr; if (vs.size() == 1 && !eo.builders) emit(&w, vs[0], eo);
        CHECK(mpack_writer_destroy(&w) == mpack_error_bug && s.out.empty(), "writer below the minimum delivered bytes"); label("below-minimum");
    }
    emit_plan = nullptr;
    label(eo.builders ? "with-builders" : "plain");
    if (want.size() > MPACK_WRITER_MINIMUM_BUFFER_SIZE) nontrivial(hash_mix(hash_bytes(want.data(), want.size()), nmsg));
}
