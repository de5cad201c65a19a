// C02: whatever the writer produces reads back unchanged through every decoder.
#include "drv.h"
using namespace pbt;
const char* pbt::harness_name = "c02";

static Bytes write_all(const std::vector<Value>& vs, bool builders) {
    EmitOpt eo; eo.builders = builders;
    char* data = NULL; size_t size = 0; mpack_writer_t w;
    mpack_writer_init_growable(&w, &data, &size);
    for (auto& v : vs) emit(&w, v, eo);
    mpack_error_t e = mpack_writer_destroy(&w);
    CHECK(e == mpack_ok, "writing failed: %s", err_name(e));
    Bytes b(data ? data : "", size); vt_free(data);
    return b;
}
static void copy_one(mpack_reader_t* r, mpack_writer_t* w) {
    mpack_tag_t t = mpack_read_tag(r);
    if (mpack_reader_error(r) != mpack_ok) return;
    mpack_write_tag(w, t);
    switch (t.type) {
    case mpack_type_str: case mpack_type_bin:
#if MPACK_EXTENSIONS
    case mpack_type_ext:
#endif
    {
        uint32_t left = mpack_tag_bytes(&t);
        while (left) { char b[97]; uint32_t k = left < sizeof b ? left : sizeof b; mpack_read_bytes(r, b, k); if (mpack_reader_error(r) != mpack_ok) return; mpack_write_bytes(w, b, k); left -= k; }
        mpack_done_type(r, t.type); mpack_finish_type(w, t.type); break; }
    case mpack_type_array: { uint32_t n = mpack_tag_array_count(&t); for (uint32_t i = 0; i < n; i++) copy_one(r, w); mpack_done_array(r); mpack_finish_array(w); break; }
    case mpack_type_map: { uint32_t n = mpack_tag_map_count(&t); for (uint32_t i = 0; i < n; i++) { copy_one(r, w); copy_one(r, w); } mpack_done_map(r); mpack_finish_map(w); break; }
    default: break;
    }
}
static void copy_node(mpack_node_t n, mpack_writer_t* w) {
    mpack_tag_t t = mpack_node_tag(n);
    mpack_write_tag(w, t);
    switch (t.type) {
    case mpack_type_str: case mpack_type_bin:
#if MPACK_EXTENSIONS
    case mpack_type_ext:
#endif
        mpack_write_bytes(w, mpack_node_data(n), mpack_node_data_len(n)); mpack_finish_type(w, t.type); break;
    case mpack_type_array: for (size_t i = 0; i < mpack_node_array_length(n); i++) copy_node(mpack_node_array_at(n, i), w); mpack_finish_array(w); break;
    case mpack_type_map: for (size_t i = 0; i < mpack_node_map_count(n); i++) { copy_node(mpack_node_map_key_at(n, i), w); copy_node(mpack_node_map_value_at(n, i), w); } mpack_finish_map(w); break;
    default: break;
    }
}
static void cmp(const Value& got, const Value& want, const char* how) { CHECK(eq(got, want, true), "%s: read %s, wrote %s", how, show(got).c_str(), show(want).c_str()); }

uint64_t pbt_exhaustive_total() { return boundary_total(); }
void pbt::property_case() {
    int64_t ex = enumerated();
    GenOpt go; go.big = chance(1, 30); go.text_keys = coin(); go.max_len = chance(1, 8) ? 6000 : 200;
    size_t nmsg = 1 + (size_t)draw(3);
    std::vector<Value> vs; for (size_t i = 0; i < nmsg; i++) { vs.push_back(gen_value(go)); }
    if (ex >= 0) { vs.resize(1); vs[0] = boundary_value((uint64_t)ex); vs[0].form = 0; vs.push_back(mk(NIL)); label("boundary"); }
    for (auto& v : vs) note("value %s", show(v).c_str());
    Bytes doc = write_all(vs, chance(1, 3));
    note("doc %zu bytes: %s", doc.size(), hex(doc.data(), doc.size(), 80).c_str());
    Box box(doc);
    // decoders: reader (mode 0), expect (1), tree (2), copy through reader (3), copy through nodes (4)
    for (int mode = 0; mode < 5; mode++) {
        bool stream = chance(1, 2);
        if (mode == 0 || mode == 1 || mode == 3) {
            mpack_reader_t r; Source src = gen_source(box);
            Box buf(MPACK_READER_MINIMUM_BUFFER_SIZE + (size_t)draw(80));
            if (stream) { mpack_reader_init(&r, buf.p, buf.n, 0); mpack_reader_set_context(&r, &src); mpack_reader_set_fill(&r, source_fill); if (coin()) mpack_reader_set_skip(&r, source_skip); }
            else mpack_reader_init_data(&r, box.p, box.n);
            if (mode == 3) {
                char* data = NULL; size_t size = 0; mpack_writer_t w; mpack_writer_init_growable(&w, &data, &size);
                for (size_t i = 0; i < vs.size(); i++) copy_one(&r, &w);
                CHECK(mpack_reader_error(&r) == mpack_ok, "copying: reader error %s", err_name(mpack_reader_error(&r)));
                mpack_error_t e = mpack_writer_destroy(&w);
                CHECK(e == mpack_ok, "copying: writer error %s", err_name(e));
                Bytes c(data ? data : "", size); vt_free(data);
                CHECK(c == doc, "tag-by-tag copy differs: %s vs %s", hex(c.data(), c.size()).c_str(), hex(doc.data(), doc.size()).c_str());
            } else for (auto& v : vs) {
                if (mode == 0) { ReadOpt ro; if (stream) ro.max_inplace = buf.n; Value x; bool ok = read_value(&r, x, ro); CHECK(ok, "reader failed with %s on %s", err_name(mpack_reader_error(&r)), show(v).c_str()); cmp(x, v, stream ? "stream reader" : "reader"); }
                else expect_value(&r, v);
            }
            const char* d; size_t rem = mpack_reader_remaining(&r, &d);
            CHECK(rem + (stream ? src.n - src.pos : 0) == 0, "mode %d: %zu bytes left unread", mode, rem + (stream ? src.n - src.pos : 0));
            mpack_error_t e = mpack_reader_destroy(&r);
            CHECK(e == mpack_ok, "mode %d: reader destroy returned %s", mode, err_name(e));
        } else {
            mpack_tree_t t; Source src = gen_source(box);
            size_t limit = doc.size() + 4096;
            if (stream) { mpack_tree_init_stream(&t, source_tree_read, &src, limit, 2000000); }
            else mpack_tree_init_data(&t, box.p, box.n);
            char* data = NULL; size_t size = 0; mpack_writer_t w; if (mode == 4) mpack_writer_init_growable(&w, &data, &size);
            size_t off = 0;
            for (auto& v : vs) {
                mpack_tree_parse(&t);
                CHECK(mpack_tree_error(&t) == mpack_ok, "tree parse failed with %s", err_name(mpack_tree_error(&t)));
                off += enc(v).size();
                CHECK(mpack_tree_size(&t) == enc(v).size(), "tree size %zu, message is %zu", mpack_tree_size(&t), enc(v).size());
                if (mode == 2) { Value x; const char* why = ""; CHECK(node_value(mpack_tree_root(&t), x, &why), "node read failed: %s", why); cmp(x, v, stream ? "stream tree" : "tree"); }
                else copy_node(mpack_tree_root(&t), &w);
            }
            CHECK(off == doc.size(), "internal: sizes"); 
            if (stream) CHECK(src.pos == src.n, "stream not fully consumed");
            CHECK(mpack_tree_destroy(&t) == mpack_ok, "tree destroy error");
            if (mode == 4) {
                CHECK(mpack_writer_destroy(&w) == mpack_ok, "node copy: writer error");
                Bytes c(data ? data : "", size); vt_free(data);
                CHECK(c == doc, "node-by-node copy differs: %s vs %s", hex(c.data(), c.size()).c_str(), hex(doc.data(), doc.size()).c_str());
            }
        }
    }
    uint64_t h = 0; size_t n = 0; for (auto& v : vs) { h = hash_value(v, h); n += node_count(v); }
    if (n >= 3) nontrivial(h);
    label(n >= 20 ? "nodes>=20" : n >= 3 ? "nodes>=3" : "small");
    if (doc.size() > 4096) label("doc>4096");
}
