// C04: the tree parser accepts exactly the valid messages and represents them faithfully.
#include "treecmp.h"
using namespace pbt;
const char* pbt::harness_name = "c04";
uint64_t pbt_exhaustive_total() { return 256 * 3 + boundary_total(); }
static std::vector<mpack_node_data_t> pool(3000);

// Parses all consecutive messages; returns number of good messages.
static size_t run(const Bytes& in, int mode, bool use_try) {
    Box box(in); const uint8_t* p = (const uint8_t*)box.p; size_t n = box.n, pos = 0, good = 0;
    mpack_tree_t t;
    if (mode == 1) mpack_tree_init_pool(&t, box.p, box.n, pool.data(), pool.size());
    else if (chance(1, 8)) mpack_tree_init(&t, box.p, box.n); else mpack_tree_init_data(&t, box.p, box.n);
    for (;;) {
        Verdict v = tree_verdict(p + pos, n - pos);
        if (mode == 1 && v.err == mpack_ok && v.nodes > pool.size()) break; // C19's business
        if (mode == 1 && v.err != mpack_ok && n - pos > pool.size()) break;
        bool ok; 
        if (use_try) { ok = mpack_tree_try_parse(&t); }
        else { mpack_tree_parse(&t); ok = mpack_tree_error(&t) == mpack_ok; }
        mpack_error_t e = mpack_tree_error(&t);
        if (v.err != mpack_ok) {
            CHECK(!ok && e == v.err, "message %zu at offset %zu of %s: error %s, expected %s", good, pos, hex(in.data(), n).c_str(), err_name(e), err_name(v.err));
            CHECK(mpack_tree_size(&t) == 0, "tree size is %zu after a parsing error", mpack_tree_size(&t));
            mpack_node_t r = mpack_tree_root(&t);
            CHECK(mpack_node_type(r) == mpack_type_nil, "root is not nil after a parsing error");
            CHECK(mpack_node_tag(r).type == mpack_type_nil && mpack_node_map_count(r) == 0 && mpack_node_array_length(r) == 0 && mpack_node_data_len(r) == 0 && mpack_node_u64(r) == 0, "the root exposes content after a parsing error");
            label(pos == n ? "no-data" : v.claim ? "claims-too-much" : v.err == mpack_error_unsupported ? "unsupported" : "invalid");
            CHECK(mpack_tree_destroy(&t) == v.err, "destroy lost the error");
            return good;
        }
        CHECK(ok && e == mpack_ok, "valid message %zu at offset %zu of %s (size %zu, %llu nodes) gave %s", good, pos, hex(in.data(), n).c_str(), v.used, (unsigned long long)v.nodes, err_name(e));
        CHECK(mpack_tree_size(&t) == v.used, "tree size %zu, the message has %zu bytes", mpack_tree_size(&t), v.used);
        mpack_node_t root = mpack_tree_root(&t);
        cmp_tree(root, p + pos, v.used, box.p + pos);
        if (v.nodes < 400 && v.used < 3000 && ref_scan(p + pos, v.used, EXTS).maxdepth < 60) {
            size_t q = 0; Value want = ref_decode(p + pos, v.used, q), got; const char* why = "";
            CHECK(node_value(root, got, &why), "reading the tree: %s", why);
            quieten(got); quieten(want); CHECK(eq(got, want, true), "tree is %s, message is %s", show(got).c_str(), show(want).c_str());
        }
        CHECK(mpack_tree_size(&t) == v.used, "tree size changed to %zu while reading nodes", mpack_tree_size(&t));
        good++; pos += v.used;
        if (good > 40) break;
    }
    CHECK(mpack_tree_destroy(&t) == mpack_ok, "destroy reports an error");
    return good;
}
// A data range longer than 32 bits can count.
static bool huge_case() {
    GenOpt o; o.ext = EXTS; o.max_len = 60; Bytes in; size_t k = 1 + (size_t)draw(3); std::vector<Value> vs; for (size_t i = 0; i < k; i++) { vs.push_back(gen_value(o)); in += enc(vs.back()); }
    if (in.size() > 100000) return false;
    char* base = huge_message(in); if (!base) return false;
    size_t n = (size_t)0x100000000ull + (size_t)draw(in.size() + 1), pos = 0; mpack_tree_t t; if (coin()) mpack_tree_init_data(&t, base, n); else mpack_tree_init_pool(&t, base, n, pool.data(), pool.size());
    for (auto& v : vs) {
        size_t len = enc(v).size(); if (node_count(v) >= pool.size()) { mpack_tree_destroy(&t); return false; }
        if (coin()) mpack_tree_parse(&t); else CHECK(mpack_tree_try_parse(&t), "parsing was not finished"); CHECK(mpack_tree_error(&t) == mpack_ok, "parsing %s in %zu bytes: %s", show(v).c_str(), n, err_name(mpack_tree_error(&t)));
        CHECK(mpack_tree_size(&t) == len, "tree size %zu, the message has %zu bytes", mpack_tree_size(&t), len); cmp_tree(mpack_tree_root(&t), (const uint8_t*)base + pos, len, base + pos); pos += len;
    }
    CHECK(mpack_tree_destroy(&t) == mpack_ok, "destroy"); note("%zu bytes of data starting with %s", n, hex(in.data(), in.size()).c_str()); label("over-32-bits"); nontrivial(hash_bytes(in.data(), in.size(), n)); return true;
}
void pbt::property_case() {
    int64_t ex = enumerated();
    if (ex < 0 && chance(1, 400) && huge_case()) return;
    if (ex >= 256 * 3) {
        Value v = boundary_value((uint64_t)ex - 256 * 3);
        if (v.k == EXT && !EXTS) return;
        Bytes in = enc(v) + "\xc3";
        note("boundary: %s count %zu bytes %zu form %d", kind_name(v.k), v.count(), v.s.size(), v.form);
        run(in, 0, false); run(in, 0, true); if (node_count(v) < 2900) run(in, 1, false);
        in.resize(in.size() - 2); run(in, 0, false);
        nontrivial((uint64_t)ex + 1); label("boundary"); return;
    }
    if (ex >= 0) {
        int b0 = (int)(ex % 256), tail = (int)(ex / 256);
        for (int b1 = 0; b1 < 256; b1++) {
            Bytes in; in += (char)b0; in += (char)b1;
            if (tail == 1) in += Bytes("\x01\x80\xff\x00\x7f\xc0\xc1\x10\x91\xa1\xca\xd0", 12);
            if (tail == 2) { in += Bytes(300, '\0'); in += "\xc0\xc0\xc0\xc0"; }
            for (size_t cut = tail == 1 ? 0 : in.size(); cut <= in.size(); cut++) {
                if (tail == 1 && b1 % 16 && cut < in.size()) continue;
                run(in.substr(0, cut), b1 & 1, false);
            }
        }
        nontrivial((uint64_t)ex + 1); note("all inputs starting with byte %02x, tail variant %d", b0, tail);
        return;
    }
    Bytes in = chance(1, 60) ? gen_pages() : chance(1, 40) ? gen_deep(1 + (size_t)draw(3000), coin()) : gen_wire(chance(1, 10) ? 5000 : 160, EXTS);
    int mode = (int)draw(3) == 2; bool tr = chance(1, 3);
    note("%s input %zu bytes: %s", mode ? "pool" : "data", in.size(), hex(in.data(), in.size()).c_str());
    size_t g = run(in, mode, tr);
    if (in.size() >= 4) nontrivial(hash_bytes(in.data(), in.size(), mode));
    label(g == 0 ? "messages=0" : g == 1 ? "messages=1" : "messages>1");
}
