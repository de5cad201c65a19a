// Shared by the tree harnesses: compare a parsed tree with the reference
// tokenizer (iteratively, any depth), and predict the verdict of the parser.
#pragma once
#include "drv.h"
#ifdef VT_NO_EXT
static const bool EXTS = false;
#else
static const bool EXTS = true;
#endif
// Containers whose sizes lie around whole, half and eighth node pages, one after another and inside each other.
static inline Bytes gen_pages() {
    using namespace pbt; const size_t N = MPACK_NODE_PAGE_SIZE / sizeof(mpack_node_data_t); Bytes b; size_t k = 1 + (size_t)draw(6); ref_header(b, ARR, k, 0, k < 16 && coin() ? 0 : 4);
    for (size_t i = 0; i < k; i++) {
        size_t near_ = pick<size_t>({N, N, N, N - N / 8, N / 8, N / 2, N / 4, 2 * N, 3, (size_t)draw(N + 1)}), c = near_ + (size_t)draw(9); c = c > 4 ? c - 4 : 0; bool map = chance(1, 4); if (map) c &= ~(size_t)1;
        size_t inner = c && chance(1, 3) ? (size_t)draw(c) : c; size_t leaf = pick<size_t>({0, 0, 0, 1});
        ref_header(b, map ? MAP : ARR, map ? c / 2 : c, 0, 4);
        for (size_t j = 0; j < c; j++) {
            if (j == inner) { size_t m = pick<size_t>({N, N / 8, 2, (size_t)draw(N)}) + (size_t)draw(7); m = m > 3 ? m - 3 : 0; ref_header(b, ARR, m, 0, 4); b += Bytes(m, (char)0x01); }
            else if (leaf && chance(1, 30)) b += (char)(coin() ? 0x90 : 0x80); else b += (char)(j & 127);
        }
    }
    return b;
}
struct Verdict { mpack_error_t err; size_t used; uint64_t nodes; bool claim; size_t need; };
// Document-order verdict with the documented early rejection: an element whose
// payload, or a container whose children, cannot fit in the bytes that are left
// is invalid at once. `need` is the number of bytes known to be needed.
static inline Verdict tree_verdict(const uint8_t* p, size_t n, bool ext = EXTS) {
    Verdict v{mpack_ok, 0, 0, false, 0};
    size_t pos = 0; uint64_t pending = 1; uint64_t nodes = 1;
    while (pending) {
        Tok t = ref_tok(p + pos, n - pos, ext);
        if (t.st == T_RESERVED) { v.err = mpack_error_invalid; v.used = pos; return v; }
        if (t.st == T_NOEXT) { v.err = mpack_error_unsupported; v.used = pos; return v; }
        if (t.st == T_TRUNC) { v.err = mpack_error_invalid; v.used = pos; return v; }
        pending--;
        pos += t.hdr;
        if (t.k == STR || t.k == BIN || t.k == EXT) {
            if (t.len > n - pos) { v.err = mpack_error_invalid; v.used = pos; return v; }
            pos += t.len;
        } else if (t.k == ARR || t.k == MAP) {
            uint64_t c = t.k == ARR ? t.len : 2 * (uint64_t)t.len; if (pending > n - pos) { v.err = mpack_error_invalid; v.used = pos; v.claim = true; return v; } if (c > SIZE_MAX) { v.err = mpack_error_too_big; v.used = pos; return v; } pending += c; nodes += c;
        }
        if (pending > n - pos) { v.err = mpack_error_invalid; v.used = pos; v.claim = true; return v; }
    }
    v.used = pos; v.nodes = nodes; return v;
}
// The i386 calling convention returns floats in x87 registers, which quietens signalling NaNs: not the library's doing.
static inline void quieten(Value& v) {
#ifdef __i386__
    if (v.k == FLT && (v.u & 0x7f800000u) == 0x7f800000u && (v.u & 0x7fffffu)) v.u |= 0x400000u;
    if (v.k == DBL && (v.u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (v.u & 0xfffffffffffffull)) v.u |= 0x8000000000000ull;
    for (auto& c : v.c) quieten(c);
#else
    (void)v;
#endif
}
static inline void cmp_tree(mpack_node_t root, const uint8_t* p, size_t n, const char* base) {
    using namespace pbt;
    struct Fr { mpack_node_t n; uint64_t i, c; bool map; };
    std::vector<Fr> st; size_t pos = 0; mpack_node_t cur = root;
    for (;;) {
        Tok t = ref_tok(p + pos, n - pos, EXTS);
        if (t.st != T_OK) fail("internal: reference walk");
        uint32_t len; Value tv = tag_value(mpack_node_tag(cur), &len); quieten(tv); { Value q; q.k = t.k; q.u = t.u; quieten(q); t.u = q.u; }
        CHECK(tv.k == t.k && tv.u == t.u && tv.et == t.et && len == t.len, "node at offset %zu is %s len %u, the message has %s %llx len %u", pos, show(tv).c_str(), len, kind_name(t.k), (unsigned long long)t.u, t.len);
        mpack_type_t ty = mpack_node_type(cur);
        CHECK(ty == mpack_node_tag(cur).type, "node type and node tag disagree at offset %zu", pos);
        CHECK(mpack_node_is_nil(cur) == (t.k == NIL) && !mpack_node_is_missing(cur), "is_nil / is_missing wrong at %zu", pos);
        pos += t.hdr;
        if (t.k == STR || t.k == BIN || t.k == EXT) {
            CHECK(mpack_node_data_len(cur) == t.len, "data_len %u expected %u at %zu", mpack_node_data_len(cur), t.len, pos);
            const char* d = mpack_node_data(cur);
            if (base) CHECK(d == base + pos, "data pointer at message offset %td, expected %zu", d - base, pos);
            CHECK(t.len == 0 || memcmp(d, p + pos, t.len) == 0, "node data differs at offset %zu", pos);
            pos += t.len;
        } else if (t.k == ARR || t.k == MAP) {
            if (t.k == ARR) CHECK(mpack_node_array_length(cur) == t.len, "array_length at %zu", pos);
            else CHECK(mpack_node_map_count(cur) == t.len, "map_count at %zu", pos);
            st.push_back({cur, 0, t.k == ARR ? (uint64_t)t.len : 2 * (uint64_t)t.len, t.k == MAP});
        }
        while (!st.empty() && st.back().i == st.back().c) st.pop_back();
        if (st.empty()) break;
        Fr& f = st.back();
        cur = !f.map ? mpack_node_array_at(f.n, f.i) : (f.i & 1) ? mpack_node_map_value_at(f.n, f.i / 2) : mpack_node_map_key_at(f.n, f.i / 2);
        f.i++;
    }
    CHECK(mpack_node_error(root) == mpack_ok, "walking the tree flagged %s", err_name(mpack_node_error(root)));
    CHECK(pos == n, "internal: reference walk ended at %zu of %zu", pos, n);
}
// Verdict for a streamed message of which `avail` bytes have been delivered,
// under limits. err==ok&&!wait: complete, `used` bytes. wait: more data needed.
struct SVerdict { mpack_error_t err; bool wait; size_t used; uint64_t nodes; };
static inline SVerdict stream_verdict(const uint8_t* p, size_t avail, size_t max_size, uint64_t max_nodes, bool ext = EXTS, uint64_t pool = (uint64_t)-1) {
    SVerdict v{mpack_ok, false, 0, 1};
    uint64_t pos = 0, pending = 1; 
    auto need = [&](uint64_t n) { if (n > SIZE_MAX) { v.err = mpack_error_invalid; return true; } // more than fits in the address space
        if (n > max_size) { v.err = mpack_error_too_big; return true; } if (n > avail) { v.wait = true; return true; } return false; };
    while (pending) {
        if (need(pos + pending)) return v;
        pending--;
        size_t at = (size_t)pos;
        uint8_t b = p[at];
        if (b == 0xc1) { v.err = mpack_error_invalid; return v; }
        bool isext = (b >= 0xc7 && b <= 0xc9) || (b >= 0xd4 && b <= 0xd8);
        if (isext && !ext) { v.err = mpack_error_unsupported; return v; }
        // number of length bytes that must be there before the rest is known
        size_t lb = b == 0xd9 || b == 0xc4 || b == 0xc7 ? 1 : b == 0xda || b == 0xc5 || b == 0xc8 || b == 0xdc || b == 0xde ? 2 : b == 0xdb || b == 0xc6 || b == 0xc9 || b == 0xdd || b == 0xdf ? 4 : 0;
        if (lb && need(pos + 1 + lb + pending)) return v;
        uint8_t h[8] = {b}; for (size_t i = 0; i < lb; i++) h[1 + i] = p[at + 1 + i];
        uint64_t hdr = 1 + lb + (isext ? 1 : 0), len = 0, kids = 0;
        uint64_t L = 0; for (size_t i = 0; i < lb; i++) L = L << 8 | h[1 + i];
        if (b >= 0xa0 && b <= 0xbf) len = b & 31;
        else if ((b >= 0xd9 && b <= 0xdb) || (b >= 0xc4 && b <= 0xc9)) len = L;
        else if (b >= 0xd4 && b <= 0xd8) len = 1ull << (b - 0xd4);
        else if (b == 0xca) len = 4; else if (b == 0xcb) len = 8;
        else if (b >= 0xcc && b <= 0xcf) len = 1ull << (b - 0xcc);
        else if (b >= 0xd0 && b <= 0xd3) len = 1ull << (b - 0xd0);
        else if (b >= 0x90 && b <= 0x9f) kids = b & 15;
        else if (b >= 0x80 && b <= 0x8f) kids = 2 * (b & 15);
        else if (b == 0xdc || b == 0xdd) kids = L;
        else if (b == 0xde || b == 0xdf) kids = 2 * L;
        if (kids) { if (kids > SIZE_MAX || v.nodes + kids > max_nodes) { v.err = mpack_error_too_big; return v; } v.nodes += kids; }
        pos += hdr + len; pending += kids;
        if (need(pos + pending)) return v;
        if (kids && v.nodes > pool) { v.err = mpack_error_too_big; return v; } // nodes come out of the pool once their bytes are reserved
    }
    v.used = (size_t)pos; return v;
}
