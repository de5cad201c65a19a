// A parsed tree holding one given element in a generated surrounding, for the
// node accessor harnesses. One tree per accessor call, since errors are sticky.
#pragma once
#include "drv.h"
struct NodeCtx {
    Bytes msg; int where; size_t at, n; uint32_t kind; size_t off; // position of the element in the message
    explicit NodeCtx(const Bytes& e) {
        using namespace pbt; where = (int)draw(5); kind = (uint32_t)draw(3); n = 1 + (size_t)draw(chance(1, 10) ? 40 : 4); at = (size_t)draw(n);
        static const char* fill[] = {"\xc0", "\xa1x", "\x92\x01\xd0\xff", "\xcb\x40\x09\x21\xfb\x54\x44\x2d\x18", "\x81\xa1k\xa1v", "\xcd\x01\x02"};
        static const size_t fl[] = {1, 2, 4, 9, 5, 3}; off = 0;
        switch (where) {
        case 0: case 1: msg = e; break;
        case 2: ref_header(msg, ARR, n, 0, kind == 0 && n < 16 ? 1 : 3); for (size_t i = 0; i < n; i++) { if (i == at) { off = msg.size(); msg += e; } else { size_t k = (size_t)draw(6); msg += Bytes(fill[k], fl[k]); } } break;
        case 3: ref_header(msg, MAP, n, 0, kind == 0 && n < 16 ? 1 : 4); for (size_t i = 0; i < n; i++) { msg += (char)i; if (i == at) { off = msg.size(); msg += e; } else { size_t k = (size_t)draw(6); msg += Bytes(fill[k], fl[k]); } } break;
        default: msg = "\x82\xa1k\x91"; off = msg.size(); msg += e; msg += "\xa1q\xc2"; break;
        }
    }
    template <class F> void run(F f) const { // f(node, tree)
        using namespace pbt; mpack_tree_t t; Box b(msg); mpack_node_data_t pool[90]; Source src; bool stream = kind == 2;
        if (stream) { src.p = b.p; src.n = b.n; src.sizes = {1 + (size_t)at * 7, 3}; mpack_tree_init_stream(&t, source_tree_read, &src, 1 << 20, 1 << 20); }
        else if (kind == 1 && ref_scan((const uint8_t*)msg.data(), msg.size()).nodes <= 90) mpack_tree_init_pool(&t, b.p, b.n, pool, 90); else mpack_tree_init_data(&t, b.p, b.n);
        mpack_tree_parse(&t); CHECK(mpack_tree_error(&t) == mpack_ok, "parsing %s: %s", hex(msg.data(), msg.size()).c_str(), err_name(mpack_tree_error(&t)));
        mpack_node_t r = mpack_tree_root(&t), x = r;
        switch (where) { case 0: case 1: break; case 2: x = mpack_node_array_at(r, at); break; case 3: x = coin() ? mpack_node_map_value_at(r, at) : mpack_node_map_uint(r, at); break; default: x = mpack_node_array_at(mpack_node_map_cstr(r, "k"), 0); }
        CHECK(mpack_tree_error(&t) == mpack_ok, "finding the node in %s: %s", hex(msg.data(), msg.size()).c_str(), err_name(mpack_tree_error(&t)));
        f(x, &t, stream ? NULL : b.p + off);
        mpack_error_t e = mpack_tree_error(&t); CHECK(mpack_tree_destroy(&t) == e, "tree destroy lost the error");
    }
};
