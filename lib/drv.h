// Drivers over the public API: emit a model value through the writer with
// randomly chosen equivalent calls; decode through reader / expect / node.
#pragma once
#include "model.h"
#include "vt.h"
#include "mpack/mpack.h"

#ifndef VT_HAS_FLOAT
#define VT_HAS_FLOAT MPACK_FLOAT
#define VT_HAS_DOUBLE MPACK_DOUBLE
#endif

struct EmitOpt {
    bool builders = false;   // containers may use build/complete
    bool tags = true;        // write_tag forms
    bool generics = true;    // C11 / C++ generic forms
    bool object_bytes = true;
    bool chunks = true;
    int version = V5;
    bool all_builders = false;
    bool plain = false;      // simplest call for everything (no draws)
    void (*between)(mpack_writer_t*, void*) = nullptr; // called between top-level pieces
    void* ctx = nullptr;
};
void emit(mpack_writer_t* w, const Value& v, const EmitOpt& o);
// Deferred plan of emission: the same API choices replayed on several sinks.
// (emit() records its decisions when `plan` is set and replays them when replaying.)
struct Plan { std::vector<uint32_t> d; size_t pos = 0; bool replay = false; };
extern Plan* emit_plan;

struct ReadOpt {
    bool inplace = true;      // may use inplace reads (if they fit max_inplace)
    size_t max_inplace = (size_t)-1;
    bool alloc = true;
    bool peek = true;
    bool chunks = true;
    bool plain = false;
    bool skip = false;
};
// Reads one element. Returns false if the reader got into an error.
bool read_value(mpack_reader_t* r, Value& out, const ReadOpt& o);
Value tag_value(mpack_tag_t t, uint32_t* len); // scalar value or container header
bool node_value(mpack_node_t n, Value& out, const char** why); // full structural read through the node API, order preserved
void expect_value(mpack_reader_t* r, const Value& v); // typed reads that must all succeed for v; fails the case otherwise
mpack_tag_t make_tag(const Value& v);
inline const char* err_name(mpack_error_t e) {
    switch (e) { case mpack_ok: return "ok"; case mpack_error_io: return "io"; case mpack_error_invalid: return "invalid"; case mpack_error_unsupported: return "unsupported";
    case mpack_error_type: return "type"; case mpack_error_too_big: return "too_big"; case mpack_error_memory: return "memory"; case mpack_error_bug: return "bug"; case mpack_error_data: return "data"; case mpack_error_eof: return "eof"; }
    return "?";
}
// exact-size heap copy so the sanitizer catches any overrun
extern thread_local int box_fill; // what a Box holds at first
struct Box {
    char* p; size_t n;
    explicit Box(const Bytes& b) : p((char*)malloc(b.size() ? b.size() : 1)), n(b.size()) { memcpy(p, b.data(), n); }
    explicit Box(size_t k, int fill = box_fill) : p((char*)malloc(k ? k : 1)), n(k) { memset(p, fill, k ? k : 1); }
    ~Box() { free(p); }
    Box(const Box&) = delete; Box& operator=(const Box&) = delete;
};

// A writable region of HUGE_REGION bytes, more than 32 bits can count; NULL where there is none (32-bit builds).
// Only the pages that are touched take memory.
extern const size_t HUGE_REGION; char* huge_region();
char* huge_message(const Bytes& in); // the region starting with in, zeros after it
// A caller's buffer of lim bytes: exact on the heap, or inside the huge region when lim does not fit 32 bits.
struct OutBuf {
    char* p; size_t n, scan; char* own; // [0, scan) is filled with 0x5c
    OutBuf(size_t lim, size_t used) : n(lim), own(NULL) {
        if ((uint64_t)lim > 0xffffffffull) { p = huge_region(); scan = used + 4096; } else { p = own = (char*)malloc(lim ? lim : 1); scan = lim; }
        memset(p, 0x5c, scan ? scan : 1);
    }
    ~OutBuf() { free(own); }
    OutBuf(const OutBuf&) = delete; OutBuf& operator=(const OutBuf&) = delete;
};
// lim, or now and then a limit that does not fit 32 bits but is lim when truncated to them
size_t big_limit(size_t lim, unsigned one_in = 12);
inline float f32_of(uint64_t raw) { uint32_t r = (uint32_t)raw; float f; memcpy(&f, &r, 4); return f; }
inline double f64_of(uint64_t raw) { double f; memcpy(&f, &raw, 8); return f; }
inline uint64_t raw_of(float f) { uint32_t r; memcpy(&r, &f, 4); return r; }
inline uint64_t raw_of(double f) { uint64_t r; memcpy(&r, &f, 8); return r; }

// A byte source that delivers a stream in scripted pieces.
struct Source {
    const char* p; size_t n, pos = 0;
    std::vector<size_t> sizes; size_t si = 0; // piece sizes cycle; 0 entries are skipped
    size_t fail_at = (size_t)-1;              // fail after delivering this many bytes
    int fail_mode = 0;                        // 0 return 0; 1 return (size_t)-1; 2 flag `flag` then return 0; 3 flag then -1; 4 flag but deliver what comes next
    mpack_error_t flag = mpack_error_io;
    size_t fills = 0, skips = 0, skipped = 0; size_t after_error = 0;
    size_t max_request = 0; bool failed = false;
    size_t next(size_t want);
};
size_t source_fill(mpack_reader_t* r, char* buf, size_t count);
void source_skip(mpack_reader_t* r, size_t count);
size_t source_tree_read(mpack_tree_t* t, char* buf, size_t count);
Source gen_source(const Box& b);
