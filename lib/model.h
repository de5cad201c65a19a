// Independent model of MessagePack: values, reference encoder/decoder, generators.
#pragma once
#include "pbt.h"
#include <string>
#include <vector>
#include <stdint.h>
typedef std::string Bytes;

enum Kind : uint8_t { NIL, BOOL, UINT, INT, FLT, DBL, STR, BIN, EXT, ARR, MAP };
const char* kind_name(Kind k);

struct Value {
    Kind k = NIL;
    uint64_t u = 0;      // BOOL 0/1, UINT value, INT as two's complement, FLT/DBL raw bits
    int8_t et = 0;       // EXT
    uint8_t form = 0;    // 0 canonical; else an explicit (possibly overlong) form, see ref_encode
    Bytes s;             // STR BIN EXT payload
    std::vector<Value> c;// ARR elements, MAP alternating keys and values
    size_t count() const { return k == MAP ? c.size() / 2 : c.size(); }
};
inline Value mk(Kind k, uint64_t u = 0) { Value v; v.k = k; v.u = u; return v; }
inline Value mk_data(Kind k, const Bytes& s, int8_t et = 0) { Value v; v.k = k; v.s = s; v.et = et; return v; }
// Integers equal by numeric value regardless of signed/unsigned kind when non-negative.
bool num_is_int(const Value& v);
bool eq(const Value& a, const Value& b, bool strict_kind = false);
std::string show(const Value& v, size_t max = 400);
uint64_t hash_value(const Value& v, uint64_t h = 99);
size_t node_count(const Value& v);
int depth(const Value& v);

// ---- reference encoding ----
// form: 0 canonical. For ints: 1 fixint,2 8bit,3 16bit,4 32bit,5 64bit (kind UINT-> unsigned, INT->signed)
// str: 1 fix,2 str8,3 str16,4 str32; bin 2,3,4; ext: 1 fixext,2,3,4; arr/map: 1 fix,3 16bit,4 32bit.
enum { V5 = 0, V4 = 1 };
void ref_encode(const Value& v, Bytes& out, int version = V5);
inline Bytes enc(const Value& v, int version = V5) { Bytes b; ref_encode(v, b, version); return b; }
void ref_header(Bytes& out, Kind k, uint64_t count, int8_t et, int form, int version = V5);
void be(Bytes& out, uint64_t v, int n);

// ---- reference decoding ----
enum TokStatus { T_OK, T_TRUNC, T_RESERVED, T_NOEXT };
struct Tok {
    TokStatus st; Kind k; uint64_t u; int8_t et; uint32_t len; // len: bytes of data, or element count (pairs for maps)
    size_t hdr;      // header size in bytes
};
Tok ref_tok(const uint8_t* p, size_t n, bool ext = true);
struct Parse {
    TokStatus st;    // T_OK: complete message of `used` bytes. Otherwise the first problem
    size_t used;     // size of the message, or offset of the offending element
    uint64_t nodes;  // nodes if OK
    bool in_data;    // truncation was in payload rather than header
    size_t maxdepth;
};
// Structure scan, iterative, no tree. Truncation detected in document order.
Parse ref_scan(const uint8_t* p, size_t n, bool ext = true);
// Full decode of a message known to scan OK (recursive; shallow inputs only).
Value ref_decode(const uint8_t* p, size_t n, size_t& pos);
Bytes ts_payload(int64_t sec, uint32_t ns); // minimal
bool ref_utf8(const uint8_t* p, size_t n);

// ---- generators ----
struct GenOpt {
    int max_depth = 4;
    size_t max_nodes = 40;      // soft budget
    size_t max_len = 300;       // soft data length
    bool overlong = false;      // choose arbitrary (valid) forms
    bool ext = true;
    bool flt = true, dbl = true;
    bool big = false;           // allow 65535/65536 element/byte boundaries
    bool text_keys = false;     // keys are strings
};
Value gen_value(const GenOpt& o);
Value gen_scalar(const GenOpt& o);
Value gen_str(const GenOpt& o);
size_t gen_len(size_t max, bool big);
uint64_t gen_u64();
int64_t gen_i64();
uint32_t gen_f32();
uint64_t gen_f64();
Bytes gen_bytes(size_t n);      // arbitrary content
Bytes gen_text(size_t n, bool allow_nul); // exactly n bytes of valid UTF-8
Bytes gen_textish(size_t n);    // mixture: ascii, valid utf8, nearly valid, arbitrary, NULs
Bytes gen_wire(size_t max = 400, bool ext = true);       // arbitrary wire bytes: valid, overlong, truncated, mutated, random
Bytes gen_deep(size_t levels, bool closed);              // deeply nested
void set_overlong(Value& v, bool ext = true);

// Every kind x size around each length boundary x form.
uint64_t boundary_total();
Value boundary_value(uint64_t i);
