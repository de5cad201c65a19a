/* C11 type-generic writers exercised from a C translation unit. */
#include "mpack/mpack.h"
#if MPACK_HAS_GENERIC
#define G(name, type) \
    void cg_##name(mpack_writer_t* w, type v) { mpack_write(w, v); } \
    void cgkv_##name(mpack_writer_t* w, const char* k, type v) { mpack_write_kv(w, k, v); }
G(i8, int8_t) G(i16, int16_t) G(i32, int32_t) G(i64, int64_t)
G(u8, uint8_t) G(u16, uint16_t) G(u32, uint32_t) G(u64, uint64_t)
G(bool, bool)
#if MPACK_FLOAT
G(float, float)
#endif
#if MPACK_DOUBLE
G(double, double)
#endif
G(cstr, const char*) G(mcstr, char*)
#else
#error "expected C11 generics"
#endif
