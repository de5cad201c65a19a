/* Force-included before mpack headers in every translation unit of a harness. */
#ifndef VTCFG_H
#define VTCFG_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void* vt_malloc(size_t n);
void* vt_realloc(void* p, size_t n);
void vt_free(void* p);
void mpack_assert_fail(const char* message);
void mpack_break_hit(const char* message);
#ifdef __cplusplus
}
#endif
#ifndef VT_NO_MALLOC
#define MPACK_MALLOC vt_malloc
#define MPACK_FREE vt_free
#ifndef VT_NO_REALLOC
#define MPACK_REALLOC vt_realloc
#endif
#endif
#ifdef VT_DEBUG
#define MPACK_DEBUG 1
#define MPACK_READ_TRACKING 1
#define MPACK_WRITE_TRACKING 1
#define MPACK_CUSTOM_ASSERT 1
#define MPACK_CUSTOM_BREAK 1
#else
#define MPACK_DEBUG 0
#endif
#ifdef VT_TINY
#define MPACK_BUFFER_SIZE 33
#define MPACK_STACK_SIZE 33
#define MPACK_NODE_PAGE_SIZE 113
#define MPACK_NODE_INITIAL_DEPTH 3
#define MPACK_TRACKING_INITIAL_CAPACITY 3
#define MPACK_BUILDER_PAGE_SIZE 165
#ifdef VT_BUILDER_INTERNAL
#define MPACK_BUILDER_INTERNAL_STORAGE_SIZE 121
#endif
#endif
#ifdef VT_BUILDER_INTERNAL
#define MPACK_BUILDER_INTERNAL_STORAGE 1
#endif
#ifndef VT_NO_EXT
#define MPACK_EXTENSIONS 1
#endif
#define MPACK_COMPATIBILITY 1
#endif
