// Hooks given to the library: allocator with fault injection and leak tracking,
// assert and break handlers.
#pragma once
#include <setjmp.h>
#include <string>
#include "pbt.h"
struct Vt {
    long fail_at = 0;         // fail the nth allocation (1-based); 0 = never
    bool fail_forever = false;// every allocation from fail_at on fails
    long nalloc = 0;          // allocations attempted this case
    long nfailed = 0;
    size_t limit = (size_t)64 << 20; // single requests above this fail (counted as failed)
    size_t cur = 0, peak = 0, total = 0, maxreq = 0;
    int breaks = 0;           // mpack_break() hits
    bool allow_break = false;
    std::string last_break;
    bool assert_ok = false;   // when set, a failed assertion jumps to assert_jmp
    jmp_buf assert_jmp;
    std::string last_assert;
    int fill = 0xa5;          // what allocated memory holds at first
    bool zero_null = false;   // a request for no bytes gives NULL (as C allows)
    bool leak_check = true;
    void (*on_alloc)() = nullptr; // called before every allocation
};
extern thread_local Vt vt;    // (each thread accounts for itself)
size_t vt_live();             // blocks not freed
bool vt_is_live(void* p);
size_t vt_size(void* p);      // size of live block
void vt_reset();              // forget everything (fresh case)
void vt_check_leaks(const char* where);
extern "C" void* vt_malloc(size_t n);
extern "C" void* vt_realloc(void* p, size_t n);
extern "C" void vt_free(void* p);
