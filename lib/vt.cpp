#include "vt.h"
#include <unordered_map>
#include <vector>
thread_local Vt vt;
static thread_local std::unordered_map<void*, size_t> live;
size_t vt_live() { return live.size(); }
bool vt_is_live(void* p) { return live.count(p) != 0; }
size_t vt_size(void* p) { auto it = live.find(p); return it == live.end() ? 0 : it->second; }
void vt_reset() {
    for (auto& e : live) free(e.first);
    live.clear();
    vt = Vt();
}
void vt_check_leaks(const char* where) {
    if (!live.empty()) pbt::fail("memory leak %s: %zu block(s) not freed, first %zu bytes", where, live.size(), live.begin()->second);
}
static bool should_fail(size_t n) {
    vt.nalloc++; if (vt.on_alloc) vt.on_alloc();
    if (n > vt.maxreq) vt.maxreq = n;
    if (n > vt.limit) { vt.nfailed++; return true; }
    if (vt.fail_at && (vt.nalloc == vt.fail_at || (vt.fail_forever && vt.nalloc > vt.fail_at))) { vt.nfailed++; return true; }
    return false;
}
static void* get(size_t n) {
    void* p = malloc(n ? n : 1);
    if (!p) { vt.nfailed++; return NULL; }
    live[p] = n; vt.cur += n; vt.total += n;
    if (vt.cur > vt.peak) vt.peak = vt.cur;
    memset(p, vt.fill, n < 65536 ? n : 65536);
    return p;
}
extern "C" void* vt_malloc(size_t n) { if (n == 0 && vt.zero_null) return NULL; return should_fail(n) ? NULL : get(n); }
extern "C" void vt_free(void* p) {
    if (!p) return;
    auto it = live.find(p);
    if (it == live.end()) pbt::fail("free of a block that is not allocated (double or wild free)");
    vt.cur -= it->second;
    live.erase(it);
    free(p);
}
extern "C" void* vt_realloc(void* p, size_t n) {
    if (should_fail(n)) return NULL;
    if (!p) return get(n);
    auto it = live.find(p);
    if (it == live.end()) pbt::fail("realloc of a block that is not allocated");
    size_t old = it->second;
    void* q = get(n); // always moves, so stale pointers into the old block are caught
    if (!q) return NULL;
    memcpy(q, p, old < n ? old : n);
    vt_free(p);
    return q;
}
extern "C" void mpack_assert_fail(const char* message) {
    vt.last_assert = message ? message : "";
    if (vt.assert_ok) longjmp(vt.assert_jmp, 1);
    pbt::fail("library assertion failed: %s", message);
}
extern "C" void mpack_break_hit(const char* message) {
    vt.breaks++;
    vt.last_break = message ? message : "";
    if (!vt.allow_break) pbt::fail("library break hit (misuse reported on correct use): %s", message);
}
void pbt_case_begin() { vt_reset(); }
void pbt_case_end() { if (vt.leak_check) vt_check_leaks("at end of case"); }
