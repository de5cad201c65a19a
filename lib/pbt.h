// Minimal property-based-testing core: every random decision of a case is a
// bounded draw from one recorded choice sequence, so that any failing case can
// be replayed and shrunk as one value.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <initializer_list>
#include <string>
#include <vector>

namespace pbt {

// --- drawing -------------------------------------------------------------
uint64_t draw(uint64_t n);                 // uniform in [0,n); n==0 -> full 64 bits
inline uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
inline bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; } // 0 -> false
inline bool coin() { return draw(2) != 0; }
template <class T> T pick(std::initializer_list<T> l) { return l.begin()[draw(l.size())]; }
template <class T> const T& pick(const std::vector<T>& l) { return l[draw(l.size())]; }
// While set, draws on this thread come from the given list (cycled with a
// varying salt) instead of the case's own sequence; labels are ignored.
struct DrawScript { const uint64_t* d; size_t n, pos; };
extern thread_local DrawScript* draw_script;
uint64_t case_index();                     // index of the current case (informational)
bool exhausted();                          // replaying and out of choices

// If the runner wants an enumerated case, returns its index in
// [0, exhaustive_total()); otherwise -1. Must be the first draw of a case.
int64_t enumerated();

// --- verdicts ------------------------------------------------------------
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // only in verbose runs
extern bool verbose;
void label(const char* l);                 // classification counter
void nontrivial(uint64_t content_hash);    // this case is non-trivial; hash identifies it
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t hash_mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
std::string hex(const void* p, size_t n, size_t max = 200);

// A recorded defect of the code under test (see known_findings.json). The
// harness calls this instead of fail() only for the specific listed input.
void known_finding(const char* id);

// --- to be provided by the harness ---------------------------------------
extern const char* harness_name;
void property_case();                      // one generated case
} // namespace pbt

uint64_t pbt_exhaustive_total() __attribute__((weak));
void pbt_case_begin() __attribute__((weak)); // reset hooks
void pbt_case_end() __attribute__((weak));   // invariants at end of each case (leaks, ...)

#define CHECK(cond, ...) do { if (!(cond)) pbt::fail(__VA_ARGS__); } while (0)
