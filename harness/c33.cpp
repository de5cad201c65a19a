// C33: what memory held before makes no difference. A task (see tasks.h) runs in memory of zeros, of other bytes, and
// where the objects of another task were (destroyed, possibly in error or in the middle of something): the object itself,
// the buffers and pools handed over, and the blocks the allocator returns. What it observes must be the same.
#include "pbt.h"
using namespace pbt;
const char* pbt::harness_name = "c33";
#ifdef VT_NO_EXT
static const bool EXTS = false;
#else
static const bool EXTS = true;
#endif
static void y() { }
// Objects live in turn in three slots, so that each is where some other object, of the same or another kind, has been.
static const size_t SLOT = 65536; static char* arena; static unsigned slot;
template<class T> static T& object() { static_assert(sizeof(T) <= SLOT, "slot"); return *(T*)(arena + SLOT * (slot++ % 3)); }
#define OBJ(T, x) T& x = object<T>()
#include "tasks.h"
static Task gen_task(uint64_t& h, const char* which) {
    Task k; k.kind = (int)draw(KINDS); GenOpt g; g.ext = EXTS; if (chance(1, 6)) g.max_len = 3000; size_t m = 1 + (size_t)draw(3);
    for (size_t j = 0; j < m; j++) { k.vs.push_back(gen_value(g)); h = hash_value(k.vs.back(), h); }
    k.in = gen_wire(120, EXTS); size_t s = 2 + (size_t)draw(40); for (size_t j = 0; j < s; j++) k.script.push_back(draw(1u << 20)); h = hash_mix(h, (uint64_t)k.kind);
    note("%s: %s, %zu values, input %s", which, KIND[k.kind], k.vs.size(), hex(k.in.data(), k.in.size(), 60).c_str()); return k;
}
static void run_in(const Task& k, Log& L, int fill, unsigned first) { vt.fill = box_fill = fill; slot = first; run_task(k, L); box_fill = 0x5c; }
void pbt::property_case() {
    (void)enumerated();
    Bytes mem(3 * SLOT + 16, 0); arena = &mem[0] + (16 - (uintptr_t)&mem[0] % 16) % 16;
    uint64_t h = 0; Task k = gen_task(h, "task"), before = gen_task(h, "task before"); label(KIND[k.kind]);
    unsigned first = (unsigned)draw(3); int noise = pick({0xff, 1, 0x5c, 0x80, 0x7f}), noise2 = (int)draw(256); int mode = (int)draw(4); bool again = chance(1, 4);
    Log base; run_in(k, base, 0, 0); note("  in zeros: %s", base.s.substr(0, 600).c_str());
    Log L; const char* where;
    switch (mode) {
    case 0: where = "filled memory"; memset(arena, noise, 3 * SLOT); break;
    case 1: { where = "memory of noise"; uint64_t x = hash_mix((uint64_t)noise2, 7); for (size_t i = 0; i < 3 * SLOT; i++) { if (i % 8 == 0) x = hash_mix(x, i); arena[i] = (char)(x >> (i % 8 * 8)); } break; }
    case 2: { where = "memory another task has used"; memset(arena, 0, 3 * SLOT); Log o; run_in(before, o, noise2, first); break; }
    default: { where = "memory the same task has used"; Log o; run_in(k, o, noise2, 0); if (o.s != base.s) L.s = o.s; break; }
    }
    if (L.s.empty()) { run_in(k, L, noise, mode == 3 ? 0 : (unsigned)draw(3)); if (L.s == base.s && again) { L = Log(); run_in(k, L, noise2, first); } }
    label(where);
    if (L.s != base.s) { size_t d = 0; while (d < L.s.size() && d < base.s.size() && L.s[d] == base.s[d]) d++; size_t f = d > 60 ? d - 60 : 0;
        fail("%s in %s observed something else than in zeros:\nzeros: ...%s\nthere: ...%s", KIND[k.kind], where, base.s.substr(f, 300).c_str(), L.s.substr(f, 300).c_str()); }
    if (base.n >= 2) nontrivial(hash_mix(h, (uint64_t)mode));
}
