// C29: separate objects are independent. A case makes 2-3 tasks, each with its
// own objects, input and list of decisions. Each runs alone first and logs
// everything it observes; then all run at once: handing control to one another
// between calls, inside callbacks and inside the allocator (one at a time, in a
// generated order), or freely on parallel threads. The logs must be identical.
#include "pbt.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
using namespace pbt;
const char* pbt::harness_name = "c29";
#ifdef VT_NO_EXT
static const bool EXTS = false;
#else
static const bool EXTS = true;
#endif

// --- the baton -------------------------------------------------------------
struct Baton {
    std::mutex m; std::condition_variable cv; int turn = -1; std::vector<char> alive; std::vector<uint32_t> order; size_t at = 0, switches = 0;
    void next() { int n = (int)alive.size(); int t = (int)(order[at++ % order.size()] % (uint32_t)n); for (int i = 0; i < n; i++) if (alive[(t + i) % n]) { turn = (t + i) % n; return; } turn = -1; }
    void wait(std::unique_lock<std::mutex>& l, int me) { while (turn != me) cv.wait(l); }
    void yield(int me) { std::unique_lock<std::mutex> l(m); int was = turn; next(); if (turn != was) { switches++; cv.notify_all(); wait(l, me); } }
    void begin(int me) { std::unique_lock<std::mutex> l(m); wait(l, me); }
    void end(int me) { std::unique_lock<std::mutex> l(m); alive[me] = 0; next(); cv.notify_all(); }
};
static thread_local Baton* baton; static thread_local int me; static thread_local uint32_t yields, rate;
static void y() { if (baton && ++yields % rate == 0) baton->yield(me); }
#define OBJ(T, x) T x
#include "tasks.h"

void pbt::property_case() {
    (void)enumerated();
    size_t n = 2 + (size_t)draw(2); std::vector<Task> ts(n); uint64_t h = 0; bool same = chance(1, 3);
    for (size_t i = 0; i < n; i++) {
        Task& k = ts[i]; k.kind = same && i ? ts[0].kind : (int)draw(KINDS);
        GenOpt g; g.ext = EXTS; if (chance(1, 6)) g.max_len = 3000; size_t m = 1 + (size_t)draw(3); for (size_t j = 0; j < m; j++) { k.vs.push_back(gen_value(g)); h = hash_value(k.vs.back(), h); }
        k.in = gen_wire(120, EXTS); size_t s = 2 + (size_t)draw(40); for (size_t j = 0; j < s; j++) k.script.push_back(draw(1u << 20)); h = hash_mix(h, (uint64_t)k.kind);
        note("task %zu: %s, %zu values, input %s", i, KIND[k.kind], k.vs.size(), hex(k.in.data(), k.in.size(), 60).c_str()); label(KIND[k.kind]);
    }
    std::vector<Log> solo(n), conc(n);
    for (size_t i = 0; i < n; i++) { run_task(ts[i], solo[i]); note("  alone %zu: %s", i, solo[i].s.substr(0, 600).c_str()); }
    std::vector<std::thread> th; Baton bt; (void)bt;
#ifdef VT_PARALLEL
    std::atomic<int> ready{0}; int rounds = 1 + (int)draw(3);
    for (size_t i = 0; i < n; i++) th.emplace_back([&, i] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < (int)n) { } for (int r = 0; r < rounds; r++) { Log L; run_task(ts[i], L); if (r == 0 || L.s != solo[i].s) conc[i] = L; } });
#else
    bt.alive.assign(n, 1); size_t o = 1 + (size_t)draw(30); for (size_t i = 0; i < o; i++) bt.order.push_back((uint32_t)draw(n * 4)); uint32_t rt = 1 + (uint32_t)draw(3); bt.next();
    for (size_t i = 0; i < n; i++) th.emplace_back([&, i] { baton = &bt; me = (int)i; yields = 0; rate = rt; bt.begin(me); run_task(ts[i], conc[i]); bt.end(me); });
#endif
    for (auto& t : th) t.join();
    for (size_t i = 0; i < n; i++) if (conc[i].s != solo[i].s) { size_t d = 0; while (d < conc[i].s.size() && d < solo[i].s.size() && conc[i].s[d] == solo[i].s[d]) d++; size_t f = d > 60 ? d - 60 : 0;
        fail("task %zu (%s) observed something else when run beside others:\nalone:  ...%s\nbeside: ...%s", i, KIND[ts[i].kind], solo[i].s.substr(f, 300).c_str(), conc[i].s.substr(f, 300).c_str()); }
    size_t ops = 0; for (auto& l : solo) ops += l.n;
    if (ops > 3 && (bt.switches > 2 || bt.order.empty())) nontrivial(h);
    label(bt.switches > 100 ? "switches>100" : bt.switches > 10 ? "switches>10" : "switches<=10");
}
