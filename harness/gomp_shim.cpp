// A small OpenMP runtime with the entry points gcc emits, used instead of
// libgomp in the multi-threaded builds.  It is instrumentable (its only
// synchronization is fork, join, barriers and the locks the program asks for, so
// ThreadSanitizer sees exactly the ordering OpenMP promises) and it lets the
// monitor choose thread counts, start orders and delays.
#include "gomp_shim.hpp"

#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <atomic>
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <mutex>

namespace {
typedef unsigned long long ull;
const int MAXT = 64;
void fwait(std::atomic<int>* a, int v) { syscall(SYS_futex, reinterpret_cast<int*>(a), FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void fwake(std::atomic<int>* a) { syscall(SYS_futex, reinterpret_cast<int*>(a), FUTEX_WAKE_PRIVATE, 1 << 30, nullptr, nullptr, 0); }
void await(std::atomic<int>& a, int from) {  // until a != from
  for (int i = 0; i < 200; ++i) if (a.load(std::memory_order_acquire) != from) return;
  while (a.load(std::memory_order_acquire) == from) fwait(&a, from);
}

struct Loop {  // one work-sharing construct of a team
  bool ready = false; bool is_ull = false, up = true, ordered = false; long end = 0, incr = 1, chunk = 1, next = 0; ull uend = 0, uincr = 1, uchunk = 1, unext = 0; bool guided = false;
};
struct Team {
  int n = 1; std::mutex m; Loop loops[64]; int single = 0; int sections = 0;
  std::atomic<int> bar{0}, barin{0};
  void reset(int k) { n = k; for (auto& l : loops) l.ready = false; single = 0; barin.store(0, std::memory_order_relaxed); }
};
Team g_team;
struct Worker { std::atomic<int> go{0}, done{0}; pthread_t th; bool alive = false; };
Worker g_w[MAXT];
void (*g_fn)(void*); void* g_data;
std::atomic<long> g_regions{0}, g_bodies{0};
int g_mode = 0; uint64_t g_rng = 1; int g_default = 4;
unsigned g_delay[MAXT]; std::atomic<int> g_prev[MAXT]; int g_before[MAXT];  // soft start order
std::atomic<int> g_fin[MAXT];
std::atomic<uint64_t> g_sched{0};

thread_local int t_id = 0; thread_local int t_ws = 0, t_single = 0; thread_local bool t_in = false;
thread_local Loop* t_loop = nullptr; thread_local uint64_t t_rng = 88172645463325252ull;

uint64_t nxt(uint64_t& s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
void spin(unsigned n) { for (volatile unsigned i = 0; i < n; i = i + 1) {} }
void body(int id) {
  t_id = id; t_ws = t_single = 0; t_in = true;
  if (g_mode == 2 && g_before[id] >= 0) {  // start after another thread has finished, if that happens soon
    for (int i = 0; i < 4000 && !g_fin[g_before[id]].load(std::memory_order_relaxed); ++i) { if ((i & 63) == 63) sched_yield(); }
  } else if (g_mode) { if (g_delay[id] & 1) sched_yield(); spin(g_delay[id] >> 1); }
  g_fn(g_data);
  g_bodies.fetch_add(1, std::memory_order_relaxed);
  g_fin[id].store(1, std::memory_order_relaxed);
  t_in = false;
}
void* worker(void* p) {
  int id = int(reinterpret_cast<intptr_t>(p)); Worker& w = g_w[id]; int seen = 0; t_rng += 977 * id;
  for (;;) { await(w.go, seen); seen = w.go.load(std::memory_order_acquire); body(id); w.done.store(seen, std::memory_order_release); fwake(&w.done); }
  return nullptr;
}
void run(void (*fn)(void*), void* data, unsigned nt) {
  int n = nt ? int(nt) : g_default; if (n > MAXT) n = MAXT;
  if (t_in || n <= 1) {  // nested regions are serial
    bool in = t_in; int id = t_id, ws = t_ws, sg = t_single; Team* T = &g_team;
    if (!in) { T->reset(1); t_in = true; t_id = 0; t_ws = t_single = 0; fn(data); t_in = false; } else { static thread_local int nest; ++nest; t_id = 0; fn(data); --nest; }
    t_id = id; t_ws = ws; t_single = sg; return;
  }
  g_regions.fetch_add(1, std::memory_order_relaxed);
  g_team.reset(n); g_fn = fn; g_data = data;
  uint64_t h = n;
  int perm[MAXT]; for (int i = 0; i < n; ++i) { perm[i] = i; g_fin[i].store(0, std::memory_order_relaxed); g_before[i] = -1; g_delay[i] = 0; }
  if (g_mode == 1) for (int i = 0; i < n; ++i) { uint64_t r = nxt(g_rng); g_delay[i] = (r & 7) ? unsigned((r >> 8) % 400) : unsigned((r >> 8) % 8000); h = h * 31 + (g_delay[i] >> 7); }
  if (g_mode == 2) { for (int i = n - 1; i > 0; --i) { int j = int(nxt(g_rng) % unsigned(i + 1)); int x = perm[i]; perm[i] = perm[j]; perm[j] = x; } for (int i = 1; i < n; ++i) g_before[perm[i]] = perm[i - 1]; for (int i = 0; i < n; ++i) h = h * 31 + perm[i]; }
  g_sched.store(g_sched.load(std::memory_order_relaxed) * 1000003 + h, std::memory_order_relaxed);
  int tag[MAXT];
  for (int i = 1; i < n; ++i) {
    Worker& w = g_w[i]; tag[i] = w.go.load(std::memory_order_relaxed);
    if (!w.alive) { w.alive = true; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8 << 20); if (pthread_create(&w.th, &a, worker, reinterpret_cast<void*>(intptr_t(i)))) abort(); }
    w.go.store(tag[i] + 1, std::memory_order_release); fwake(&w.go);
  }
  body(0);
  for (int i = 1; i < n; ++i) await(g_w[i].done, tag[i]);
}
void barrier() {
  Team& T = g_team; if (T.n <= 1 || !t_in) return;
  int gen = T.bar.load(std::memory_order_acquire);
  if (T.barin.fetch_add(1, std::memory_order_acq_rel) == T.n - 1) { T.barin.store(0, std::memory_order_relaxed); T.bar.store(gen + 1, std::memory_order_release); fwake(&T.bar); }
  else await(T.bar, gen);
}
std::mutex g_atomic, g_critical;

bool dyn_next(long* s, long* e) {
  Team& T = g_team; Loop& L = *t_loop; std::lock_guard<std::mutex> l(T.m);
  long left = L.incr > 0 ? (L.end - L.next + L.incr - 1) / L.incr : (L.next - L.end - L.incr - 1) / -L.incr; if (left <= 0) return false;
  long k = L.guided ? std::max<long>(L.chunk, left / (T.n)) : L.chunk; if (k > left) k = left;
  *s = L.next; *e = L.next + k * L.incr; L.next = *e; return true;
}
bool udyn_next(ull* s, ull* e) {
  Team& T = g_team; Loop& L = *t_loop; std::lock_guard<std::mutex> l(T.m);
  ull left; if (L.up) { if (L.unext >= L.uend) return false; left = (L.uend - L.unext + L.uincr - 1) / L.uincr; } else { if (L.unext <= L.uend) return false; ull d = -L.uincr; left = (L.unext - L.uend + d - 1) / d; }
  ull k = L.guided ? std::max<ull>(L.uchunk, left / T.n) : L.uchunk; if (k > left) k = left;
  *s = L.unext; *e = L.unext + k * L.uincr; L.unext = *e; return true;
}
void loop_init(long st, long end, long incr, long chunk, bool guided) {
  Team& T = g_team; std::lock_guard<std::mutex> l(T.m); Loop& L = T.loops[t_ws % 64]; if (!L.ready) { L = Loop(); L.ready = true; L.next = st; L.end = end; L.incr = incr; L.chunk = chunk > 0 ? chunk : 1; L.guided = guided; } t_loop = &L; ++t_ws;
}
void uloop_init(bool up, ull st, ull end, ull incr, ull chunk, bool guided) {
  Team& T = g_team; std::lock_guard<std::mutex> l(T.m); Loop& L = T.loops[t_ws % 64]; if (!L.ready) { L = Loop(); L.ready = true; L.is_ull = true; L.up = up; L.unext = st; L.uend = end; L.uincr = incr; L.uchunk = chunk ? chunk : 1; L.guided = guided; } t_loop = &L; ++t_ws;
}
}  // namespace

void shim_config(int mode, uint64_t seed, int def) { g_mode = mode; g_rng = seed * 2862933555777941757ull + 3037000493ull; if (!g_rng) g_rng = 1; g_default = def; g_sched.store(0, std::memory_order_relaxed); }
long shim_regions() { return g_regions.load(std::memory_order_relaxed); }
long shim_bodies() { return g_bodies.load(std::memory_order_relaxed); }
uint64_t shim_schedule() { return g_sched.load(std::memory_order_relaxed); }
void shim_jitter() { if (!g_mode || !t_in) return; uint64_t r = nxt(t_rng); if ((r & 15) == 0) sched_yield(); else if ((r & 3) == 1) spin(unsigned((r >> 8) % 300)); }

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { run(fn, data, nt); }
int omp_get_num_threads() { return t_in ? g_team.n : 1; }
int omp_get_thread_num() { return t_in ? t_id : 0; }
int omp_get_max_threads() { return g_default; }
int omp_get_num_procs() { return 8; }
int omp_get_thread_limit() { return MAXT; }
int omp_in_parallel() { return t_in && g_team.n > 1; }
int omp_get_level() { return t_in; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_num_threads(int n) { if (n > 0) g_default = n; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }
void omp_init_lock(void** l) { *l = new std::mutex; }
void omp_destroy_lock(void** l) { delete static_cast<std::mutex*>(*l); }
void omp_set_lock(void** l) { static_cast<std::mutex*>(*l)->lock(); }
void omp_unset_lock(void** l) { static_cast<std::mutex*>(*l)->unlock(); }
void GOMP_atomic_start() { g_atomic.lock(); }
void GOMP_atomic_end() { g_atomic.unlock(); }
void GOMP_critical_start() { g_critical.lock(); }
void GOMP_critical_end() { g_critical.unlock(); }
void GOMP_critical_name_start(void** p) { g_critical.lock(); (void)p; }
void GOMP_critical_name_end(void** p) { g_critical.unlock(); (void)p; }
void GOMP_barrier() { barrier(); }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_single_start() { Team& T = g_team; std::lock_guard<std::mutex> l(T.m); int k = ++t_single; if (T.single < k) { T.single = k; return true; } return false; }
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_taskwait() {}
#define LOOPS(NAME, G) \
  bool GOMP_loop_##NAME##_next(long* s, long* e) { return dyn_next(s, e); } \
  bool GOMP_loop_##NAME##_start(long a, long b, long i, long c, long* s, long* e) { loop_init(a, b, i, c, G); return dyn_next(s, e); } \
  bool GOMP_loop_ull_##NAME##_next(ull* s, ull* e) { return udyn_next(s, e); } \
  bool GOMP_loop_ull_##NAME##_start(bool up, ull a, ull b, ull i, ull c, ull* s, ull* e) { uloop_init(up, a, b, i, c, G); return udyn_next(s, e); } \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, long a, long b, long i, long c, unsigned) { \
    struct A { void (*fn)(void*); void* d; long a, b, i, c; } x{fn, d, a, b, i, c}; \
    run([](void* p) { A* q = static_cast<A*>(p); loop_init(q->a, q->b, q->i, q->c, G); q->fn(q->d); }, &x, nt); }
LOOPS(dynamic, false) LOOPS(nonmonotonic_dynamic, false) LOOPS(guided, true) LOOPS(nonmonotonic_guided, true)
#define RUNTIME(NAME) \
  bool GOMP_loop_##NAME##_next(long* s, long* e) { return dyn_next(s, e); } \
  bool GOMP_loop_##NAME##_start(long a, long b, long i, long* s, long* e) { loop_init(a, b, i, 1, false); return dyn_next(s, e); } \
  bool GOMP_loop_ull_##NAME##_next(ull* s, ull* e) { return udyn_next(s, e); } \
  bool GOMP_loop_ull_##NAME##_start(bool up, ull a, ull b, ull i, ull* s, ull* e) { uloop_init(up, a, b, i, 1, false); return udyn_next(s, e); } \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, long a, long b, long i, unsigned) { \
    struct A { void (*fn)(void*); void* d; long a, b, i; } x{fn, d, a, b, i}; \
    run([](void* p) { A* q = static_cast<A*>(p); loop_init(q->a, q->b, q->i, 1, false); q->fn(q->d); }, &x, nt); }
RUNTIME(runtime) RUNTIME(nonmonotonic_runtime) RUNTIME(maybe_nonmonotonic_runtime)
unsigned GOMP_sections_start(unsigned n) { loop_init(1, long(n) + 1, 1, 1, false); long s, e; return dyn_next(&s, &e) ? unsigned(s) : 0; }
unsigned GOMP_sections_next() { long s, e; return dyn_next(&s, &e) ? unsigned(s) : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned count, unsigned) {
  struct A { void (*fn)(void*); void* d; unsigned c; } x{fn, d, count};
  run([](void* p) { A* q = static_cast<A*>(p); loop_init(1, long(q->c) + 1, 1, 1, false); q->fn(q->d); }, &x, nt);
}
}
