#include "omp_rt.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <exception>

extern "C" void __libc_free(void*);

namespace mt {
std::function<std::vector<int>(const Region&, long)> order;
std::function<int(int)> dynamic;
long regions = 0, accesses = 0, granules = 0, switches = 0, nraces = 0;
std::vector<std::string> races;

enum { MAXT = 8 };
// which bytes of a granule each thread read and wrote, plainly or inside an atomic operation or critical section
struct Cell { uint64_t g; uint32_t gen; uint8_t m[4][MAXT]; const void* pc[2][MAXT]; };  // m: read, write, locked read, locked write
enum { BITS = 17, SIZE = 1 << BITS };
static Cell* table = nullptr;
static uint32_t gen = 0;
static bool on = false;        // inside a region, recording
static int cur = 0, nth = 1, locked = 0;
static bool aborted = false, inside = false;
static int nested = 0;

static std::string where(const void* pc) {
  Dl_info i; char b[400];
  if (dladdr(pc, &i) && i.dli_sname) {
    int st; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    snprintf(b, sizeof b, "%.300s", st == 0 ? d : i.dli_sname); free(d);
    return b;
  }
  snprintf(b, sizeof b, "%p+%lx", pc, (unsigned long)((const char*)pc - (const char*)(i.dli_fbase)));
  return b;
}
static void race(Cell& c, int k, int a, int other, int b, const void* pc) {
  ++nraces;
  if (races.size() >= 4) return;
  const bool was = on; on = false;
  static const char* nm[] = {"reads", "writes", "atomically reads", "atomically writes"};
  races.push_back("thread " + std::to_string(cur) + " " + nm[k] + " in " + where(pc) + " what thread " + std::to_string(other) + " " + nm[b] + " in " + where(c.pc[b & 1][other]));
  (void)a; on = was;
}
static inline void touch(uintptr_t g, uint8_t mask, int k, const void* pc) {
  uint64_t h = (g * 0x9e3779b97f4a7c15ULL) >> (64 - BITS);
  Cell* c;
  for (;; h = (h + 1) & (SIZE - 1)) {
    c = &table[h];
    if (c->gen != gen) { c->gen = gen; c->g = g; memset(c->m, 0, sizeof c->m); ++granules; break; }
    if (c->g == g) break;
  }
  c->m[k][cur] |= mask; c->pc[k & 1][cur] = pc;
  // conflicts: a write with any access of another thread, except two locked ones; a locked read only with plain writes
  static const int with[4][4] = {{0, 1, 0, 1}, {1, 1, 1, 1}, {0, 1, 0, 0}, {1, 1, 0, 0}};
  for (int t = 0; t < nth; ++t) if (t != cur)
    for (int b = 0; b < 4; ++b) if (with[k][b] && (c->m[b][t] & mask)) { race(*c, k, 0, t, b, pc); return; }
}
static inline void access(const void* p, size_t n, bool write, bool atomic, const void* pc) {
  if (!on || n == 0) return;
  ++accesses;
  uintptr_t a = reinterpret_cast<uintptr_t>(p), e = a + n;
  const int k = (write ? 1 : 0) + (atomic || locked ? 2 : 0);
  while (a < e) {
    uintptr_t g = a >> 3; int o = a & 7; int l = 8 - o; if (l > static_cast<int>(e - a)) l = static_cast<int>(e - a);
    touch(g, static_cast<uint8_t>(((1u << l) - 1) << o), k, pc);
    a += static_cast<uintptr_t>(l);
  }
}
#define PC __builtin_return_address(0)

// coroutines
struct Co { ucontext_t c; char* stack; bool done, waiting; int single; };
static Co co[MAXT];
static ucontext_t sched;
static void (*g_fn)(void*); static void* g_data;
static long loop_next, loop_end, loop_incr, loop_chunk; static bool loop_up; static int loop_gen; static int loop_seen[MAXT]; static int loop_kind; static int singles; static void* copyp;

static void entry() { g_fn(g_data); co[cur].done = true; swapcontext(&co[cur].c, &sched); }
static void yield() { if (nested) return; ++switches; const int me = cur; on = false; swapcontext(&co[me].c, &sched); }
static std::vector<void*>& quarantine() { static std::vector<void*> q; return q; }
extern jmp_buf escape;
static std::terminate_handler old_term;
static void on_terminate() {
  if (!inside) { if (old_term) old_term(); abort(); }
  on = false; aborted = true; nested = 0;
  setcontext(&sched);
}
static void run(void (*fn)(void*), void* data, unsigned n) {
  if (inside) { ++nested; fn(data); --nested; return; }  // nested: one thread
  if (n == 0) n = 1; if (n > MAXT) n = MAXT;
  ++regions;
  if (!table) { table = static_cast<Cell*>(mmap(nullptr, SIZE * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); old_term = std::set_terminate(on_terminate); }
  ++gen; nth = static_cast<int>(n); locked = 0; aborted = false; singles = 0; loop_gen = 0;
  g_fn = fn; g_data = data;
  std::vector<int> ord = order ? order(Region{reinterpret_cast<const void*>(fn), nth}, regions) : std::vector<int>();
  if (static_cast<int>(ord.size()) != nth) { ord.clear(); for (int i = 0; i < nth; ++i) ord.push_back(i); }
  if (quarantine().capacity() < 100000) quarantine().reserve(100000);
  for (int i = 0; i < nth; ++i) {
    if (!co[i].stack) co[i].stack = static_cast<char*>(mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    getcontext(&co[i].c); co[i].c.uc_stack.ss_sp = co[i].stack; co[i].c.uc_stack.ss_size = 1 << 20; co[i].c.uc_link = &sched;
    makecontext(&co[i].c, reinterpret_cast<void (*)()>(entry), 0);
    co[i].done = co[i].waiting = false; co[i].single = 0; loop_seen[i] = 0;
  }
  size_t k = 0;  // the order is cyclic; dynamic() may choose another one at every switch
  for (;;) {
    std::vector<int> ready; bool left = false;
    for (int i = 0; i < nth; ++i) { const int t = ord[(k + static_cast<size_t>(i)) % static_cast<size_t>(nth)]; if (!co[t].done) { left = true; if (!co[t].waiting) ready.push_back(t); } }
    if (!left) break;
    if (ready.empty()) { for (int i = 0; i < nth; ++i) co[i].waiting = false; continue; }  // everybody reached the barrier
    bool some_wait = false; for (int i = 0; i < nth; ++i) some_wait = some_wait || (!co[i].done && co[i].waiting);
    cur = ready[0]; (void)some_wait;
    if (dynamic && ready.size() > 1) cur = ready[static_cast<size_t>(dynamic(static_cast<int>(ready.size())))];
    inside = true; on = nth > 1;
    swapcontext(&sched, &co[cur].c);
    on = inside = false;
    if (aborted) break;
    if (co[cur].done) { for (size_t i = 0; i < ord.size(); ++i) if (ord[i] == cur) k = (i + 1) % ord.size(); }
  }
  on = false; nth = 1; cur = 0; locked = 0;
  for (void* p : quarantine()) __libc_free(p);
  quarantine().clear();
  if (aborted) { aborted = false; longjmp(escape, 1); }
}
jmp_buf escape;
void reset() { races.clear(); nraces = 0; }
static void barrier() { if (inside && !nested) { co[cur].waiting = true; yield(); } }
static void loop_init(long s, long e, long i, long c) {
  ++loop_seen[cur];
  if (loop_seen[cur] > loop_gen) { loop_gen = loop_seen[cur]; loop_next = s; loop_end = e; loop_incr = i; loop_chunk = c < 1 ? 1 : c; }
}
static bool loop_take(long* a, long* b) {
  yield();
  const long left = loop_incr > 0 ? (loop_end - loop_next + loop_incr - 1) / loop_incr : (loop_next - loop_end - loop_incr - 1) / -loop_incr;
  if (left <= 0) return false;
  const long n = left < loop_chunk ? left : loop_chunk;
  *a = loop_next; loop_next += n * loop_incr; *b = loop_next;
  return true;
}
}  // namespace mt
using namespace mt;

extern "C" {
void free(void* p) {
  if (on && p) { access(p, malloc_usable_size(p), true, false, PC); const bool w = on; on = false; quarantine().push_back(p); on = w; return; }
  __libc_free(p);
}
void* malloc(size_t);
void* __libc_realloc(void*, size_t);
void* realloc(void* p, size_t n) {
  if (!on || !p) return __libc_realloc(p, n);
  void* q = malloc(n); if (!q) return q;
  const size_t o = malloc_usable_size(p);
  on = false; memcpy(q, p, o < n ? o : n); on = true; free(p);
  return q;
}
int omp_get_num_threads() { return nested ? 1 : nth; }
int omp_get_thread_num() { return nested ? 0 : cur; }
int omp_get_max_threads() { return 4; }
int omp_get_num_procs() { return 4; }
int omp_in_parallel() { return inside; }
int omp_get_level() { return inside; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime() { return 0; }
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { run(fn, d, n ? n : 4); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* d, unsigned n, unsigned) { run(fn, d, n ? n : 4); return n; }
#define LOOP(K) \
  struct K##_a { void (*fn)(void*); void* d; long s, e, i, c; }; \
  void GOMP_parallel_loop_##K(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { \
    static K##_a a; a = K##_a{fn, d, s, e, i, c}; run([](void*) { loop_init(a.s, a.e, a.i, a.c); a.fn(a.d); }, nullptr, n ? n : 4); } \
  bool GOMP_loop_##K##_start(long s, long e, long i, long c, long* a, long* b) { loop_init(s, e, i, c); return loop_take(a, b); } \
  bool GOMP_loop_##K##_next(long* a, long* b) { return loop_take(a, b); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
typedef unsigned long long ull;
#define ULOOP(K) \
  bool GOMP_loop_ull_##K##_start(bool, ull s, ull e, ull i, ull c, ull* a, ull* b) { loop_init(long(s), long(e), long(i), long(c)); return loop_take(reinterpret_cast<long*>(a), reinterpret_cast<long*>(b)); } \
  bool GOMP_loop_ull_##K##_next(ull* a, ull* b) { return loop_take(reinterpret_cast<long*>(a), reinterpret_cast<long*>(b)); }
ULOOP(dynamic) ULOOP(guided) ULOOP(nonmonotonic_dynamic) ULOOP(nonmonotonic_guided)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() { barrier(); }
void GOMP_critical_start() { ++locked; }
void GOMP_critical_end() { --locked; }
void GOMP_critical_name_start(void**) { ++locked; }
void GOMP_critical_name_end(void**) { --locked; }
void GOMP_atomic_start() { ++locked; }
void GOMP_atomic_end() { --locked; }
bool GOMP_single_start() { return co[cur].single++ == singles ? (++singles, true) : false; }
void* GOMP_single_copy_start() { if (GOMP_single_start()) return nullptr; barrier(); return copyp; }
void GOMP_single_copy_end(void* p) { copyp = p; barrier(); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int) {
  if (cpy) { std::vector<char> b(static_cast<size_t>(sz + al)); char* p = b.data() + (al - reinterpret_cast<uintptr_t>(b.data()) % static_cast<uintptr_t>(al)) % static_cast<uintptr_t>(al); cpy(p, data); fn(p); } else fn(data);
}
void GOMP_taskwait() {}
void omp_init_lock(void*) {} void omp_destroy_lock(void*) {} void omp_set_lock(void*) { ++locked; } void omp_unset_lock(void*) { --locked; }

// what -fsanitize=thread calls
void __tsan_init() {}
void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void* p) { access(p, N, false, false, PC); } \
  void __tsan_write##N(void* p) { access(p, N, true, false, PC); } \
  void __tsan_unaligned_read##N(void* p) { access(p, N, false, false, PC); } \
  void __tsan_unaligned_write##N(void* p) { access(p, N, true, false, PC); } \
  void __tsan_volatile_read##N(void* p) { access(p, N, false, false, PC); } \
  void __tsan_volatile_write##N(void* p) { access(p, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, false, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, false, PC); }
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* p, int) { access((const void*)p, sizeof(T), false, true, PC); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##B##_store(volatile T* p, T v, int) { access((const void*)p, sizeof(T), true, true, PC); __atomic_store_n(p, v, 5); } \
  T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { access((const void*)p, sizeof(T), true, true, PC); return __atomic_exchange_n(p, v, 5); } \
  T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { access((const void*)p, sizeof(T), true, true, PC); return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { access((const void*)p, sizeof(T), true, true, PC); return __atomic_fetch_sub(p, v, 5); } \
  T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { access((const void*)p, sizeof(T), true, true, PC); return __atomic_fetch_and(p, v, 5); } \
  T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { access((const void*)p, sizeof(T), true, true, PC); return __atomic_fetch_or(p, v, 5); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { access((const void*)p, sizeof(T), true, true, PC); return __atomic_fetch_xor(p, v, 5); } \
  bool __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { access((const void*)p, sizeof(T), true, true, PC); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
  bool __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { access((const void*)p, sizeof(T), true, true, PC); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

#undef memcpy
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { access(d, n, true, false, PC); return __real_memset(d, v, n); }
}
