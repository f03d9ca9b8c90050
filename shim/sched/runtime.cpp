// A run time for code compiled with -fsanitize=thread (but linked without
// libtsan): every worker thread of the real native code stops at its atomic
// operations and lock acquisitions until the schedule under test lets it go on,
// so that exactly one worker runs at a time; memory accesses of the workers
// are recorded, so that unsynchronised sharing can be judged afterwards.
//
// This file itself is compiled without -fsanitize=thread.
#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <new>
#include <pthread.h>
#include <random>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#define EXPORT extern "C" __attribute__((visibility("default")))
using u64 = uint64_t;

namespace {
constexpr int MAXW = 64;
struct Ev {
  int w;
  char kind; // a atomic, l lock, u unlock, r read, w write, n new memory
  unsigned size;
  u64 addr;
};

bool active = false;
bool record = false;
int generation = 0;
pthread_t main_thread;
u64 main_lo = 0, main_hi = 0;

// only initial-exec-free plain mutexes of libc are used here, never wrapped
pthread_mutex_t M = PTHREAD_MUTEX_INITIALIZER;
pthread_cond_t C;
bool cond_ready = false;

int expected = 0, created = 0, arrived = 0, live = 0, running = -1, regions = 0, steals = 0;
long points = 0;
bool open_ = false; // the start barrier has been passed
u64 progress = 0;
struct W { bool waiting, done; u64 want; };
W ws[MAXW];
std::vector<int> schedule;
size_t at = 0;
std::mt19937 rng;
std::map<u64, int> owner;            // mutex -> worker
std::map<u64, int> touched;          // atomic location -> worker, or -2 when several
std::vector<std::vector<Ev>> logs;
std::vector<std::vector<int>> orders;
size_t logged = 0;
constexpr size_t LOGCAP = 6000000;
bool truncated = false;

struct TL {
  int id = -1, gen = 0, quiet = 0;
  u64 lo = 0, hi = 0;
  struct { u64 a; char k; unsigned s; } cache[256];
  ~TL();
};
thread_local TL tl;

void deadline(timespec &t, int ms) {
  clock_gettime(CLOCK_MONOTONIC, &t);
  t.tv_nsec += (long)ms * 1000000L;
  t.tv_sec += t.tv_nsec / 1000000000L;
  t.tv_nsec %= 1000000000L;
}

bool eligible(int w) {
  return ws[w].waiting && !ws[w].done && (!ws[w].want || !owner.count(ws[w].want));
}

// called with M held and nobody running
void dispatch() {
  if (!open_ || running >= 0)
    return;
  std::vector<int> can;
  for (int w = 0; w < arrived; w++)
    if (eligible(w))
      can.push_back(w);
  if (can.empty())
    return;
  int pick = -1;
  while (at < schedule.size() && pick < 0) {
    int s = schedule[at++];
    if (std::find(can.begin(), can.end(), s) != can.end())
      pick = s;
  }
  if (pick < 0)
    pick = can[rng() % can.size()];
  running = pick;
  progress++;
  orders.back().push_back(pick);
  pthread_cond_broadcast(&C);
}

void maybe_open() {
  if (!open_ && arrived >= expected) {
    open_ = true;
    dispatch();
  }
}

// the calling worker waits for its turn
void turn(int w, u64 want) {
  pthread_mutex_lock(&M);
  points++;
  ws[w].waiting = true;
  ws[w].want = want;
  if (running == w)
    running = -1;
  maybe_open();
  dispatch();
  while (running != w) {
    timespec t;
    deadline(t, 25);
    u64 before = progress;
    int n = arrived;
    int r = pthread_cond_timedwait(&C, &M, &t);
    if (running != w && r != 0 && progress == before && n == arrived) {
      if (!open_) { // fewer workers than expected
        open_ = true;
        dispatch();
      } else if (running < 0 || !ws[running].waiting) {
        // the running worker is blocked outside of our sight
        steals++;
        running = -1;
        dispatch();
      }
    }
  }
  ws[w].waiting = false;
  if (want)
    owner[want] = w;
  pthread_mutex_unlock(&M);
}

bool enter() { // -> this thread is a worker
  if (!active)
    return false;
  if (tl.id >= 0 && tl.gen == generation)
    return true;
  if (pthread_equal(pthread_self(), main_thread))
    return false;
  pthread_attr_t at_;
  void *sp = nullptr;
  size_t sz = 0;
  if (!pthread_getattr_np(pthread_self(), &at_)) {
    pthread_attr_getstack(&at_, &sp, &sz);
    pthread_attr_destroy(&at_);
  }
  pthread_mutex_lock(&M);
  if (live == 0) { // a new parallel region
    regions++;
    arrived = 0;
    running = -1;
    open_ = false;
    at = 0;
    owner.clear();
    touched.clear();
    logs.emplace_back();
    orders.emplace_back();
  }
  if (arrived >= MAXW) {
    pthread_mutex_unlock(&M);
    return false;
  }
  tl.id = arrived++;
  tl.gen = generation;
  tl.lo = (u64)sp;
  tl.hi = (u64)sp + sz;
  memset(tl.cache, 0, sizeof tl.cache);
  ws[tl.id] = W{false, false, 0};
  live++;
  pthread_cond_broadcast(&C);
  pthread_mutex_unlock(&M);
  turn(tl.id, 0);
  return true;
}

TL::~TL() {
  if (id < 0 || gen != generation)
    return;
  pthread_mutex_lock(&M);
  if (gen == generation) {
    ws[id].done = true;
    live--;
    if (running == id)
      running = -1;
    progress++;
    dispatch();
    pthread_cond_broadcast(&C);
  }
  pthread_mutex_unlock(&M);
  id = -1;
}

void put(char k, const void *p, size_t n) {
  pthread_mutex_lock(&M);
  if (!logs.empty()) {
    if (logged < LOGCAP) {
      logs.back().push_back(Ev{tl.id, k, (unsigned)n, (u64)p});
      logged++;
    } else
      truncated = true;
  }
  pthread_mutex_unlock(&M);
}

inline void access(char k, const void *p, size_t n) {
  if (!active || !enter() || tl.quiet || !record)
    return;
  u64 a = (u64)p;
  if (a >= tl.lo && a < tl.hi)
    return;
  auto &c = tl.cache[(a >> 2) & 255];
  if (c.a == a && c.s == n && (c.k == k || c.k == 'w'))
    return;
  c.a = a;
  c.k = k;
  c.s = (unsigned)n;
  put(k, p, n);
}

void sync_event(char k, const void *p) {
  memset(tl.cache, 0, sizeof tl.cache);
  put(k, p, 1);
}

// a scheduling point unless the location is only known to this worker
void atomic_point(const void *p) {
  if (!active || !enter() || tl.quiet)
    return;
  u64 a = (u64)p;
  if (a >= tl.lo && a < tl.hi)
    return;
  pthread_mutex_lock(&M);
  auto it = touched.find(a);
  bool shared = it != touched.end() && it->second != tl.id;
  bool first = it == touched.end();
  if (first)
    touched[a] = tl.id;
  else if (it->second != tl.id)
    it->second = -2;
  // the first worker to touch a location stops there only when it belongs to
  // the stack of the thread that started the region; reference counts do not
  bool mains = a >= main_lo && a < main_hi;
  pthread_mutex_unlock(&M);
  if (shared || mains)
    turn(tl.id, 0);
  sync_event('a', p);
}
} // namespace

// ------------------------------------------------------------ the control API
EXPORT void vs_begin(int n_expected, const int *ids, int n_ids, unsigned seed, int rec) {
  pthread_mutex_lock(&M);
  if (!cond_ready) {
    pthread_condattr_t ca;
    pthread_condattr_init(&ca);
    pthread_condattr_setclock(&ca, CLOCK_MONOTONIC);
    pthread_cond_init(&C, &ca);
    cond_ready = true;
  }
  generation++;
  main_thread = pthread_self();
  pthread_attr_t a;
  void *sp = nullptr;
  size_t sz = 0;
  pthread_getattr_np(main_thread, &a);
  pthread_attr_getstack(&a, &sp, &sz);
  pthread_attr_destroy(&a);
  main_lo = (u64)sp;
  main_hi = (u64)sp + sz;
  expected = n_expected;
  schedule.assign(ids, ids + n_ids);
  rng.seed(seed);
  at = 0;
  created = arrived = live = regions = steals = 0;
  running = -1;
  points = 0;
  open_ = false;
  logs.clear();
  orders.clear();
  logged = 0;
  truncated = false;
  record = rec;
  active = true;
  pthread_mutex_unlock(&M);
}

// -> JSON: for every parallel region the order in which the workers ran and the
// accesses to locations that several workers touched and some worker wrote.
EXPORT const char *vs_end(int cap) {
  static std::string out;
  pthread_mutex_lock(&M);
  active = false;
  out = "{\"points\":" + std::to_string(points) + ",\"steals\":" + std::to_string(steals) +
        ",\"truncated\":" + (truncated ? "true" : "false") + ",\"regions\":[";
  for (size_t g = 0; g < logs.size(); g++) {
    auto &log = logs[g];
    struct Byte { unsigned id; u64 who; bool plain_write, plain; };
    // identity of a byte = address and allocation
    std::unordered_map<u64, unsigned> cur;
    std::vector<u64> who;
    std::vector<char> wr;
    std::vector<std::vector<unsigned>> ids(log.size());
    for (size_t e = 0; e < log.size(); e++) {
      auto &ev = log[e];
      if (ev.kind == 'n') {
        if (ev.size > cur.size()) {
          for (auto it = cur.begin(); it != cur.end();)
            it = (it->first >= ev.addr && it->first < ev.addr + ev.size) ? cur.erase(it) : std::next(it);
        } else
          for (u64 b = ev.addr; b < ev.addr + ev.size; b++)
            cur.erase(b);
      } else if (ev.kind == 'r' || ev.kind == 'w') {
        for (u64 b = ev.addr; b < ev.addr + ev.size; b++) {
          auto it = cur.find(b);
          if (it == cur.end()) {
            it = cur.emplace(b, (unsigned)who.size()).first;
            who.push_back(0);
            wr.push_back(0);
          }
          who[it->second] |= 1ULL << ev.w;
          if (ev.kind == 'w')
            wr[it->second] = 1;
          ids[e].push_back(it->second);
        }
      }
    }
    out += std::string(g ? "," : "") + "{\"workers\":" ;
    u64 all = 0;
    for (auto &ev : log) all |= 1ULL << ev.w;
    for (int w : orders[g]) all |= 1ULL << w;
    out += std::to_string(__builtin_popcountll(all)) + ",\"order\":[";
    for (size_t i = 0; i < orders[g].size() && i < 400; i++)
      out += (i ? "," : "") + std::to_string(orders[g][i]);
    out += "],\"events\":[";
    int n = 0;
    std::map<u64, int> sloc;
    std::map<unsigned, int> loc;
    for (size_t e = 0; e < log.size() && n < cap; e++) {
      auto &ev = log[e];
      int l = -1;
      if (ev.kind == 'a' || ev.kind == 'l' || ev.kind == 'u')
        l = sloc.emplace(ev.addr, (int)sloc.size()).first->second;
      else
        for (unsigned b : ids[e])
          if (wr[b] && (who[b] & (who[b] - 1))) {
            l = 100000 + loc.emplace(b, (int)loc.size()).first->second;
            break;
          }
      if (l < 0)
        continue;
      out += std::string(n++ ? "," : "") + "[" + std::to_string(ev.w) + ",\"" + ev.kind + "\"," + std::to_string(l) + "]";
    }
    out += "]}";
  }
  out += "]}";
  logs.clear();
  orders.clear();
  pthread_mutex_unlock(&M);
  return out.c_str();
}

// ------------------------------------------------- calls made by the compiler
#pragma GCC visibility push(default)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { if (active) enter(); }
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define RW(n)                                                                                    \
  void __tsan_read##n(void *p) { if (active) access('r', p, n); }                                \
  void __tsan_write##n(void *p) { if (active) access('w', p, n); }                               \
  void __tsan_unaligned_read##n(void *p) { if (active) access('r', p, n); }                      \
  void __tsan_unaligned_write##n(void *p) { if (active) access('w', p, n); }                     \
  void __tsan_volatile_read##n(void *p) { if (active) access('r', p, n); }                       \
  void __tsan_volatile_write##n(void *p) { if (active) access('w', p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { if (active && n) access('r', p, n); }
void __tsan_write_range(void *p, unsigned long n) { if (active && n) access('w', p, n); }

#define AT(bits, T)                                                                              \
  T __tsan_atomic##bits##_load(const volatile T *a, int) { atomic_point((const void *)a); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) { atomic_point((const void *)a); __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { atomic_point((const void *)a); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { atomic_point((const void *)a); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { atomic_point((const void *)a); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { atomic_point((const void *)a); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { atomic_point((const void *)a); return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { atomic_point((const void *)a); return __atomic_fetch_xor(a, v, 5); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { atomic_point((const void *)a); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { atomic_point((const void *)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { atomic_point((const void *)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { atomic_point((const void *)a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------- wrapped at link time (ld --wrap)
void *__real_malloc(size_t) __asm__("malloc");
void *__real_calloc(size_t, size_t) __asm__("calloc");
void *__real_realloc(void *, size_t) __asm__("realloc");
int __real_posix_memalign(void **, size_t, size_t) __asm__("posix_memalign");
void *__real_aligned_alloc(size_t, size_t) __asm__("aligned_alloc");
void *__real__Znwm(size_t) __asm__("_Znwm");
void *__real__Znam(size_t) __asm__("_Znam");
void *__real__ZnwmSt11align_val_t(size_t, size_t) __asm__("_ZnwmSt11align_val_t");
void *__real__ZnamSt11align_val_t(size_t, size_t) __asm__("_ZnamSt11align_val_t");
void *__real__ZnwmRKSt9nothrow_t(size_t, void *) __asm__("_ZnwmRKSt9nothrow_t");
static void fresh(void *p, size_t n) {
  if (active && record && p && n && enter())
    put('n', p, n);
}
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); fresh(p, n); return p; }
void *__wrap_calloc(size_t m, size_t n) { void *p = __real_calloc(m, n); fresh(p, m * n); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); fresh(p, n); return p; }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r) fresh(*p, n); return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { void *p = __real_aligned_alloc(a, n); fresh(p, n); return p; }
void *__wrap__Znwm(size_t n) { void *p = __real__Znwm(n); fresh(p, n); return p; }
void *__wrap__Znam(size_t n) { void *p = __real__Znam(n); fresh(p, n); return p; }
void *__wrap__ZnwmSt11align_val_t(size_t n, size_t a) { void *p = __real__ZnwmSt11align_val_t(n, a); fresh(p, n); return p; }
void *__wrap__ZnamSt11align_val_t(size_t n, size_t a) { void *p = __real__ZnamSt11align_val_t(n, a); fresh(p, n); return p; }
void *__wrap__ZnwmRKSt9nothrow_t(size_t n, void *t) { void *p = __real__ZnwmRKSt9nothrow_t(n, t); fresh(p, n); return p; }

void *__real_memcpy(void *, const void *, size_t) __asm__("memcpy");
void *__real_memmove(void *, const void *, size_t) __asm__("memmove");
void *__real_memset(void *, int, size_t) __asm__("memset");
void *__real___memset_chk(void *, int, size_t, size_t) __asm__("__memset_chk");
void *__real___memcpy_chk(void *, const void *, size_t, size_t) __asm__("__memcpy_chk");
void *__real___memmove_chk(void *, const void *, size_t, size_t) __asm__("__memmove_chk");
int __real_memcmp(const void *, const void *, size_t) __asm__("memcmp");
#define MW(p, n) if (active && n) access('w', p, n)
#define MR(p, n) if (active && n) access('r', p, n)
void *__wrap_memcpy(void *d, const void *s, size_t n) { MR(s, n); MW(d, n); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { MR(s, n); MW(d, n); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { MW(d, n); return __real_memset(d, c, n); }
void *__wrap___memset_chk(void *d, int c, size_t n, size_t m) { MW(d, n); return __real___memset_chk(d, c, n, m); }
void *__wrap___memcpy_chk(void *d, const void *s, size_t n, size_t m) { MR(s, n); MW(d, n); return __real___memcpy_chk(d, s, n, m); }
void *__wrap___memmove_chk(void *d, const void *s, size_t n, size_t m) { MR(s, n); MW(d, n); return __real___memmove_chk(d, s, n, m); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { MR(a, n); MR(b, n); return __real_memcmp(a, b, n); }

// locks
int __real_pthread_mutex_lock(pthread_mutex_t *) __asm__("pthread_mutex_lock");
int __real_pthread_mutex_trylock(pthread_mutex_t *) __asm__("pthread_mutex_trylock");
int __real_pthread_mutex_unlock(pthread_mutex_t *) __asm__("pthread_mutex_unlock");
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *) __asm__("pthread_cond_wait");
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  bool w = active && enter();
  if (w)
    turn(tl.id, (u64)m);
  int r = __real_pthread_mutex_lock(m);
  if (w)
    sync_event('l', m);
  return r;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  bool w = active && enter();
  if (w)
    turn(tl.id, 0);
  int r = __real_pthread_mutex_trylock(m);
  if (w && !r) {
    sync_event('l', m);
    pthread_mutex_lock(&M);
    owner[(u64)m] = tl.id;
    pthread_mutex_unlock(&M);
  }
  return r;
}
static void released(pthread_mutex_t *m) {
  sync_event('u', m);
  pthread_mutex_lock(&M);
  owner.erase((u64)m);
  pthread_mutex_unlock(&M);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (active && enter())
    released(m);
  return __real_pthread_mutex_unlock(m);
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  bool w = active && enter();
  if (w) {
    released(m);
    pthread_mutex_lock(&M);
    if (running == tl.id)
      running = -1;
    dispatch();
    pthread_mutex_unlock(&M);
  }
  int r = __real_pthread_cond_wait(c, m);
  if (w) {
    sync_event('l', m);
    pthread_mutex_lock(&M);
    owner[(u64)m] = tl.id;
    pthread_mutex_unlock(&M);
  }
  return r;
}

// initialisation of function-local statics
int __real___cxa_guard_acquire(u64 *) __asm__("__cxa_guard_acquire");
void __real___cxa_guard_release(u64 *) __asm__("__cxa_guard_release");
void __real___cxa_guard_abort(u64 *) __asm__("__cxa_guard_abort");
int __wrap___cxa_guard_acquire(u64 *g) {
  bool w = active && enter();
  int r = __real___cxa_guard_acquire(g);
  if (w) {
    sync_event('a', g);
    if (r)
      tl.quiet++;
  }
  return r;
}
void __wrap___cxa_guard_release(u64 *g) {
  if (active && enter()) {
    tl.quiet--;
    sync_event('a', g);
  }
  __real___cxa_guard_release(g);
}
void __wrap___cxa_guard_abort(u64 *g) {
  if (active && enter())
    tl.quiet--;
  __real___cxa_guard_abort(g);
}

// a new thread reaches its first step before the next one is started, so that
// workers are numbered in the order in which they were started
void __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(void *, void *, void (*)()) __asm__("_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE");
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(void *self, void *state, void (*dep)()) {
  bool mine = active && pthread_equal(pthread_self(), main_thread);
  int seen = 0, g = 0;
  if (mine) {
    pthread_mutex_lock(&M);
    g = regions;
    seen = arrived;
    pthread_mutex_unlock(&M);
  }
  __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(self, state, dep);
  if (mine) {
    timespec t;
    deadline(t, 200);
    pthread_mutex_lock(&M);
    while (regions == g && arrived == seen)
      if (pthread_cond_timedwait(&C, &M, &t))
        break;
    pthread_mutex_unlock(&M);
  }
}
}
#pragma GCC visibility pop
