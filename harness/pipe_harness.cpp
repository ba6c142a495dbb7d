// Drives the real stage runners of /repo under a controlled scheduler and logs
// what they do.  Built three times: NR (C++ runners), PY (-DPYCENTAURUS=1, with
// an adapter that keeps values outside the runners as the Python package does)
// and LEGACY (-DHARNESS_LEGACY).
//
// No change to /repo is needed: std::atomic is replaced by an instrumented
// class for the runner headers, and pthread/semaphore/shm/mmap calls are
// wrapped at link time (-Wl,--wrap=...).
#include <atomic>
#include <algorithm>
#include <cassert>
#include <cerrno>
#include <codecvt>
#include <condition_variable>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

// ---------------------------------------------------------------- log buffer
struct SharedLog { size_t len; size_t overflow; char data[]; };
static SharedLog *g_log; static size_t g_logcap;
static void logf_(const char *fmt, ...) {
  char buf[65536]; va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (n >= (int)sizeof buf) n = sizeof buf - 1;
  if (g_log->len + n + 1 > g_logcap) { g_log->overflow = 1; return; }
  memcpy(g_log->data + g_log->len, buf, n); g_log->len += n; g_log->data[g_log->len++] = '\n';
}

// ---------------------------------------------------------------- scenario
struct Marker { char k; int id; uint64_t off; };
struct Scenario {
  int W = 1, B = 2; size_t bank_bytes = 4096; int dry = 0, capture = 0, touch = 0, xfer = 1, counter = 1;
  unsigned valseed = 0; int zeropct = 20; int prefill = 0;
  std::vector<std::vector<Marker>> pages;
};
struct Sched {           // how to choose the next thread
  int kind = 0;          // 0 overrides on non-preemptive default, 1 random, 2 pct, 3 priorities that drop after page hand-overs
  uint64_t seed = 0; int param = 0;
  std::map<long, int> overrides; // decision number -> thread
};
static Scenario S; static Sched Q;

// ---------------------------------------------------------------- scheduler
enum { MAXT = 32 };
enum Pend { P_NONE, P_START, P_LOAD, P_RMW, P_STORE, P_POST, P_WAIT, P_CONT, P_LISTEN, P_YIELD };
struct Thr { bool live = false, done = false; Pend pend = P_NONE; long quiet = 0; long seen_version = -1; pthread_t th;
  void *(*fn)(void *) = nullptr; void *arg = nullptr; sem_t go; int runner = -1; long prio = 0; };
static Thr T[MAXT]; static int nT = 0;
static sem_t g_ctl; static __thread int self_ = -1;
static long g_version = 0; static long g_sem = 0; static long g_steps = 0; static long g_decisions = 0;
static int g_cur_runner = -1; static bool g_active = false;
static long g_snap_off = -1;
extern "C" int __real_sem_wait(sem_t *); extern "C" int __real_sem_post(sem_t *);

static void park(Pend p) {
  if (self_ < 0 || !g_active) return;
  T[self_].pend = p; __real_sem_post(&g_ctl); while (__real_sem_wait(&T[self_].go) != 0) {}
}
static void changed() { g_version++; }
static void quietop() { if (self_ >= 0) T[self_].quiet++; }
static void progressed() { if (self_ >= 0) T[self_].quiet = 0; }

extern "C" int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static void *tramp(void *a) {
  int me = (int)(intptr_t)a; self_ = me;
  T[me].pend = P_START; __real_sem_post(&g_ctl); while (__real_sem_wait(&T[me].go) != 0) {}
  logf_("{\"e\":\"begin\",\"t\":%d}", T[me].runner);
  void *r = T[me].fn(T[me].arg);
  logf_("{\"e\":\"exit\",\"t\":%d}", T[me].runner);
  T[me].done = true; changed(); __real_sem_post(&g_ctl); return r;
}
extern "C" int __wrap_pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  int me = nT++; Thr &t = T[me]; t.live = true; t.fn = fn; t.arg = arg; t.runner = g_cur_runner; sem_init(&t.go, 0, 0);
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 64 << 20);
  int r = __real_pthread_create(th, &a, tramp, (void *)(intptr_t)me); t.th = *th;
  while (__real_sem_wait(&g_ctl) != 0) {}   // until it has parked
  return r;
}
extern "C" int __real_pthread_join(pthread_t, void **);
extern "C" int __wrap_pthread_join(pthread_t t, void **r) { return __real_pthread_join(t, r); }

// semaphores of the code under test are emulated
extern "C" sem_t *__wrap_sem_open(const char *, int, ...) { static sem_t fake; return &fake; }
extern "C" int __wrap_sem_close(sem_t *) { return 0; }
extern "C" int __wrap_sem_unlink(const char *) { return 0; }
extern "C" int __wrap_sem_post(sem_t *) {
  park(P_POST); g_sem++; logf_("{\"e\":\"post\",\"t\":%d}", self_ < 0 ? -1 : T[self_].runner); changed(); progressed(); park(P_CONT); return 0; }
extern "C" int __wrap_sem_wait(sem_t *) {
  if (self_ < 0) return 0;
  park(P_WAIT); g_sem--; logf_("{\"e\":\"wait\",\"t\":%d}", T[self_].runner); progressed(); park(P_CONT); return 0; }
extern "C" int __wrap_sem_trywait(sem_t *) {
  park(P_RMW); if (g_sem <= 0) { quietop(); errno = EAGAIN; return -1; } g_sem--; logf_("{\"e\":\"wait\",\"t\":%d}", T[self_].runner); progressed(); return 0; }
extern "C" int __wrap_sem_timedwait(sem_t *s, const struct timespec *) { return __wrap_sem_wait(s); }
extern "C" int __wrap_sched_yield() { if (self_ >= 0) { park(P_YIELD); quietop(); } return 0; }
extern "C" int __wrap_usleep(unsigned) { return __wrap_sched_yield(); }
extern "C" int __wrap_nanosleep(const struct timespec *, struct timespec *) { return __wrap_sched_yield(); }

// shared memory: one anonymous file per run
static int g_memfd = -1; static int g_shm_fds[64]; static int n_shm_fds = 0;
extern "C" int __wrap_shm_open(const char *, int, mode_t) {
  if (g_memfd < 0) g_memfd = memfd_create("window", 0);
  int fd = dup(g_memfd); g_shm_fds[n_shm_fds++ % 64] = fd; return fd; }
extern "C" int __wrap_shm_unlink(const char *) { return 0; }
struct Map { char *p; size_t len; off_t off; int runner; };
static std::vector<Map> g_maps;
extern "C" void *__real_mmap(void *, size_t, int, int, int, off_t);
static bool is_shm(int fd) { for (int i = 0; i < 64 && i < n_shm_fds; i++) if (g_shm_fds[i] == fd) return true; return false; }
extern "C" void *__wrap_mmap(void *a, size_t l, int pr, int fl, int fd, off_t off) {
  void *p = __real_mmap(a, l, pr, fl, fd, off);
  if (fd >= 0 && is_shm(fd) && p != MAP_FAILED) g_maps.push_back(Map{(char *)p, l, off, g_cur_runner});
  return p; }
extern "C" void *__wrap_mmap64(void *a, size_t l, int pr, int fl, int fd, off_t off) { return __wrap_mmap(a, l, pr, fl, fd, off); }

// ---------------------------------------------------------------- instrumented atomic
namespace verif {
static long shm_offset(const volatile void *p) {
  for (auto &m : g_maps) if ((const char *)p >= m.p && (const char *)p < m.p + m.len) return (long)(m.off + ((const char *)p - m.p));
  return -1;
}
static void release_touch(long);
static long bank_of(long off);   // which page's state lives at this offset, -1: none
}
namespace std {
template <class T_> class verif_atomic {
  T_ v;
  long loc() const { return verif::shm_offset((const void *)this); }
  void st(long o, T_ a, T_ b) const {
    long x = static_cast<long>(a), y = static_cast<long>(b); long bank = verif::bank_of(o);
    if (bank >= 0) logf_("{\"e\":\"st\",\"t\":%d,\"b\":%ld,\"o\":%ld,\"n\":%ld}", self_ < 0 ? -1 : T[self_].runner, bank, x, y);
    if (x != y) { changed(); progressed(); } else quietop();
    verif::release_touch(o);
  }
public:
  verif_atomic() noexcept = default;
  verif_atomic(T_ d) noexcept : v(d) {}
  verif_atomic(const verif_atomic &) = delete; verif_atomic &operator=(const verif_atomic &) = delete;
  bool is_lock_free() const { return true; }
  T_ load(memory_order = memory_order_seq_cst) const { long o = loc(); if (o < 0) return v; park(P_LOAD); T_ r = v; quietop(); return r; }
  operator T_() const { return load(); }
  void store(T_ d, memory_order = memory_order_seq_cst) { long o = loc(); if (o < 0) { v = d; return; } park(P_STORE); T_ old = v; v = d; st(o, old, d); park(P_CONT); }
  T_ operator=(T_ d) { store(d); return d; }
  T_ exchange(T_ d, memory_order = memory_order_seq_cst) { long o = loc(); if (o < 0) { T_ x = v; v = d; return x; } park(P_RMW); T_ old = v; v = d; st(o, old, d); park(P_CONT); return old; }
  bool compare_exchange_strong(T_ &e, T_ d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) {
    long o = loc();
    if (o < 0) { if (v == e) { v = d; return true; } e = v; return false; }
    park(P_RMW);
    if (v == e) { T_ old = v; v = d; st(o, old, d); park(P_CONT); return true; }
    e = v; quietop(); return false;
  }
  bool compare_exchange_weak(T_ &e, T_ d, memory_order a = memory_order_seq_cst, memory_order b = memory_order_seq_cst) { return compare_exchange_strong(e, d, a, b); }
  template <class U> T_ fetch_add(U d, memory_order = memory_order_seq_cst) { T_ x = v; v = (T_)(v + d); return x; }
  template <class U> T_ fetch_sub(U d, memory_order = memory_order_seq_cst) { T_ x = v; v = (T_)(v - d); return x; }
  T_ operator++(int) { return fetch_add(1); } T_ operator++() { return fetch_add(1) + 1; }
  T_ operator--(int) { return fetch_sub(1); } T_ operator--() { return fetch_sub(1) - 1; }
  template <class U> T_ operator+=(U d) { return fetch_add(d) + d; }
};
template <class T_> T_ atomic_load(const verif_atomic<T_> *a) { return a->load(); }
template <class T_> T_ atomic_load_explicit(const verif_atomic<T_> *a, memory_order) { return a->load(); }
template <class T_> void atomic_store(verif_atomic<T_> *a, T_ v) { a->store(v); }
template <class T_> void atomic_store_explicit(verif_atomic<T_> *a, T_ v, memory_order) { a->store(v); }
template <class T_> T_ atomic_exchange(verif_atomic<T_> *a, T_ v) { return a->exchange(v); }
template <class T_> bool atomic_compare_exchange_strong(verif_atomic<T_> *a, T_ *e, T_ v) { return a->compare_exchange_strong(*e, v); }
template <class T_> bool atomic_compare_exchange_weak(verif_atomic<T_> *a, T_ *e, T_ v) { return a->compare_exchange_strong(*e, v); }
}
#define atomic verif_atomic
#include "Exception.hpp"
#ifdef HARNESS_LEGACY
#include "Stage1Runner.hpp"
#include "Stage2Runner.hpp"
#include "Stage3Runner.hpp"
#else
#include "Stage1Runner.hpp"
#include "Stage2RunnerNonRecursive.hpp"
#include "Stage3RunnerNonRecursive.hpp"
#endif
#undef atomic
using namespace Centaurus;

// ---------------------------------------------------------------- page touch detection
static long g_sub_size = 0;   // offset of the main window in the shared memory
struct Probe : BaseRunner {   // reads names that are protected in BaseRunner
  Probe() : BaseRunner("/dev/null", 1, 1) {}
  void start() override {}
  static void states(long *v) {
    v[0] = (long)WindowBankState::Free; v[1] = (long)WindowBankState::Stage1_Locked; v[2] = (long)WindowBankState::Stage1_Unlocked;
    v[3] = (long)WindowBankState::Stage2_Locked; v[4] = (long)WindowBankState::Stage2_Unlocked; v[5] = (long)WindowBankState::Stage3_Locked;
    v[6] = (long)WindowBankState::YouAreDone; }
  static void layout(long *off, long *stride) {
    alignas(WindowBankEntry) static char raw[sizeof(WindowBankEntry)]; WindowBankEntry *e = (WindowBankEntry *)raw;
    *off = (char *)&e->state - raw; *stride = sizeof(WindowBankEntry); }
};
static long g_main_off = -1;
static void segv(int sig, siginfo_t *si, void *) {
  if (S.touch && self_ >= 0) for (auto &m : g_maps) {
    char *p = (char *)si->si_addr;
    if (m.off == g_main_off && p >= m.p && p < m.p + m.len) {
      long b = (p - m.p) / (long)S.bank_bytes;
      if (b < S.B) {
        logf_("{\"e\":\"touch\",\"t\":%d,\"m\":%d,\"p\":%ld}", T[self_].runner, m.runner, b);
        mprotect(m.p + b * S.bank_bytes, S.bank_bytes, PROT_READ | PROT_WRITE); return; }
      logf_("{\"e\":\"crash\",\"why\":\"out of window\"}"); _exit(3);
    } }
  logf_("{\"e\":\"crash\",\"why\":\"signal %d\"}", sig); _exit(3);
}
namespace verif {
static long bank_of(long off) {
  static long o = -1, st = 0; if (o < 0) Probe::layout(&o, &st);
  long i = (off - o) / st; return off >= o && (off - o) % st == 0 && i < S.B ? i : -1; }
// after a thread changed a page state, its later accesses must be seen again
static void release_touch(long) {
  if (!S.touch || self_ < 0) return;
  for (auto &m : g_maps) if (m.off == g_main_off && m.runner == T[self_].runner) mprotect(m.p, S.bank_bytes * S.B, PROT_NONE);
}
}

// ---------------------------------------------------------------- parser stand-in
static uint64_t word(const Marker &m) { return ((uint64_t)(m.k == 'S') << 63) | ((uint64_t)m.id << 48) | m.off; }
class StreamParser : public IParser {
public:
  const void *operator()(BaseListener *ctx, const void *input) override {
    for (size_t k = 0; k < S.pages.size(); k++) {
      uint64_t *p = (uint64_t *)ctx->feed_callback();
      long b = -1; for (auto &m : g_maps) if (m.off == g_main_off && (char *)p >= m.p && (char *)p < m.p + m.len) b = ((char *)p - m.p) / (long)S.bank_bytes;
      logf_("{\"e\":\"feed\",\"k\":%zu,\"p\":%ld,\"aligned\":%d}", k, b, b >= 0);
      park(P_LISTEN);
      size_t n = S.bank_bytes / 8;
      for (size_t i = 0; i < n; i++) { p[i] = i < S.pages[k].size() ? word(S.pages[k][i]) : 0; if (i % 16 == 7) park(P_LISTEN); }
      park(P_LISTEN);
    }
    return input;
  }
};

// ---------------------------------------------------------------- listeners
struct Ctx { int runner; };
static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
static std::map<uint64_t, long> g_seen; static long g_serial = 0;
static long value_of(const SymbolEntry *s) {
  uint64_t h = mix((uint64_t)s->id * 0x9E3779B97F4A7C15ULL + mix((uint64_t)s->start + 77) + mix((uint64_t)s->end + 991) * 3 + S.valseed);
  if (S.zeropct < 0 ? s->id >= 1000 && s->id != 32767 : (int)(h % 100) < S.zeropct) return 0;
  long serial = ++g_serial;
  switch ((h >> 8) % 5) {
  case 4: return serial << 32; case 0: return serial; case 1: return -serial; case 2: return (long)((h & 0xFFFFFFFF00000000ULL) | (uint64_t)serial); default: return (long)(((uint64_t)1 << 63) | (uint64_t)serial);
  }
}
static void log_red(int t, const SymbolEntry *s, const std::vector<std::string> &v, long r, const char *rs) {
  std::string a; for (size_t i = 0; i < v.size(); i++) { if (i) a += ","; a += "\"" + v[i] + "\""; }
  logf_("{\"e\":\"red\",\"t\":%d,\"id\":%ld,\"s\":\"%ld\",\"x\":\"%ld\",\"v\":[%s],\"r\":\"%s\"}", t, s->id, s->start, s->end, a.c_str(), rs);
}
#if PYCENTAURUS
// What the Python adapters do, over one value list per process and one channel per slot.
static std::vector<std::deque<std::vector<std::string>>> g_chan;
struct PyAd { int runner; bool stage3; bool has = false; std::vector<std::string> values; std::deque<std::pair<size_t, std::vector<std::string>>> iters; };
static std::vector<PyAd> g_py;
static long CENTAURUS_CALLBACK on_red(const SymbolEntry *s, uint64_t *values, int n, void *) {
  int t = T[self_].runner; PyAd &a = g_py[t]; park(P_LISTEN);
  if (a.stage3) {
    long shift = (long)values[0];
    while (shift > 0) {
      if (a.iters.empty()) { logf_("{\"e\":\"crash\",\"why\":\"shift past the last page\"}"); _exit(3); }
      auto &it = a.iters.front(); bool broke = false;
      while (it.first < it.second.size()) { a.values.push_back(it.second[it.first++]); if (--shift == 0) { broke = true; break; } }
      if (!broke) a.iters.pop_front();
    }
  }
  if (n < 0 || (size_t)n > a.values.size()) { logf_("{\"e\":\"crash\",\"why\":\"arity\"}"); _exit(3); }
  std::vector<std::string> v(a.values.end() - n, a.values.end());
  long r = value_of(s);
  a.values.resize(a.values.size() - n);
  log_red(t, s, v, r, std::to_string(r).c_str());
  if (r != 0) a.values.push_back(std::to_string(r));
  park(P_LISTEN);
  return r != 0;
}
static void CENTAURUS_CALLBACK on_xfer(int i, int n, void *) {
  int t = T[self_].runner; PyAd &a = g_py[t];
  logf_("{\"e\":\"xfer\",\"t\":%d,\"i\":%d,\"n\":%d}", t, i, n); park(P_LISTEN);
  if (!a.stage3) {
    if (a.has) { if (i < 0 || i >= S.B) { logf_("{\"e\":\"crash\",\"why\":\"slot\"}"); _exit(3); } g_chan[i].push_back(a.values); a.has = false; }
    else { a.values.clear(); a.has = true; }
  } else {
    if (i < 0 || i >= S.B || g_chan[i].empty()) { logf_("{\"e\":\"crash\",\"why\":\"no values for the page\"}"); _exit(3); }
    auto v = g_chan[i].front(); g_chan[i].pop_front();
    if (!a.has) { a.values = v; a.has = true; } else a.iters.emplace_back(0, v);
  }
}
#else
static long CENTAURUS_CALLBACK on_red(const SymbolEntry *s, uint64_t *values, int n, void *) {
  int t = T[self_].runner; park(P_LISTEN);
  std::vector<std::string> v; for (int i = 0; i < n; i++) v.push_back(std::to_string((long)values[i]));
  long r = value_of(s); log_red(t, s, v, r, std::to_string(r).c_str()); park(P_LISTEN); return r;
}
static void CENTAURUS_CALLBACK on_xfer(int i, int n, void *) { logf_("{\"e\":\"xfer\",\"t\":%d,\"i\":%d,\"n\":%d}", T[self_].runner, i, n); park(P_LISTEN); }
#endif

// ---------------------------------------------------------------- controller
static bool eligible(int i) {
  Thr &t = T[i]; if (!t.live || t.done) return false;
  if (t.pend == P_WAIT) return g_sem > 0;
  if (t.quiet > 3 * S.B + 6 && t.seen_version == g_version) return false;
  return true;
}
// pages of small scenarios are compared after every step, so that every write is seen
static std::vector<char> g_snap; static std::set<std::pair<int, int>> g_seenw;
static void written(int thread) {
  if (S.touch) return;
  for (auto &m : g_maps) if (m.off == g_snap_off) {
    size_t n = S.bank_bytes * S.B;
    if (g_snap.size() != n) { g_snap.assign(m.p, m.p + n); return; }
    if (!memcmp(m.p, g_snap.data(), n)) return;
    for (int b = 0; b < S.B; b++) if (memcmp(m.p + b * S.bank_bytes, g_snap.data() + b * S.bank_bytes, S.bank_bytes) && (thread >= 0) && g_seenw.insert({thread, b}).second)
      logf_("{\"e\":\"touch\",\"t\":%d,\"m\":%d,\"p\":%d}", T[thread].runner, T[thread].runner, b);
    g_snap.assign(m.p, m.p + n); return;
  }
}
static int control(const std::string &tmp) {
  std::mt19937_64 rng(Q.seed); int cur = -1; long extra = 0;
  for (int i = 0; i < nT; i++) T[i].prio = (long)(rng() >> 2);
  g_snap.clear(); g_seenw.clear(); written(-1);
  std::set<long> cps; if (Q.kind == 2) for (int i = 0; i < Q.param; i++) cps.insert((long)(rng() % 400));
  for (;;) {
    std::vector<int> el; bool alive = false;
    for (int i = 0; i < nT; i++) { if (T[i].live && !T[i].done) alive = true; if (eligible(i)) el.push_back(i); }
    if (!alive) return 0;
    if (el.empty()) {          // everybody waits: give spinning threads one more, longer, look
      bool any = false;
      for (int i = 0; i < nT; i++) if (T[i].live && !T[i].done && T[i].pend != P_WAIT) { T[i].quiet = -60 - 4 * S.B; any = true; }
      if (!any || ++extra > 3) return 1;
      continue;
    }
    if (++g_steps > 400000) return 2;
    int pick = -1;
    if (Q.kind == 1) {
      if (cur >= 0 && std::find(el.begin(), el.end(), cur) != el.end() && (int)(rng() % 100) < Q.param) pick = cur;
      else pick = el[rng() % el.size()];
    } else if (Q.kind >= 2) {
      if (cps.count(g_decisions) && cur >= 0) T[cur].prio = -(long)g_decisions - 1;
      pick = el[0]; for (int i : el) if (T[i].prio > T[pick].prio) pick = i;
    } else {
      auto it = Q.overrides.find(g_decisions);
      if (it != Q.overrides.end() && std::find(el.begin(), el.end(), it->second) != el.end()) pick = it->second;
      else if (cur >= 0 && std::find(el.begin(), el.end(), cur) != el.end()) pick = cur;
      else pick = el[0];
    }
    g_decisions++; cur = pick;
    long v0 = g_version;
    if (T[pick].seen_version != g_version) { T[pick].seen_version = g_version; if (T[pick].quiet > 0) T[pick].quiet = 0; }
    __real_sem_post(&T[pick].go); while (__real_sem_wait(&g_ctl) != 0) {}
    written(pick);
    if (g_version != v0) { extra = 0; g_seenw.clear(); if (Q.kind == 3 && (int)(rng() % 100) < Q.param) T[cur].prio = -(long)g_decisions - 1; }
  }
}

static int child() {
  for (int i = 0; i < 64; i++) g_shm_fds[i] = -1;
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  stack_t ss; ss.ss_sp = malloc(1 << 20); ss.ss_size = 1 << 20; ss.ss_flags = 0; (void)ss;
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGFPE, &sa, 0);
  sem_init(&g_ctl, 0, 0);
  char path[64]; snprintf(path, sizeof path, "/tmp/pipe_in_%d", getpid());
  { int fd = memfd_create("in", 0); if (write(fd, "0123456789", 10)) {} snprintf(path, sizeof path, "/proc/self/fd/%d", fd); }
  long sv[7]; Probe::states(sv);
  logf_("{\"e\":\"states\",\"v\":[%ld,%ld,%ld,%ld,%ld,%ld,%ld]}", sv[0], sv[1], sv[2], sv[3], sv[4], sv[5], sv[6]);
  StreamParser parser; int pid = getpid();
  std::verif_atomic<int> counter(0);
  std::vector<BaseRunner *> rs;
  g_cur_runner = 0; Stage1Runner *s1 = new Stage1Runner(path, &parser, S.bank_bytes, S.B, S.dry, S.capture); rs.push_back(s1);
  g_main_off = g_snap_off = s1->get_sub_window_size();
  if (S.prefill) for (auto &m : g_maps) if (m.off == g_main_off) memset(m.p, 0xA5, S.bank_bytes * S.B); // stale page contents
  int nred = S.dry ? 0 : S.W;
#if PYCENTAURUS
  g_chan.resize(S.B); g_py.resize(S.W + 2); for (int i = 0; i < S.W + 2; i++) { g_py[i].runner = i; g_py[i].stage3 = i == S.W + 1; }
#endif
  for (int i = 1; i <= nred; i++) {
    g_cur_runner = i; Stage2Runner *r = new Stage2Runner(path, S.bank_bytes, S.B, pid, nullptr, S.counter ? &counter : nullptr);
    if (S.xfer) r->register_python_listener(on_red, on_xfer); else r->register_listener(on_red);
    rs.push_back(r);
  }
  if (!S.dry) {
    g_cur_runner = S.W + 1; Stage3Runner *r = new Stage3Runner(path, S.bank_bytes, S.B, pid, nullptr, S.counter ? &counter : nullptr);
    if (S.xfer) r->register_python_listener(on_red, on_xfer); else r->register_listener(on_red);
    rs.push_back(r);
  }
  if (S.touch) for (auto &m : g_maps) if (m.off == g_main_off) mprotect(m.p, S.bank_bytes * S.B, PROT_NONE);
  for (size_t i = 0; i < rs.size(); i++) { g_cur_runner = (int)i; rs[i]->start(); }
  g_active = true;
  int rc = control(path);
  if (rc) { std::string w; for (int i = 0; i < nT; i++) if (!T[i].done) { if (!w.empty()) w += ","; w += std::to_string(T[i].runner); }
    logf_("{\"e\":\"stuck\",\"why\":\"%s\",\"threads\":[%s]}", rc == 1 ? "no thread can progress" : "step limit", w.c_str()); logf_("{\"e\":\"meta\",\"decisions\":%ld,\"steps\":%ld}", g_decisions, g_steps); _exit(0); }
  g_active = false;
  for (auto r : rs) r->wait();
  if (S.capture) {
    const auto &ch = s1->result_chunks(); logf_("{\"e\":\"chunks\",\"n\":%zu}", (size_t)ch.size());
    for (size_t k = 0; k < ch.size(); k++) {
      std::string a; size_t n = ch[k].size(); const uint64_t *w = reinterpret_cast<const uint64_t *>(ch[k].begin());
      size_t last = n; while (last > 0 && w[last - 1] == 0) last--;
      for (size_t i = 0; i < last; i++) { CSTMarker m(w[i]); if (i) a += ","; char b[128]; snprintf(b, sizeof b, "[\"%s\",%d,\"%lu\"]", m.is_start_marker() ? "S" : m.is_end_marker() ? "E" : "?", m.get_machine_id(), (unsigned long)m.get_offset()); a += b; }
      logf_("{\"e\":\"chunk\",\"k\":%zu,\"size\":%zu,\"w\":[%s]}", k, n, a.c_str());
    }
  }
  if (!S.dry) logf_("{\"e\":\"counter\",\"n\":%d}", S.counter ? counter.load() : -1);
  logf_("{\"e\":\"end\"}"); logf_("{\"e\":\"meta\",\"decisions\":%ld,\"steps\":%ld}", g_decisions, g_steps);
  fflush(stdout); _exit(0);
}

static void run_one(long run) {
  g_log->len = 0; g_log->overflow = 0;
  fflush(stdout); pid_t pid = fork();
  if (pid == 0) { alarm(60); try { child(); } catch (std::exception &e) { logf_("{\"e\":\"crash\",\"why\":\"exception\"}"); } _exit(3); }
  int st; waitpid(pid, &st, 0);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) logf_("{\"e\":\"died\",\"st\":%d}", st);
  printf("{\"e\":\"run\",\"n\":%ld,\"kind\":%d,\"seed\":%lu,\"param\":%d,\"over\":[", run, Q.kind, (unsigned long)Q.seed, Q.param);
  bool f = true; for (auto &p : Q.overrides) { printf("%s[%ld,%d]", f ? "" : ",", p.first, p.second); f = false; }
  printf("],\"overflow\":%zu}\n", g_log->overflow);
  fwrite(g_log->data, 1, g_log->len, stdout);
}
static long last_decisions() {
  std::string s(g_log->data, g_log->len); size_t p = s.rfind("\"decisions\":"); return p == std::string::npos ? 0 : atol(s.c_str() + p + 12);
}

// Script on stdin:
//   scenario W B bytes dry capture touch xfer counter valseed zeropct prefill npages
//   page n  k id off  k id off ...
//   random count seed stick | pct count seed depth | pcs count seed percent | bound1 stride offset | bound2 count seed | over n (d t)...
int main() {
  g_logcap = 32 << 20;
  g_log = (SharedLog *)__real_mmap(0, sizeof(SharedLog) + g_logcap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string cmd; long run = 0; std::string scen;
  while (std::cin >> cmd) {
    if (cmd == "scenario") {
      S = Scenario(); int np; std::cin >> S.W >> S.B >> S.bank_bytes >> S.dry >> S.capture >> S.touch >> S.xfer >> S.counter >> S.valseed >> S.zeropct >> S.prefill >> np;
      for (int i = 0; i < np; i++) { std::string w; int n; std::cin >> w >> n; std::vector<Marker> pg; for (int j = 0; j < n; j++) { std::string k; Marker m; std::cin >> k >> m.id >> m.off; m.k = k[0]; pg.push_back(m); } S.pages.push_back(pg); }
      printf("{\"e\":\"scenario\"}\n");
    } else if (cmd == "random" || cmd == "pct" || cmd == "pcs") {
      long n, seed; int prm; std::cin >> n >> seed >> prm;
      for (long i = 0; i < n; i++) { Q = Sched(); Q.kind = cmd == "random" ? 1 : cmd == "pct" ? 2 : 3; Q.seed = seed + i; Q.param = prm; run_one(run++); }
    } else if (cmd == "bound1") {     // every single preemption of the default schedule
      long stride, offset; std::cin >> stride >> offset;
      Q = Sched(); run_one(run++); long d = last_decisions(); int nt = S.dry ? 1 : S.W + 2;
      for (long i = offset; i < d; i += stride) for (int t = 0; t < nt; t++) { Q = Sched(); Q.overrides[i] = t; run_one(run++); }
    } else if (cmd == "bound2") {     // random pairs and triples of preemptions
      long n, seed; std::cin >> n >> seed; std::mt19937_64 rng(seed);
      Q = Sched(); run_one(run++); long d = std::max(1L, last_decisions()); int nt = S.dry ? 1 : S.W + 2;
      for (long i = 0; i < n; i++) { Q = Sched(); int k = 2 + rng() % 3; for (int j = 0; j < k; j++) Q.overrides[rng() % d] = rng() % nt; run_one(run++); }
    } else if (cmd == "over") {
      int n; std::cin >> n; Q = Sched(); for (int i = 0; i < n; i++) { long d; int t; std::cin >> d >> t; Q.overrides[d] = t; } run_one(run++);
    } else { fprintf(stderr, "bad command %s\n", cmd.c_str()); return 2; }
  }
  return 0;
}
