// Native counterpart of the harness API: replays one concrete path.  The
// concrete inputs (and schedule) come from the file named by SX_INPUTS, one
// "name hexbytes" per line in the order the engine created them.  This file is
// compiled without sanitizer instrumentation so that the scheduler's own
// synchronisation is invisible to ThreadSanitizer.
#include "../harness/sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <string>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *)) __attribute__((weak));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *p) __attribute__((weak));
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t *);
extern "C" int __real_pthread_mutex_trylock(pthread_mutex_t *);
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t *);

namespace {
struct Rec { std::string name, data; };
std::vector<Rec> *recs;
size_t nextRec;
FILE *obs;
bool internal_ = false; // no counting while the runtime itself allocates
long liveN, liveB;
struct Busy { bool s; Busy() : s(internal_) { internal_ = true; } ~Busy() { internal_ = s; } };

[[noreturn]] void stop(int rc, const char *what, const char *arg) {
  internal_ = true;
  if (obs) { fprintf(obs, "END %s %s\n", what, arg); fflush(obs); }
  fprintf(stderr, "%s: %s\n", what, arg);
  fflush(stderr);
  _exit(rc);
}
// blocks that existed when the first thread was created (SX_ATOMICS only)
bool atomics = false, frozen = false;
std::map<uintptr_t, size_t> *live;
void hookMalloc(const volatile void *p, size_t n) {
  if (internal_) return;
  liveN++;
  liveB += n;
  if (atomics && !frozen) { Busy b; (*live)[(uintptr_t)p] = n; }
}
void hookFree(const volatile void *p) {
  if (!internal_ && p && atomics) { Busy b; live->erase((uintptr_t)p); }
  if (!internal_ && p) { liveN--; if (__sanitizer_get_allocated_size) liveB -= __sanitizer_get_allocated_size(p); }
}
__attribute__((constructor(200))) void init() {
  internal_ = true;
  recs = new std::vector<Rec>();
  live = new std::map<uintptr_t, size_t>();
  atomics = getenv("SX_ATOMICS") != nullptr;
  if (const char *f = getenv("SX_INPUTS")) {
    FILE *in = fopen(f, "r");
    if (!in) { perror(f); _exit(90); }
    char *line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, in) > 0) {
      char *sp = strchr(line, ' ');
      if (!sp) continue;
      Rec r;
      r.name.assign(line, sp);
      for (char *p = sp + 1; p[0] && p[1] && p[0] != '\n'; p += 2) { unsigned v; sscanf(p, "%2x", &v); r.data += (char)v; }
      recs->push_back(r);
    }
    free(line);
    fclose(in);
  }
  if (const char *f = getenv("SX_OBS")) obs = fopen(f, "w");
  if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(hookMalloc, hookFree);
  internal_ = false;
}
const Rec &take(const char *name, size_t n) {
  if (nextRec >= recs->size()) stop(87, "SX-PAST-END", name);
  const Rec &r = (*recs)[nextRec++];
  if (r.name != name || r.data.size() != n) stop(88, "SX-INPUT-MISMATCH", name);
  return r;
}

// ---- deterministic scheduler: one thread holds the token
enum St { Run, BlockedMutex, BlockedJoin, Done };
struct Th { St st = Run; pthread_mutex_t *m = nullptr; int join = 0; volatile int go = 0; pthread_t h; void (*f)(void *); void *a; bool schedDone = false; };
Th th[8];
int nth = 1;
__thread int me __attribute__((tls_model("initial-exec"))) = 0;
struct Mx { pthread_mutex_t *m; int owner, count; };
Mx mx[4096];
int nmx;
int preemptLeft;
bool active = false;
Mx &mxOf(pthread_mutex_t *m) {
  for (int i = 0; i < nmx; i++) if (mx[i].m == m) return mx[i];
  if (nmx >= 4096) stop(91, "SX-INTERNAL", "mutex table");
  mx[nmx] = {m, -1, 0};
  return mx[nmx++];
}
void fwait(volatile int *w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT, 0, nullptr, nullptr, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
void fwake(volatile int *w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, w, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}
unsigned choose(unsigned n) {
  if (n <= 1) return 0;
  const Rec &r = take("sched", 1);
  unsigned v = (unsigned char)r.data[0];
  return v < n ? v : n - 1;
}
void switchTo(int t) {
  if (t == me) return;
  int self = me;
  fwake(&th[t].go);
  if (th[self].st != Done) fwait(&th[self].go);
}
void schedBlocked() {
  int c[8], n = 0;
  for (int i = 0; i < nth; i++) if (th[i].st == Run) c[n++] = i;
  if (!n) stop(86, "SX-DEADLOCK", "no thread can run");
  switchTo(c[choose(n)]);
}
// choices are made when the operation is first attempted
void schedPoint() {
  Th &t = th[me];
  if (nth < 2 || t.schedDone) return;
  int c[8], n = 0;
  c[n++] = me;
  if (preemptLeft > 0) for (int i = 0; i < nth; i++) if (i != me && th[i].st == Run) c[n++] = i;
  unsigned k = choose(n);
  t.schedDone = true;
  if (k) { preemptLeft--; switchTo(c[k]); }
}
void *tmain(void *p) {
  Th *t = (Th *)p;
  me = t - th;
  fwait(&t->go);
  t->f(t->a);
  return nullptr;
}
// runs after the thread_local destructors of the harness thread
pthread_key_t endKey;
void threadEnd(void *p) {
  Th *t = (Th *)p;
  t->st = Done;
  for (int i = 0; i < nth; i++) if (th[i].st == BlockedJoin && &th[th[i].join] == t) th[i].st = Run;
  int c[8], n = 0;
  for (int i = 0; i < nth; i++) if (th[i].st == Run) c[n++] = i;
  if (!n) stop(86, "SX-DEADLOCK", "no thread can run");
  fwake(&th[c[choose(n)]].go);
}

} // namespace

extern "C" {
void *__sx_tstart(void *p) {
  pthread_setspecific(endKey, p);
  return tmain(p);
}
void sx_symbolic(void *p, size_t n, const char *name) { Busy b; memcpy(p, take(name, n).data.data(), n); }
void sx_assume(int c) { if (!c) stop(89, "SX-ASSUME-FALSE", ""); }
void sx_assert_(int c, const char *m) { if (!c) stop(86, "SX-ASSERT-FAILED", m); }
void sx_fail(const char *m) { stop(86, "SX-ASSERT-FAILED", m); }
void sx_reach(const char *) {}
void sx_observe(const char *name, const void *p, size_t n) {
  if (!obs) return;
  Busy b;
  fprintf(obs, "OBS %s ", name);
  for (size_t i = 0; i < n; i++) fprintf(obs, "%02x", ((const unsigned char *)p)[i]);
  fprintf(obs, "\n");
}
int sx_param(const char *name, int d) {
  std::string k;
  { Busy b; k = std::string("SX_PARAM_") + name; }
  const char *v = getenv(k.c_str());
  int r = v ? atoi(v) : d;
  { Busy b; std::string().swap(k); }
  return r;
}
unsigned sx_choose(unsigned n, const char *name) {
  if (n <= 1) return 0;
  Busy b;
  return (unsigned char)take(name, 1).data[0];
}
uint64_t sx_concretize(uint64_t v) { return v; }
size_t sx_heap_count() { return liveN; }
size_t sx_heap_bytes() { return liveB; }
int sx_is_native() { return 1; }
void sx_debug(const char *n, uint64_t v) { fprintf(stderr, "[debug] %s = %lx\n", n, v); }
void sx_run_thread_exit() {}

int sx_thread_create(void (*f)(void *), void *a) {
  Busy b;
  if (nth == 1) {
    const char *p = getenv("SX_PREEMPT");
    preemptLeft = p ? atoi(p) : 2;
    pthread_key_create(&endKey, threadEnd);
    frozen = true;
  }
  int t = nth++;
  th[t].f = f;
  th[t].a = a;
  if (pthread_create(&th[t].h, nullptr, __sx_tstart, &th[t])) stop(91, "SX-INTERNAL", "pthread_create");
  return t;
}
void sx_thread_join(int t) {
  if (th[t].st != Done) {
    th[me].st = BlockedJoin;
    th[me].join = t;
    schedBlocked();
  }
  Busy b;
  pthread_join(th[t].h, nullptr);
}
void sx_yield() { schedPoint(); th[me].schedDone = false; }

// read-modify-write operations on blocks older than the threads are scheduling points
static void atomicPoint(const volatile void *p) {
  if (!atomics || nth < 2 || internal_) return;
  auto it = live->upper_bound((uintptr_t)p);
  if (it == live->begin()) return;
  --it;
  if ((uintptr_t)p >= it->first + it->second) return;
  schedPoint();
  th[me].schedDone = false;
}
#define RMW(W, T, N)                                                                                                                                  \
  T __real___tsan_atomic##W##_##N(volatile T *, T, int) __attribute__((weak));                                                                        \
  T __wrap___tsan_atomic##W##_##N(volatile T *p, T v, int mo) { atomicPoint(p); return __real___tsan_atomic##W##_##N(p, v, mo); }
#define CAS(W, T)                                                                                                                                     \
  T __real___tsan_atomic##W##_compare_exchange_val(volatile T *, T, T, int, int) __attribute__((weak));                                               \
  T __wrap___tsan_atomic##W##_compare_exchange_val(volatile T *p, T c, T v, int mo, int f) { atomicPoint(p); return __real___tsan_atomic##W##_compare_exchange_val(p, c, v, mo, f); }
#define ALL(W, T) RMW(W, T, exchange) RMW(W, T, fetch_add) RMW(W, T, fetch_sub) RMW(W, T, fetch_and) RMW(W, T, fetch_or) RMW(W, T, fetch_xor) CAS(W, T)
ALL(8, unsigned char)
ALL(16, unsigned short)
ALL(32, unsigned)
ALL(64, unsigned long)

int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  schedPoint();
  Mx &x = mxOf(m);
  bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  while (x.owner >= 0 && x.owner != me) {
    th[me].st = BlockedMutex;
    th[me].m = m;
    schedBlocked();
  }
  if (x.owner == me && !rec) stop(86, "SX-DEADLOCK", "thread locks a non-recursive mutex it already holds");
  th[me].schedDone = false;
  x.owner = me;
  x.count++;
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  schedPoint();
  th[me].schedDone = false;
  Mx &x = mxOf(m);
  bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  if (x.owner >= 0 && (x.owner != me || !rec)) return 16;
  x.owner = me;
  x.count++;
  return __real_pthread_mutex_trylock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  schedPoint();
  th[me].schedDone = false;
  Mx &x = mxOf(m);
  bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  if (x.owner != me) {
    if (rec) return 1;
    stop(86, "SX-UNLOCK", "unlock of a mutex not held by this thread");
  }
  if (--x.count == 0) {
    x.owner = -1;
    for (int i = 0; i < nth; i++) if (th[i].st == BlockedMutex && th[i].m == m) th[i].st = Run;
  }
  return __real_pthread_mutex_unlock(m);
}
}

// main of the harness is renamed; a normal return is a completed path
int sx_harness_main();
int main() {
  int rc = sx_harness_main();
  (void)rc;
  stop(nextRec == recs->size() ? 0 : 85, nextRec == recs->size() ? "SX-DONE" : "SX-UNUSED-INPUTS", "");
}
