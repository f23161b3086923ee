// Runtime of the "sched" variant.
//
// The extension is compiled by clang with -fsanitize=thread, which turns every
// memory access and every atomic operation into a call; this file is what is
// called (LLVM's own ThreadSanitizer runtime is not linked).  Together with the
// wrapped pthread, futex and allocation functions (ld --wrap; libstdc++ is linked
// statically so that its calls are wrapped too) it gives
//   * a controlled scheduler: exactly one thread runs; before every
//     synchronization operation (atomic access, lock, thread creation, exit,
//     join, futex) the thread to go on is chosen by the driver,
//   * a happens-before data-race detector over every byte accessed,
//   * failure injection into thread creation.
// While no exploration is active every function is the ordinary one.
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <unordered_map>
#include <vector>

#define API extern "C" __attribute__((visibility("default")))
#define TS extern "C"

extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const timespec *);
int __real_pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_pthread_once(pthread_once_t *, void (*)());
int __real_sched_yield();
int __real_nanosleep(const timespec *, timespec *);
int __real_clock_nanosleep(clockid_t, int, const timespec *, timespec *);
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void __real_free(void *);
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
}

namespace {
constexpr int MAXT = 32;
constexpr int MAX_STEPS = 200000;

enum Kind : int {
  K_NONE = 0,
  K_LOAD,    // atomic read
  K_STORE,   // atomic write
  K_RMW,     // atomic read-modify-write, futex operations
  K_LOCK,    // enabled when free
  K_UNLOCK,
  K_CREATE,
  K_EXIT,    // obj = thread
  K_JOIN,    // obj = thread, enabled when it has exited
  K_START,   // first step of a thread
  K_WAKE,    // return from a futex or condition wait
};

typedef uint32_t Clock;
struct VC {
  Clock c[MAXT];
  VC() { memset(c, 0, sizeof c); }
  void join(const VC &o) {
    for (int i = 0; i < MAXT; i++)
      if (o.c[i] > c[i])
        c[i] = o.c[i];
  }
};

struct Op {
  int kind;
  uintptr_t obj;
};

struct Thr {
  int id;
  sem_t baton;
  bool done = false, waiting = false; // waiting: blocked in a futex/cond wait
  bool joined = false, detached = false;
  uintptr_t wait_on = 0;
  Op pending{K_NONE, 0};
  VC vc;
  pthread_t real{};
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
  void *ret = nullptr;
  bool alloc_guard = false;
};

struct Step { // one executed operation
  int tid, kind;
  uint64_t obj;
  uint64_t enabled; // bit mask, before the step
  uint64_t sleep;   // bit mask, before the step
  int pend_kind[MAXT];
  uint64_t pend_obj[MAXT];
  uint64_t phase; // number of times all created threads had been joined
};

bool active = false;
__thread Thr *self = nullptr;
std::vector<Thr *> thr;
std::vector<Step> trace;
std::vector<int> prefix;
uint64_t sleepset = 0;
bool redundant = false, diverged = false;
int n_created = 0, n_ended = 0, fail_at = 0, failed = 0; // ended = joined or (exited and detached)
std::unordered_map<uintptr_t, VC> sync_vc;
std::unordered_map<uintptr_t, int> lock_owner; // address -> thread
std::unordered_map<uintptr_t, int> lock_depth;
std::unordered_map<uintptr_t, std::vector<int>> waiters;
int in_rt = 0;
uint64_t phase = 0;

// ---------------------------------------------------------------- shadow
struct Cell {
  uint32_t w, r; // epoch: thread << 24 | clock; r with top bit pattern 0xff: index of a read set
};
struct Page {
  Cell c[4096];
};
std::unordered_map<uintptr_t, Page *> pages;
uintptr_t last_no = ~(uintptr_t)0;
Page *last_page = nullptr;
std::vector<VC> readsets;
struct Race {
  uint64_t addr, pc, other_pc;
  int a, b, wa, wb, size;
};
std::vector<Race> races;
long n_access = 0;

Page *page_of(uintptr_t a, bool make) {
  uintptr_t no = a >> 12;
  if (no == last_no)
    return last_page;
  auto it = pages.find(no);
  if (it == pages.end()) {
    if (!make)
      return nullptr;
    Page *p = (Page *)__real_calloc(1, sizeof(Page));
    pages[no] = p;
    last_no = no;
    return last_page = p;
  }
  last_no = no;
  return last_page = it->second;
}

void clear_all() {
  for (auto &p : pages)
    __real_free(p.second);
  pages.clear();
  readsets.clear();
  last_no = ~(uintptr_t)0;
  last_page = nullptr;
}

void clear_range(uintptr_t a, size_t n) {
  if (pages.empty())
    return;
  uintptr_t e = a + n;
  while (a < e) {
    uintptr_t pe = (a | 4095) + 1;
    uintptr_t stop = pe < e ? pe : e;
    auto it = pages.find(a >> 12);
    if (it != pages.end())
      memset(&it->second->c[a & 4095], 0, (stop - a) * sizeof(Cell));
    a = stop;
  }
}

inline uint32_t epoch(Thr *t) { return ((uint32_t)t->id << 24) | (t->vc.c[t->id] & 0xffffff); }
inline bool hb(uint32_t e, Thr *t) { return (e & 0xffffff) <= t->vc.c[e >> 24]; }

void race(uintptr_t a, int size, uint32_t e, bool wother, bool wme, void *pc) {
  if (races.size() < 16)
    races.push_back({(uint64_t)a, (uint64_t)pc, 0, (int)(e >> 24), self->id, wother, wme, size});
}

void access(uintptr_t a, int size, bool write, void *pc) {
  if (!active || !self || in_rt || n_created == n_ended)
    return;
  in_rt = 1;
  n_access++;
  uint32_t me = epoch(self);
  bool reported = false;
  for (int i = 0; i < size; i++, a++) {
    Cell &c = page_of(a, true)->c[a & 4095];
    if (c.w && (c.w >> 24) != (uint32_t)self->id && !hb(c.w, self) && !reported) {
      race(a, size, c.w, true, write, pc);
      reported = true;
    }
    if (write) {
      if (c.r) {
        if ((c.r >> 24) == 0xff) {
          VC &v = readsets[c.r & 0xffffff];
          for (int t = 0; t < (int)thr.size(); t++)
            if (t != self->id && v.c[t] > self->vc.c[t] && !reported) {
              race(a, size, ((uint32_t)t << 24) | v.c[t], false, true, pc);
              reported = true;
            }
        } else if ((c.r >> 24) != (uint32_t)self->id && !hb(c.r, self) && !reported) {
          race(a, size, c.r, false, true, pc);
          reported = true;
        }
        c.r = 0;
      }
      c.w = me;
    } else {
      if (!c.r || hb(c.r, self) * ((c.r >> 24) != 0xff))
        c.r = me;
      else if ((c.r >> 24) == 0xff)
        readsets[c.r & 0xffffff].c[self->id] = self->vc.c[self->id];
      else {
        VC v;
        v.c[c.r >> 24] = c.r & 0xffffff;
        v.c[self->id] = self->vc.c[self->id];
        readsets.push_back(v);
        c.r = 0xff000000u | (uint32_t)(readsets.size() - 1);
      }
    }
  }
  in_rt = 0;
}

// ------------------------------------------------------------- scheduler
bool op_enabled(Thr *t) {
  if (t->done || t->waiting)
    return false;
  switch (t->pending.kind) {
  case K_LOCK: {
    auto it = lock_owner.find(t->pending.obj);
    return it == lock_owner.end() || it->second < 0 || it->second == t->id;
  }
  case K_JOIN:
    return thr[t->pending.obj]->done;
  default:
    return true;
  }
}

bool dependent(const Op &a, const Op &b) {
  if (a.kind == K_CREATE && b.kind == K_CREATE)
    return true;
  if ((a.kind == K_EXIT && b.kind == K_JOIN) || (a.kind == K_JOIN && b.kind == K_EXIT))
    return a.obj == b.obj;
  auto mem = [](int k) { return k >= K_LOAD && k <= K_UNLOCK; };
  if (mem(a.kind) && mem(b.kind))
    return a.obj == b.obj && !(a.kind == K_LOAD && b.kind == K_LOAD);
  return false;
}

[[noreturn]] void die(const char *what) {
  fprintf(stderr, "vf_rt: %s (steps %zu, threads %zu)\n", what, trace.size(), thr.size());
  for (auto t : thr)
    fprintf(stderr, "  thread %d done=%d waiting=%d pending=%d\n", t->id, t->done, t->waiting, t->pending.kind);
  abort();
}

// chooses who executes next; returns when `self` is chosen (or has ended)
void schedule(bool ending) {
  in_rt = 1;
  uint64_t en = 0;
  for (auto t : thr)
    if (op_enabled(t))
      en |= 1ull << t->id;
  if (!en) {
    bool all = true;
    for (auto t : thr)
      all = all && t->done;
    if (all) {
      in_rt = 0;
      return;
    }
    die("deadlock");
  }
  if (trace.size() > MAX_STEPS)
    die("no progress");
  int next = -1;
  size_t pos = trace.size();
  if (pos < prefix.size()) {
    next = prefix[pos];
    if (next < 0 || next >= (int)thr.size() || !(en >> next & 1)) {
      diverged = true;
      prefix.clear();
      next = -1;
    }
  }
  if (next < 0) {
    uint64_t cand = en & ~sleepset;
    if (!cand) {
      redundant = true;
      sleepset = 0;
      cand = en;
    }
    if (!ending && (cand >> self->id & 1) && (trace.size() % 512 != 511))
      next = self->id;
    else
      next = __builtin_ctzll(cand);
    if (trace.size() > 5000 && cand) { // spinning threads: go round
      int r = trace.size() % 64;
      uint64_t hi = cand >> r << r;
      next = __builtin_ctzll(hi ? hi : cand);
    }
  }
  Step s;
  memset(&s, 0, sizeof s);
  s.tid = next;
  s.kind = thr[next]->pending.kind;
  s.obj = thr[next]->pending.obj;
  s.enabled = en;
  s.sleep = pos < prefix.size() ? 0 : sleepset;
  for (auto t : thr) {
    s.pend_kind[t->id] = t->pending.kind;
    s.pend_obj[t->id] = t->pending.obj;
  }
  s.phase = phase;
  trace.push_back(s);
  if (pos >= prefix.size())
    for (auto t : thr)
      if ((sleepset >> t->id & 1) && (t->id == next || dependent(t->pending, thr[next]->pending)))
        sleepset &= ~(1ull << t->id);
  Thr *me = self;
  if (next != me->id) {
    in_rt = 0;
    sem_post(&thr[next]->baton);
    if (ending)
      return; // nothing shared may be touched from here on
    while (sem_wait(&me->baton) != 0)
      ;
  }
  in_rt = 0;
}

bool controlled() { return active && self && !in_rt; }

void point(int kind, uintptr_t obj) {
  if (n_created == n_ended)
    return; // single-threaded: nothing to choose
  self->pending = {kind, obj};
  schedule(false);
}

void acquire(uintptr_t a) {
  auto it = sync_vc.find(a);
  if (it != sync_vc.end())
    self->vc.join(it->second);
}
void release(uintptr_t a) {
  sync_vc[a].join(self->vc);
  self->vc.c[self->id]++;
}
void release_store(uintptr_t a) {
  sync_vc[a] = self->vc;
  self->vc.c[self->id]++;
}

struct RT {
  int old;
  RT() : old(in_rt) { in_rt = 1; }
  ~RT() { in_rt = old; }
};

void *trampoline(void *p) {
  Thr *t = (Thr *)p;
  self = t;
  while (sem_wait(&t->baton) != 0)
    ;
  {
    RT g;
    pthread_attr_t at;
    if (!pthread_getattr_np(pthread_self(), &at)) {
      void *b;
      size_t n;
      pthread_attr_getstack(&at, &b, &n);
      pthread_attr_destroy(&at);
      clear_range((uintptr_t)b, n);
    }
    uintptr_t tp = (uintptr_t)__builtin_thread_pointer();
    clear_range(tp - 65536, 65536 + 4096);
  }
  t->ret = t->fn(t->arg);
  t->pending = {K_EXIT, (uintptr_t)t->id};
  schedule(false); // the exit itself is a step
  {
    RT g;
    t->done = true;
    release(0x1000000 + t->id);
    if (t->detached)
      n_ended++;
  }
  schedule(true);
  self = nullptr;
  return t->ret;
}
} // namespace

// ------------------------------------------------------------ driver API
API void vf_begin(const int *pre, int n, uint64_t sleep, int fail) {
  for (auto t : thr) {
    sem_destroy(&t->baton);
    delete t;
  }
  thr.clear();
  trace.clear();
  prefix.assign(pre, pre + n);
  sleepset = sleep;
  redundant = diverged = false;
  n_created = n_ended = 0;
  fail_at = fail;
  failed = 0;
  sync_vc.clear();
  lock_owner.clear();
  lock_depth.clear();
  waiters.clear();
  clear_all();
  races.clear();
  n_access = 0;
  phase = 0;
  Thr *t = new Thr;
  t->id = 0;
  sem_init(&t->baton, 0, 0);
  t->vc.c[0] = 1;
  thr.push_back(t);
  self = t;
  active = true;
}

// number of steps; threads that never ended are reported as -1
API int vf_end() {
  // let unjoined threads finish
  if (n_created != n_ended) {
    bool left = false;
    for (auto t : thr)
      if (t->id && !t->done)
        left = true;
    if (left) {
      active = false;
      return -1;
    }
  }
  active = false;
  return (int)trace.size();
}
API const void *vf_trace() { return trace.data(); }
API int vf_step_size() { return sizeof(Step); }
API int vf_flags() { return (redundant ? 1 : 0) | (diverged ? 2 : 0); }
API int vf_threads() { return (int)thr.size(); }
API int vf_failed() { return failed; }
API long vf_accesses() { return n_access; }
API int vf_races() { return (int)races.size(); }
API const void *vf_race() { return races.data(); }
API void vf_abandon() {
  active = false;
  self = nullptr;
}
API const void *vf_base() {
  Dl_info i;
  dladdr((void *)&vf_begin, &i);
  return i.dli_fbase;
}

// ---------------------------------------------------------------- pthread
TS int __wrap_pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!controlled())
    return __real_pthread_create(th, at, fn, arg);
  int no = n_created + failed + 1;
  if (fail_at > 0 ? no >= fail_at : no == -fail_at) { // from the k-th on, or only the k-th
    failed++;
    return EAGAIN;
  }
  if ((int)thr.size() >= MAXT)
    die("too many threads");
  if (n_created != n_ended)
    point(K_CREATE, 0);
  RT g;
  Thr *t = new Thr;
  t->id = (int)thr.size();
  sem_init(&t->baton, 0, 0);
  t->fn = fn;
  t->arg = arg;
  t->vc = self->vc;
  t->vc.c[t->id] = 1;
  self->vc.c[self->id]++;
  t->pending = {K_START, 0};
  n_created++;
  int r = __real_pthread_create(&t->real, at, trampoline, t);
  if (r)
    die("cannot create a thread");
  *th = t->real;
  thr.push_back(t);
  return 0;
}

static Thr *find(pthread_t p) {
  for (auto t : thr)
    if (t->id && !t->joined && pthread_equal(t->real, p))
      return t;
  return nullptr;
}

TS int __wrap_pthread_join(pthread_t p, void **ret) {
  if (!controlled())
    return __real_pthread_join(p, ret);
  Thr *t = find(p);
  if (!t)
    return __real_pthread_join(p, ret);
  self->pending = {K_JOIN, (uintptr_t)t->id};
  schedule(false);
  RT g;
  t->joined = true;
  n_ended++;
  acquire(0x1000000 + t->id);
  int r = __real_pthread_join(p, nullptr);
  if (ret)
    *ret = t->ret;
  if (n_created == n_ended) {
    clear_all();
    phase++;
  }
  return r;
}

TS int __wrap_pthread_detach(pthread_t p) {
  if (controlled()) {
    Thr *t = find(p);
    if (t) {
      t->detached = true;
      if (t->done)
        n_ended++;
    }
  }
  return __real_pthread_detach(p);
}

static void lock(uintptr_t m) {
  point(K_LOCK, m);
  RT g;
  lock_owner[m] = self->id;
  lock_depth[m]++;
  acquire(m);
}
static void unlock(uintptr_t m) {
  point(K_UNLOCK, m);
  RT g;
  if (--lock_depth[m] <= 0) {
    lock_owner[m] = -1;
    lock_depth[m] = 0;
  }
  release(m);
}

TS int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!controlled())
    return __real_pthread_mutex_lock(m);
  auto it = lock_owner.find((uintptr_t)m);
  if (it != lock_owner.end() && it->second == self->id && m->__data.__kind != PTHREAD_MUTEX_RECURSIVE_NP)
    die("deadlock: a thread locks its own mutex again");
  lock((uintptr_t)m);
  return 0;
}
TS int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!controlled())
    return __real_pthread_mutex_trylock(m);
  point(K_RMW, (uintptr_t)m);
  RT g;
  auto it = lock_owner.find((uintptr_t)m);
  if (it != lock_owner.end() && it->second >= 0 && it->second != self->id)
    return EBUSY;
  lock_owner[(uintptr_t)m] = self->id;
  lock_depth[(uintptr_t)m]++;
  acquire((uintptr_t)m);
  return 0;
}
TS int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!controlled())
    return __real_pthread_mutex_unlock(m);
  unlock((uintptr_t)m);
  return 0;
}
TS int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (!controlled())
    return __real_pthread_rwlock_rdlock(m);
  lock((uintptr_t)m);
  return 0;
}
TS int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if (!controlled())
    return __real_pthread_rwlock_wrlock(m);
  lock((uintptr_t)m);
  return 0;
}
TS int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) {
  if (!controlled())
    return __real_pthread_rwlock_unlock(m);
  unlock((uintptr_t)m);
  return 0;
}

static void block_on(uintptr_t a) {
  {
    RT g;
    waiters[a].push_back(self->id);
    self->waiting = true;
    self->pending = {K_WAKE, a};
  }
  schedule(false);
  // chosen again: somebody woke us, and the wake-up step is in the trace
  RT g;
  acquire(a ^ 0x5a5a000000000000ull);
}
static int wake(uintptr_t a, int n) {
  RT g;
  auto &w = waiters[a];
  int k = 0;
  while (k < n && !w.empty()) {
    thr[w.front()]->waiting = false;
    w.erase(w.begin());
    k++;
  }
  release(a ^ 0x5a5a000000000000ull);
  return k;
}

TS int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!controlled())
    return __real_pthread_cond_wait(c, m);
  // registered as a waiter before the mutex is released: whoever takes the
  // mutex afterwards finds the waiter
  point(K_RMW, (uintptr_t)c);
  {
    RT g;
    waiters[(uintptr_t)c].push_back(self->id);
  }
  unlock((uintptr_t)m);
  bool woken = true;
  {
    RT g;
    for (int t : waiters[(uintptr_t)c])
      woken = woken && t != self->id;
    if (!woken)
      self->waiting = true;
    self->pending = {K_WAKE, (uintptr_t)c};
  }
  schedule(false);
  {
    RT g;
    acquire((uintptr_t)c ^ 0x5a5a000000000000ull);
  }
  lock((uintptr_t)m);
  return 0;
}
TS int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) {
  if (!controlled())
    return __real_pthread_cond_timedwait(c, m, t);
  unlock((uintptr_t)m);
  lock((uintptr_t)m);
  return ETIMEDOUT;
}
TS int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t) {
  if (!controlled())
    return __real_pthread_cond_clockwait(c, m, k, t);
  unlock((uintptr_t)m);
  lock((uintptr_t)m);
  return ETIMEDOUT;
}
TS int __wrap_pthread_cond_signal(pthread_cond_t *c) {
  if (!controlled())
    return __real_pthread_cond_signal(c);
  point(K_RMW, (uintptr_t)c);
  wake((uintptr_t)c, 1);
  return 0;
}
TS int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
  if (!controlled())
    return __real_pthread_cond_broadcast(c);
  point(K_RMW, (uintptr_t)c);
  wake((uintptr_t)c, 1 << 30);
  return 0;
}
TS int __wrap_pthread_once(pthread_once_t *o, void (*f)()) {
  if (!controlled())
    return __real_pthread_once(o, f);
  uintptr_t a = (uintptr_t)o;
  // mark a finished initialization the way glibc does, so that later
  // uncontrolled calls agree
  lock(a);
  if (*(volatile int *)o != 2) {
    try {
      f();
    } catch (...) {
      unlock(a);
      throw;
    }
    *(volatile int *)o = 2;
  }
  unlock(a);
  return 0;
}
TS int __wrap___cxa_guard_acquire(uint64_t *g) {
  if (!controlled())
    return __real___cxa_guard_acquire(g);
  if (*(volatile char *)g) {
    acquire((uintptr_t)g);
    return 0;
  }
  lock((uintptr_t)g ^ 0x3300000000000000ull);
  if (*(volatile char *)g) {
    acquire((uintptr_t)g);
    unlock((uintptr_t)g ^ 0x3300000000000000ull);
    return 0;
  }
  return 1;
}
TS void __wrap___cxa_guard_release(uint64_t *g) {
  if (!controlled()) {
    __real___cxa_guard_release(g);
    return;
  }
  *(volatile char *)g = 1;
  release((uintptr_t)g);
  unlock((uintptr_t)g ^ 0x3300000000000000ull);
}
TS int __wrap_sched_yield() {
  if (!controlled())
    return __real_sched_yield();
  point(K_RMW, 1);
  return 0;
}
TS int __wrap_nanosleep(const timespec *a, timespec *b) {
  if (!controlled())
    return __real_nanosleep(a, b);
  point(K_RMW, 1);
  return 0;
}
TS int __wrap_clock_nanosleep(clockid_t c, int f, const timespec *a, timespec *b) {
  if (!controlled())
    return __real_clock_nanosleep(c, f, a, b);
  point(K_RMW, 1);
  return 0;
}
extern "C" long __real_syscall(long, ...);
TS long __wrap_syscall(long no, ...) {
  va_list ap;
  va_start(ap, no);
  long a[6];
  for (int i = 0; i < 6; i++)
    a[i] = va_arg(ap, long);
  va_end(ap);
  if (no == SYS_futex && controlled()) {
    int op = a[1] & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      point(K_RMW, (uintptr_t)a[0]);
      if (*(volatile int *)a[0] != (int)a[2]) {
        errno = EAGAIN;
        return -1;
      }
      if (a[3]) { // with a timeout: time passes at once
        errno = ETIMEDOUT;
        return -1;
      }
      block_on((uintptr_t)a[0]);
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      point(K_RMW, (uintptr_t)a[0]);
      return wake((uintptr_t)a[0], (int)a[2]);
    }
  }
  return __real_syscall(no, a[0], a[1], a[2], a[3], a[4], a[5]);
}

// -------------------------------------------------------------- allocation
static void fresh(void *p, size_t n) {
  if (active && self && !in_rt && p) {
    RT g;
    clear_range((uintptr_t)p, n);
  }
}
#include <malloc.h>
TS void *__wrap_malloc(size_t n) {
  void *p = __real_malloc(n);
  fresh(p, n);
  return p;
}
TS void *__wrap_calloc(size_t a, size_t b) {
  void *p = __real_calloc(a, b);
  fresh(p, a * b);
  return p;
}
TS void *__wrap_realloc(void *q, size_t n) {
  if (q && active && self && !in_rt)
    fresh(q, malloc_usable_size(q));
  void *p = __real_realloc(q, n);
  fresh(p, n);
  return p;
}
TS void *__wrap_aligned_alloc(size_t a, size_t n) {
  void *p = __real_aligned_alloc(a, n);
  fresh(p, n);
  return p;
}
TS int __wrap_posix_memalign(void **o, size_t a, size_t n) {
  int r = __real_posix_memalign(o, a, n);
  if (!r)
    fresh(*o, n);
  return r;
}
TS void __wrap_free(void *p) {
  // freeing is a write to the whole block: a use by another thread that is
  // not ordered before it is a race
  if (p && active && self && !in_rt && n_created != n_ended) {
    access((uintptr_t)p, (int)malloc_usable_size(p), true, __builtin_return_address(0));
    fresh(p, malloc_usable_size(p));
  }
  __real_free(p);
}

// -------------------------------------------------------- instrumentation
TS void __tsan_init() {}
TS void __tsan_func_entry(void *) {}
TS void __tsan_func_exit() {}
TS void __tsan_ignore_thread_begin() {}
TS void __tsan_ignore_thread_end() {}
#define RW(n)                                                                                       \
  TS void __tsan_read##n(void *a) { access((uintptr_t)a, n, false, __builtin_return_address(0)); }  \
  TS void __tsan_write##n(void *a) { access((uintptr_t)a, n, true, __builtin_return_address(0)); }  \
  TS void __tsan_read_write##n(void *a) { access((uintptr_t)a, n, true, __builtin_return_address(0)); } \
  TS void __tsan_unaligned_read##n(void *a) { access((uintptr_t)a, n, false, __builtin_return_address(0)); } \
  TS void __tsan_unaligned_write##n(void *a) { access((uintptr_t)a, n, true, __builtin_return_address(0)); } \
  TS void __tsan_unaligned_read_write##n(void *a) { access((uintptr_t)a, n, true, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
TS void __tsan_read_range(void *a, size_t n) { access((uintptr_t)a, (int)n, false, __builtin_return_address(0)); }
TS void __tsan_write_range(void *a, size_t n) { access((uintptr_t)a, (int)n, true, __builtin_return_address(0)); }
TS void __tsan_vptr_read(void **a) { access((uintptr_t)a, 8, false, __builtin_return_address(0)); }
TS void __tsan_vptr_update(void **a, void *v) {
  if (*a != v)
    access((uintptr_t)a, 8, true, __builtin_return_address(0));
}
TS void *__tsan_memcpy(void *d, const void *s, size_t n) {
  access((uintptr_t)s, (int)n, false, __builtin_return_address(0));
  access((uintptr_t)d, (int)n, true, __builtin_return_address(0));
  return memcpy(d, s, n);
}
TS void *__tsan_memmove(void *d, const void *s, size_t n) {
  access((uintptr_t)s, (int)n, false, __builtin_return_address(0));
  access((uintptr_t)d, (int)n, true, __builtin_return_address(0));
  return memmove(d, s, n);
}
TS void *__tsan_memset(void *d, int c, size_t n) {
  access((uintptr_t)d, (int)n, true, __builtin_return_address(0));
  return memset(d, c, n);
}

static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void before(int kind, const volatile void *a) {
  if (controlled())
    point(kind, (uintptr_t)a);
}
static void after(const volatile void *a, int mo, bool load, bool store) {
  if (!active || !self || in_rt)
    return;
  RT g;
  if (load && acq(mo))
    acquire((uintptr_t)a);
  if (store && rel(mo)) {
    if (load)
      release((uintptr_t)a);
    else
      release_store((uintptr_t)a);
  } else if (store && !load)
    sync_vc.erase((uintptr_t)a); // a relaxed store ends the release sequence
}

#define AT(N, T)                                                                                    \
  TS T __tsan_atomic##N##_load(const volatile T *a, int mo) {                                       \
    before(K_LOAD, a);                                                                              \
    T r = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                     \
    after(a, mo, true, false);                                                                      \
    return r;                                                                                       \
  }                                                                                                 \
  TS void __tsan_atomic##N##_store(volatile T *a, T v, int mo) {                                    \
    before(K_STORE, a);                                                                             \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                       \
    after(a, mo, false, true);                                                                      \
  }                                                                                                 \
  TS T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) {                                    \
    before(K_RMW, a);                                                                               \
    T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                              \
    after(a, mo, true, true);                                                                       \
    return r;                                                                                       \
  }                                                                                                 \
  TS int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int fmo) {    \
    before(K_RMW, a);                                                                               \
    bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);      \
    after(a, ok ? mo : fmo, true, ok);                                                              \
    return ok;                                                                                      \
  }                                                                                                 \
  TS int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int fmo) {      \
    return __tsan_atomic##N##_compare_exchange_strong(a, e, v, mo, fmo);                            \
  }                                                                                                 \
  TS T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T e, T v, int mo, int fmo) {          \
    __tsan_atomic##N##_compare_exchange_strong(a, &e, v, mo, fmo);                                  \
    return e;                                                                                       \
  }
#define FOP(N, T, name, fn)                                                                         \
  TS T __tsan_atomic##N##_fetch_##name(volatile T *a, T v, int mo) {                                \
    before(K_RMW, a);                                                                               \
    T r = fn(a, v, __ATOMIC_SEQ_CST);                                                               \
    after(a, mo, true, true);                                                                       \
    return r;                                                                                       \
  }
#define ALL(N, T)                                                                                   \
  AT(N, T)                                                                                          \
  FOP(N, T, add, __atomic_fetch_add)                                                                \
  FOP(N, T, sub, __atomic_fetch_sub)                                                                \
  FOP(N, T, and, __atomic_fetch_and)                                                                \
  FOP(N, T, or, __atomic_fetch_or)                                                                  \
  FOP(N, T, xor, __atomic_fetch_xor)                                                                \
  FOP(N, T, nand, __atomic_fetch_nand)
ALL(8, uint8_t)
ALL(16, uint16_t)
ALL(32, uint32_t)
ALL(64, uint64_t)
TS void __tsan_atomic_thread_fence(int) {
  // conservative: fences order everything
  if (active && self && !in_rt) {
    RT g;
    acquire(0x77);
    release(0x77);
  }
}
TS void __tsan_atomic_signal_fence(int) {}
