// See sched.hpp.  Written without standard library templates: an instance
// compiled here (not instrumented) could otherwise replace the instrumented one.
#include "sched.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
// malloc and free are replaced for the whole process, the standard library
// included: exception objects are allocated there
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace sched {

bool trace = false;

struct VC {
  u32 c[MAXT];
};
static inline void join(VC& a, const VC& b)
{
  for (int i = 0; i < MAXT; ++i)
    if (b.c[i] > a.c[i])
      a.c[i] = b.c[i];
}

enum State { UNUSED, READY, BLOCKED, FINISHED };
struct Thread {
  State st;
  bool yielded;
  u32 go;
  VC vc;
  uintptr_t wait; // mutex it waits for
  int wait_kind;  // 0 mutex, 1 rd, 2 wr, 3 guard
  uintptr_t lo, hi; // stack
  const char* what;
  u64 burst;
  // fairness: threads that have run since this one last yielded, and threads
  // that must run (if they can) before it runs again
  u32 since, wait_for;
};

static Thread T[MAXT];
static int N = 0; // threads 1..N
static volatile int cur = 0;
static volatile bool on = false;
static bool stopped = false; // no further choices: an error was found, finish or abandon
static int bound = 0, preempt = 0;
static choose_fn chooser;
static void* chooser_arg;
static body_fn g_body;
static void* g_arg;
static u64 g_points, g_switches;
static char err[1600];
static bool have_err;
static u32 main_go;
static u32 gen = 1;
static u64 spin_guard, n_yields;
static __thread int tid = 0;
static __thread int ignore = 0;

static void fwait(u32* w)
{
  while (!__atomic_load_n(w, __ATOMIC_ACQUIRE))
    syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
static void fwake(u32* w)
{
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static void set_err(const char* f, ...)
{
  if (have_err)
    return;
  have_err = true;
  va_list a;
  va_start(a, f);
  vsnprintf(err, sizeof err, f, a);
  va_end(a);
}

// ------------------------------------------------------------------ aliases
struct Alias {
  uintptr_t lo, hi, canon;
};
static Alias aliases[32];
static int n_alias = 0;
void alias_add(const void* base, size_t len, uintptr_t canonical)
{
  if (n_alias >= 32)
    abort();
  aliases[n_alias++] = {(uintptr_t)base, (uintptr_t)base + len, canonical};
}
void alias_del(const void* base)
{
  for (int i = 0; i < n_alias; ++i)
    if (aliases[i].lo == (uintptr_t)base) {
      aliases[i] = aliases[--n_alias];
      return;
    }
}
void alias_clear()
{
  n_alias = 0;
}
static inline uintptr_t canon(uintptr_t a)
{
  for (int i = 0; i < n_alias; ++i)
    if (a >= aliases[i].lo && a < aliases[i].hi)
      return aliases[i].canon + (a - aliases[i].lo);
  return a;
}

// --------------------------------------------------------------- sync objects
struct Sync {
  uintptr_t key;
  u32 gen;
  int owner; // mutex owner (thread + 1), 0 free
  int count;
  int readers; // rwlock: bit set of readers
  VC vc;
};
static constexpr u32 SY = 1u << 14;
static Sync* sy;
static Sync* sync_of(uintptr_t key)
{
  u32 h = (u32)((key * 0x9E3779B97F4A7C15ull) >> 40) & (SY - 1);
  for (u32 i = 0; i < SY; ++i, h = (h + 1) & (SY - 1)) {
    Sync& s = sy[h];
    if (s.gen != gen) {
      memset(&s, 0, sizeof s);
      s.gen = gen;
      s.key = key;
      return &s;
    }
    if (s.key == key)
      return &s;
  }
  abort();
}

// -------------------------------------------------------------------- shadow
struct Cell { // 8 bytes of memory
  uintptr_t key;
  u32 gen;
  int sole; // only thread that touched it (>0), -1 several
  u32 w[MAXT][8];
  u32 r[MAXT][8];
  u8 aw[MAXT], ar[MAXT]; // bits: the byte's last write/read by that thread was atomic
  void* pcw[MAXT];
  void* pcr[MAXT];
};
static constexpr u32 SH = 1u << 16;
static Cell* shd;
static u32 sh_used;
static Cell* cell_of(uintptr_t key)
{
  u32 h = (u32)((key * 0x9E3779B97F4A7C15ull) >> 38) & (SH - 1);
  for (u32 i = 0; i < SH; ++i, h = (h + 1) & (SH - 1)) {
    Cell& c = shd[h];
    if (c.gen != gen) {
      memset(&c, 0, sizeof c);
      c.gen = gen;
      c.key = key;
      if (++sh_used > SH * 3 / 4) {
        set_err("internal: shadow memory exhausted");
        abort();
      }
      return &c;
    }
    if (c.key == key)
      return &c;
  }
  abort();
}
static Cell* cell_find(uintptr_t key)
{
  u32 h = (u32)((key * 0x9E3779B97F4A7C15ull) >> 38) & (SH - 1);
  for (u32 i = 0; i < SH; ++i, h = (h + 1) & (SH - 1)) {
    Cell& c = shd[h];
    if (c.gen != gen)
      return nullptr;
    if (c.key == key)
      return &c;
  }
  return nullptr;
}

static void name_pc(void* pc, char* b, size_t n)
{
  Dl_info i;
  if (pc && dladdr(pc, &i) && i.dli_sname)
    snprintf(b, n, "%s+%#lx", i.dli_sname, (long)((char*)pc - (char*)i.dli_saddr));
  else
    snprintf(b, n, "%p", pc);
}

static void report(uintptr_t a, bool w1, void* pc1, int u, bool w2, void* pc2)
{
  if (have_err)
    return;
  char x[500], y[500];
  name_pc(pc1, x, sizeof x);
  name_pc(pc2, y, sizeof y);
  set_err("data race: thread %d %s in %s; thread %d %s in %s", tid, w1 ? "writes" : "reads", x, u,
          w2 ? "wrote" : "read", y);
  (void)a;
}

static void access(uintptr_t a, size_t n, bool write, bool atomic, void* pc)
{
  if (!on || ignore || !tid)
    return;
  Thread& me = T[tid];
  if (a >= me.lo && a < me.hi)
    return;
  a = canon(a);
  const u32 clk = me.vc.c[tid];
  while (n) {
    uintptr_t key = a >> 3;
    int off = a & 7;
    int len = 8 - off;
    if ((size_t)len > n)
      len = (int)n;
    Cell* c = cell_of(key);
    if (c->sole == 0)
      c->sole = tid;
    else if (c->sole != tid)
      c->sole = -1;
    if (c->sole < 0) {
      for (int u = 1; u <= N; ++u) {
        if (u == tid)
          continue;
        const u32 seen = me.vc.c[u];
        for (int b = off; b < off + len; ++b) {
          if (c->w[u][b] > seen && !(atomic && (c->aw[u] >> b & 1)))
            report(a, write, pc, u, true, c->pcw[u]);
          if (write && c->r[u][b] > seen && !(atomic && (c->ar[u] >> b & 1)))
            report(a, write, pc, u, false, c->pcr[u]);
        }
      }
    }
    u8 mask = (u8)(((1u << len) - 1) << off);
    if (write) {
      for (int b = off; b < off + len; ++b)
        c->w[tid][b] = clk;
      c->aw[tid] = atomic ? c->aw[tid] | mask : c->aw[tid] & ~mask;
      c->pcw[tid] = pc;
    } else {
      for (int b = off; b < off + len; ++b)
        c->r[tid][b] = clk;
      c->ar[tid] = atomic ? c->ar[tid] | mask : c->ar[tid] & ~mask;
      c->pcr[tid] = pc;
    }
    a += len;
    n -= len;
  }
}

void forget(const void* p, size_t n)
{
  if (!on || !p)
    return;
  uintptr_t a = canon((uintptr_t)p), e = a + n;
  for (uintptr_t k = a >> 3; k <= (e + 7) >> 3 && k < (a >> 3) + 4096; ++k) {
    Cell* c = cell_find(k);
    if (!c)
      continue;
    for (int b = 0; b < 8; ++b) {
      uintptr_t q = (k << 3) + b;
      if (q < a || q >= e)
        continue;
      for (int u = 0; u < MAXT; ++u)
        c->w[u][b] = c->r[u][b] = 0;
    }
  }
}

// ------------------------------------------------------------------ scheduler
static bool enabled(int t)
{
  Thread& x = T[t];
  if (x.st == READY)
    return true;
  if (x.st != BLOCKED)
    return false;
  Sync* s = sync_of(x.wait);
  if (x.wait_kind == 1)
    return s->owner == 0;
  if (x.wait_kind == 2)
    return s->owner == 0 && s->readers == 0;
  return s->owner == 0;
}

static void abandon()
{
  // give control back to the caller of run(); this thread never runs again
  fwake(&main_go);
  for (;;)
    pause();
}

static void handoff(int t)
{
  int me = tid;
  if (t == me)
    return;
  ++g_switches;
  cur = t;
  const bool finished = T[me].st == FINISHED; // the others may be done before the next line
  fwake(&T[t].go);
  if (!finished)
    fwait(&T[me].go);
}

// pick the next thread; called by the running thread, which may be blocked or finished
static void reschedule(bool voluntary)
{
  int me = tid;
  int opt[MAXT], n = 0;
  bool self_ok = T[me].st != FINISHED && enabled(me) && !voluntary;
  if (self_ok && T[me].burst > 3000) { // spinning without yielding
    self_ok = false;
    T[me].burst = 0;
    T[me].yielded = true;
  }
  if (self_ok)
    opt[n++] = me;
  if (!self_ok || preempt < bound) {
    u32 en = 0;
    for (int t = 1; t <= N; ++t)
      if (enabled(t))
        en |= 1u << t;
    for (int t = 1; t <= N; ++t)
      if (t != me && (en >> t & 1) && !T[t].yielded && !(T[t].wait_for & en))
        opt[n++] = t;
  }
  if (n == 0) { // only threads that wait for others to make progress
    for (int t = 1; t <= N; ++t)
      if (enabled(t))
        opt[n++] = t;
    if (n && (++spin_guard > 2000 || n_yields > 4000)) {
      set_err("livelock: every thread waits for another one (thread %d in %s)", me, T[me].what ? T[me].what : "?");
      abandon();
    }
    // round robin, so that no choice is spent on useless waiting
    if (n > 1) {
      int k = 0;
      while (k < n && opt[k] <= me)
        ++k;
      opt[0] = opt[k % n];
      n = 1;
    }
  }
  if (n == 0) {
    bool left = false;
    for (int t = 1; t <= N; ++t)
      if (T[t].st != FINISHED && T[t].st != UNUSED)
        left = true;
    if (left) {
      char b[400];
      size_t k = 0;
      b[0] = 0;
      for (int t = 1; t <= N; ++t)
        if (T[t].st == BLOCKED)
          k += snprintf(b + k, sizeof b - k, " thread %d waits in %s", t, T[t].what ? T[t].what : "?");
      set_err("deadlock:%s", b);
    }
    if (T[me].st == FINISHED) {
      fwake(&main_go);
      return;
    }
    abandon();
  }
  int pick = 0;
  if (n > 1) {
    ++ignore;
    pick = chooser(chooser_arg, n);
    --ignore;
    if (pick < 0) {
      set_err("internal: schedule replay diverged");
      abandon();
    }
  }
  int t = opt[pick];
  if (self_ok && t != me)
    ++preempt;
  if (t != me)
    T[me].burst = 0;
  T[t].yielded = false;
  if (trace && t != me)
    fprintf(stderr, "    [switch %d -> %d at %s]\n", me, t, T[me].what ? T[me].what : "?");
  handoff(t);
}

struct Private {
  uintptr_t lo, hi;
  int t;
};
static Private privates[16];
static int n_private = 0;
void private_add(int t, const void* p, size_t n)
{
  if (n_private < 16)
    privates[n_private++] = {(uintptr_t)p, (uintptr_t)p + n, t};
}
static bool own(uintptr_t a)
{
  for (int i = 0; i < n_private; ++i)
    if (a >= privates[i].lo && a < privates[i].hi)
      return privates[i].t == tid;
  return false;
}

void point(const char* what)
{
  if (!on || !tid || ignore)
    return;
  T[tid].what = what;
  reschedule(false);
  ++g_points;
  ++T[tid].burst;
  spin_guard = spin_guard > 0 ? spin_guard - 1 : 0;
  for (int t = 1; t <= N; ++t)
    if (t != tid) {
      T[t].yielded = false;
      T[t].since |= 1u << tid;
      T[t].wait_for &= ~(1u << tid);
    }
}

void yield()
{
  if (!on || !tid)
    return;
  T[tid].what = "yield";
  T[tid].yielded = true;
  ++n_yields;
  u32 w = 0;
  for (int t = 1; t <= N; ++t)
    if (t != tid && enabled(t))
      w |= 1u << t;
  T[tid].wait_for = w & ~T[tid].since;
  T[tid].since = 0;
  reschedule(true);
}

int self()
{
  return tid;
}
uint64_t now()
{
  return g_points;
}
bool active()
{
  return on;
}
void ignore_begin()
{
  ++ignore;
}
void ignore_end()
{
  --ignore;
}
void sync_release(uintptr_t key)
{
  if (!on || !tid)
    return;
  Sync* s = sync_of(key);
  join(s->vc, T[tid].vc);
  T[tid].vc.c[tid]++;
}
void sync_acquire(uintptr_t key)
{
  if (!on || !tid)
    return;
  join(T[tid].vc, sync_of(key)->vc);
}

// Threads are kept from one run to the next; a process forked in between (only
// the thread that forks survives) starts new ones.
static struct {
  pid_t pid;
  uintptr_t lo, hi;
  pthread_t th;
} P[MAXT];

static void* thread_main(void* p)
{
  tid = (int)(intptr_t)p;
  pthread_attr_t at;
  void* base;
  size_t sz;
  pthread_getattr_np(pthread_self(), &at);
  pthread_attr_getstack(&at, &base, &sz);
  pthread_attr_destroy(&at);
  P[tid].lo = (uintptr_t)base;
  P[tid].hi = (uintptr_t)base + sz;
  for (;;) {
    ignore = 0;
    fwait(&T[tid].go);
    T[tid].lo = P[tid].lo;
    T[tid].hi = P[tid].hi;
    g_body(g_arg, tid - 1);
    T[tid].st = FINISHED;
    T[tid].what = "end";
    ++ignore;
    reschedule(false);
  }
  return nullptr;
}

Result run(int n, body_fn f, void* arg, int pb, choose_fn ch, void* charg)
{
  if (!sy) {
    sy = (Sync*)mmap(nullptr, SY * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    shd = (Cell*)mmap(nullptr, SH * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  }
  const pid_t pid = getpid();
  if (P[1].pid != pid) {
    // first run in this process: one processor is all it can use
    cpu_set_t cs;
    int cpu = sched_getcpu();
    if (cpu >= 0) {
      CPU_ZERO(&cs);
      CPU_SET(cpu, &cs);
      sched_setaffinity(0, sizeof cs, &cs);
    }
  }
  ++gen;
  sh_used = 0;
  memset(T, 0, sizeof T);
  N = n;
  bound = pb;
  preempt = 0;
  chooser = ch;
  chooser_arg = charg;
  g_body = f;
  g_arg = arg;
  g_points = g_switches = 0;
  have_err = false;
  err[0] = 0;
  main_go = 0;
  spin_guard = n_yields = 0;
  for (int t = 1; t <= n; ++t) {
    T[t].st = READY;
    T[t].vc.c[t] = 1;
    T[t].since = ~0u; // nothing to wait for at the first yield
    T[t].what = "start";
    if (P[t].pid != pid) {
      P[t].pid = pid;
      pthread_attr_t at;
      pthread_attr_init(&at);
      pthread_attr_setstacksize(&at, 256 * 1024);
      if (pthread_create(&P[t].th, &at, thread_main, (void*)(intptr_t)t))
        abort();
      pthread_attr_destroy(&at);
    }
  }
  on = true;
  int first = 0;
  if (n > 1)
    first = ch(charg, n);
  if (first < 0) {
    on = false;
    n_private = 0;
    Result r = {"internal: schedule replay diverged", 0, 0, 0};
    return r;
  }
  cur = first + 1;
  fwake(&T[first + 1].go);
  fwait(&main_go);
  on = false;
  n_private = 0;
  Result r;
  r.error = have_err ? err : nullptr;
  r.points = g_points;
  r.switches = g_switches;
  r.preemptions = preempt;
  return r;
}

// ---------------------------------------------------------------------- locks
static bool recursive(pthread_mutex_t* m)
{
  return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}

static int lock(pthread_mutex_t* m, bool tr)
{
  uintptr_t key = canon((uintptr_t)m);
  if (!own((uintptr_t)m) && !(sync_of(key)->owner == tid + 1 && recursive(m)))
    point(tr ? "try_lock" : "lock");
  if (key != (uintptr_t)m) // in shared memory: must have been initialised before
    access((uintptr_t)m, sizeof(int), false, true, (void*)&lock);
  Sync* s = sync_of(key);
  if (s->owner == tid + 1) {
    if (recursive(m)) {
      s->count++;
      return 0;
    }
    if (tr)
      return EBUSY;
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP)
      return EDEADLK;
  }
  if (s->owner && tr)
    return EBUSY;
  while (s->owner) {
    T[tid].st = BLOCKED;
    T[tid].wait = key;
    T[tid].wait_kind = 0;
    T[tid].what = "lock";
    reschedule(false);
    T[tid].st = READY;
  }
  s->owner = tid + 1;
  s->count = 1;
  join(T[tid].vc, s->vc);
  return 0;
}

static int unlock(pthread_mutex_t* m)
{
  Sync* s = sync_of(canon((uintptr_t)m));
  if (s->owner != tid + 1) {
    set_err("thread %d unlocks a mutex it does not hold", tid);
    return EPERM;
  }
  if (--s->count)
    return 0;
  s->owner = 0;
  join(s->vc, T[tid].vc);
  T[tid].vc.c[tid]++;
  return 0;
}

static int rwlock(void* m, bool wr, bool tr)
{
  uintptr_t key = canon((uintptr_t)m);
  point("rwlock");
  Sync* s = sync_of(key);
  while (s->owner || (wr && s->readers)) {
    if (tr)
      return EBUSY;
    T[tid].st = BLOCKED;
    T[tid].wait = key;
    T[tid].wait_kind = wr ? 2 : 1;
    T[tid].what = "rwlock";
    reschedule(false);
    T[tid].st = READY;
  }
  if (wr)
    s->owner = tid + 1;
  else {
    s->readers |= 1 << tid;
    s->count++;
  }
  join(T[tid].vc, s->vc);
  return 0;
}
static int rwunlock(void* m)
{
  Sync* s = sync_of(canon((uintptr_t)m));
  join(s->vc, T[tid].vc);
  T[tid].vc.c[tid]++;
  if (s->owner == tid + 1)
    s->owner = 0;
  else
    s->readers &= ~(1 << tid);
  return 0;
}

// guards of function-local statics: initialised guards are not visible operations
static inline bool ctl()
{
  return on && tid && !ignore;
}

static void atomic_op(uintptr_t a, size_t n, bool rd, bool wr, int mo, void* pc)
{
  if (!ctl())
    return;
  if (!own(a))
    point("atomic");
  access(a, n, wr, true, pc);
  Sync* s = sync_of(canon(a) ^ 0x8000000000000000ull);
  bool acq = rd && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE;
  bool rel = wr && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST);
  if (acq)
    join(T[tid].vc, s->vc);
  if (rel) {
    if (!rd) // a plain store starts a new release sequence
      s->vc = T[tid].vc;
    else
      join(s->vc, T[tid].vc);
    T[tid].vc.c[tid]++;
  } else if (wr && !rd) {
    memset(&s->vc, 0, sizeof s->vc);
  }
}

} // namespace sched

using namespace sched;

// --------------------------------------------------------- interposed functions
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
  return ctl() ? lock(m, false) : __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
  return ctl() ? lock(m, true) : __real_pthread_mutex_trylock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
  return ctl() ? unlock(m) : __real_pthread_mutex_unlock(m);
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
  return ctl() ? rwlock(m, false, false) : __real_pthread_rwlock_rdlock(m);
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
  return ctl() ? rwlock(m, true, false) : __real_pthread_rwlock_wrlock(m);
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
  return ctl() ? rwlock(m, false, true) : __real_pthread_rwlock_tryrdlock(m);
}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
  return ctl() ? rwlock(m, true, true) : __real_pthread_rwlock_trywrlock(m);
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
  return ctl() ? rwunlock(m) : __real_pthread_rwlock_unlock(m);
}
// backtraces in error messages: slow and of no interest here
int __wrap_backtrace(void**, int)
{
  return 0;
}
int __real_sched_yield(void);
int __wrap_sched_yield(void)
{
  if (ctl()) {
    sched::yield();
    return 0;
  }
  return __real_sched_yield();
}

int __cxa_guard_acquire(u64* g)
{
  u8* b = (u8*)g;
  if (__atomic_load_n(b, __ATOMIC_ACQUIRE))
    return 0;
  if (!ctl())
    return 1;
  uintptr_t key = (uintptr_t)g;
  point("guard");
  Sync* s = sync_of(key);
  while (s->owner) {
    if (s->owner == tid + 1)
      set_err("recursive initialisation of a function-local static");
    T[tid].st = BLOCKED;
    T[tid].wait = key;
    T[tid].wait_kind = 0;
    T[tid].what = "initialisation of a static";
    reschedule(false);
    T[tid].st = READY;
  }
  join(T[tid].vc, s->vc);
  if (__atomic_load_n(b, __ATOMIC_ACQUIRE))
    return 0;
  s->owner = tid + 1;
  return 1;
}
void __cxa_guard_release(u64* g)
{
  __atomic_store_n((u8*)g, 1, __ATOMIC_RELEASE);
  if (!ctl())
    return;
  for (int k = 0; k < 2; ++k) {
    Sync* s = sync_of((uintptr_t)g ^ (k ? 0x8000000000000000ull : 0));
    s->owner = 0;
    join(s->vc, T[tid].vc);
  }
  T[tid].vc.c[tid]++;
}
void __cxa_guard_abort(u64* g)
{
  if (ctl())
    sync_of((uintptr_t)g)->owner = 0;
}

void* malloc(size_t n)
{
  void* p = __libc_malloc(n);
  if (ctl())
    forget(p, n);
  return p;
}
size_t malloc_usable_size(void*);
void free(void* p)
{
  if (ctl() && p) {
    // freeing is a write: it races with unordered uses
    access((uintptr_t)p, 8, true, false, __builtin_return_address(0));
    forget(p, malloc_usable_size(p));
  }
  __libc_free(p);
}
void* calloc(size_t a, size_t b)
{
  void* p = __libc_calloc(a, b);
  if (ctl())
    forget(p, a * b);
  return p;
}
void* realloc(void* p, size_t n)
{
  if (ctl() && p)
    access((uintptr_t)p, 8, true, false, __builtin_return_address(0));
  void* q = __libc_realloc(p, n);
  if (ctl() && q != p)
    forget(q, n);
  return q;
}

void* memalign(size_t al, size_t n)
{
  void* p = __libc_memalign(al, n);
  if (ctl())
    forget(p, n);
  return p;
}
void* aligned_alloc(size_t al, size_t n)
{
  return memalign(al, n);
}
int posix_memalign(void** r, size_t al, size_t n)
{
  void* p = memalign(al, n);
  if (!p)
    return ENOMEM;
  *r = p;
  return 0;
}

void __tsan_init()
{
}
void __tsan_func_entry(void*)
{
}
void __tsan_func_exit()
{
}
void __tsan_ignore_thread_begin()
{
}
void __tsan_ignore_thread_end()
{
}
#define PC __builtin_return_address(0)
#define RW(n)                                             \
  void __tsan_read##n(void* a)                            \
  {                                                       \
    access((uintptr_t)a, n, false, false, PC);            \
  }                                                       \
  void __tsan_write##n(void* a)                           \
  {                                                       \
    access((uintptr_t)a, n, true, false, PC);             \
  }                                                       \
  void __tsan_unaligned_read##n(void* a)                  \
  {                                                       \
    access((uintptr_t)a, n, false, false, PC);            \
  }                                                       \
  void __tsan_unaligned_write##n(void* a)                 \
  {                                                       \
    access((uintptr_t)a, n, true, false, PC);             \
  }                                                       \
  void __tsan_read##n##_pc(void* a, void* pc)             \
  {                                                       \
    access((uintptr_t)a, n, false, false, pc);            \
  }                                                       \
  void __tsan_write##n##_pc(void* a, void* pc)            \
  {                                                       \
    access((uintptr_t)a, n, true, false, pc);             \
  }                                                       \
  void __tsan_read_write##n(void* a)                      \
  {                                                       \
    access((uintptr_t)a, n, false, false, PC);            \
    access((uintptr_t)a, n, true, false, PC);             \
  }                                                       \
  void __tsan_unaligned_read_write##n(void* a)            \
  {                                                       \
    access((uintptr_t)a, n, false, false, PC);            \
    access((uintptr_t)a, n, true, false, PC);             \
  }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a, void* v)
{
  if (*a != v)
    access((uintptr_t)a, 8, true, false, PC);
}
void __tsan_vptr_read(void** a)
{
  access((uintptr_t)a, 8, false, false, PC);
}
void __tsan_read_range(void* a, size_t n)
{
  access((uintptr_t)a, n, false, false, PC);
}
void __tsan_write_range(void* a, size_t n)
{
  access((uintptr_t)a, n, true, false, PC);
}
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
  access((uintptr_t)s, n, false, false, PC);
  access((uintptr_t)d, n, true, false, PC);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
  access((uintptr_t)s, n, false, false, PC);
  access((uintptr_t)d, n, true, false, PC);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
  access((uintptr_t)d, n, true, false, PC);
  return memset(d, c, n);
}

// A load of a one-byte object whose value is 1 and which is the guard of a
// function-local static is not a visible operation; all one-byte acquire loads
// of the form the compiler emits for guards are recognised by guard_done().
#define AT(bits, type)                                                                                              \
  type __tsan_atomic##bits##_load(const volatile type* a, int mo)                                                   \
  {                                                                                                                 \
    if (bits == 8 && mo == __ATOMIC_ACQUIRE && ctl()) {                                                             \
      type v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                \
      if (v) {                                                                                                      \
        join(T[tid].vc, sync_of((uintptr_t)a ^ 0x8000000000000000ull)->vc);                                        \
        return v;                                                                                                   \
      }                                                                                                             \
    }                                                                                                               \
    atomic_op((uintptr_t)a, bits / 8, true, false, mo, PC);                                                         \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                    \
  }                                                                                                                 \
  void __tsan_atomic##bits##_store(volatile type* a, type v, int mo)                                                \
  {                                                                                                                 \
    atomic_op((uintptr_t)a, bits / 8, false, true, mo, PC);                                                         \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                       \
  }                                                                                                                 \
  type __tsan_atomic##bits##_exchange(volatile type* a, type v, int mo)                                             \
  {                                                                                                                 \
    atomic_op((uintptr_t)a, bits / 8, true, true, mo, PC);                                                          \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                             \
  }                                                                                                                 \
  type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int mo)                                            \
  {                                                                                                                 \
    atomic_op((uintptr_t)a, bits / 8, true, true, mo, PC);                                                          \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                              \
  }                                                                                                                 \
  type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int mo)                                            \
  {                                                                                                                 \
    atomic_op((uintptr_t)a, bits / 8, true, true, mo, PC);                                                          \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                              \
  }                                                                                                                 \
  type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int mo)                                            \
  {                                                                                                                 \
    atomic_op((uintptr_t)a, bits / 8, true, true, mo, PC);                                                          \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                              \
  }                                                                                                                 \
  type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int mo)                                             \
  {                                                                                                                 \
    atomic_op((uintptr_t)a, bits / 8, true, true, mo, PC);                                                          \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                               \
  }                                                                                                                 \
  type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int mo)                                            \
  {                                                                                                                 \
    atomic_op((uintptr_t)a, bits / 8, true, true, mo, PC);                                                          \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                              \
  }                                                                                                                 \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* e, type v, int mo, int)                 \
  {                                                                                                                 \
    atomic_op((uintptr_t)a, bits / 8, true, true, mo, PC);                                                          \
    return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                         \
  }                                                                                                                 \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* e, type v, int mo, int)                   \
  {                                                                                                                 \
    atomic_op((uintptr_t)a, bits / 8, true, true, mo, PC);                                                          \
    return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                         \
  }                                                                                                                 \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type e, type v, int mo, int)                    \
  {                                                                                                                 \
    atomic_op((uintptr_t)a, bits / 8, true, true, mo, PC);                                                          \
    __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                               \
    return e;                                                                                                       \
  }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int)
{
  point("fence");
}
void __tsan_atomic_signal_fence(int)
{
}
} // extern "C"

void* operator new(size_t n)
{
  void* p = malloc(n ? n : 1);
  if (!p)
    abort();
  return p;
}
void* operator new[](size_t n)
{
  return operator new(n);
}
void operator delete(void* p) noexcept
{
  free(p);
}
void operator delete[](void* p) noexcept
{
  free(p);
}
void operator delete(void* p, size_t) noexcept
{
  free(p);
}
void operator delete[](void* p, size_t) noexcept
{
  free(p);
}
