// P21 (one at a time, compiled with SHM_SEQ) and P22 (all schedules): host
// shared memory segments, on the real code.
//
// shm_open and shm_unlink are redirected (link-time wrapping) to a table of
// anonymous memory files; everything else is the real system call, made a visible
// operation of the controlled scheduler and given the chance to fail.  The
// "processes" of P22 are threads, each with its own HostSharedMemoryResource
// object and so its own mapping of the segment; the scheduler is told which
// mappings are the same memory.
#include <dirent.h>
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <sys/mman.h>

#include <map>
#include <memory>

#include "mc.hpp"
#ifndef SHM_SEQ
#include "sched.hpp"
#endif
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/resource/HostSharedMemoryResource.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/util/io.hpp"

#ifdef SHM_SEQ
namespace sched {
static void point(const char*) {}
static bool active() { return false; }
static int self() { return 0; }
static void ignore_begin() {}
static void ignore_end() {}
static void alias_add(const void*, std::size_t, uintptr_t) {}
static void alias_del(const void*) {}
} // namespace sched
#else
extern "C" void __tsan_write_range(void*, size_t);
#endif

namespace {
typedef umpire::resource::HostSharedMemoryResource Shm;

std::string S(unsigned long long x)
{
  return std::to_string(x);
}

struct Ign {
  Ign() { sched::ignore_begin(); }
  ~Ign() { sched::ignore_end(); }
};

int choose_cb(void* a, int n)
{
  mc::Ctx* c = static_cast<mc::Ctx*>(a);
  try {
    return c->choose(n);
  } catch (mc::Diverged&) {
    return -1;
  }
}

mc::Ctx* g_c = nullptr; // armed: calls may fail
int g_faults_left = 0;
long g_faulted = 0;
int g_actor = 0; // outside the scheduler: who is running
struct Mapping {
  char* base;
  std::size_t len;  // asked for
  std::size_t span; // reserved, guard page included
  unsigned long ino;
  int actor;
};
// plain array: used from the interposed calls
Mapping g_map[64];
int g_nmap = 0;
int g_waits = 0;

int actor()
{
  return sched::active() ? sched::self() : g_actor;
}

bool fails(const char* what)
{
  sched::point(what);
  Ign g;
  if (!g_c || g_faults_left <= 0)
    return false;
  int k = choose_cb(g_c, 2);
  if (k > 0) {
    --g_faults_left;
    ++g_faulted;
    g_c->deviation();
    g_c->log("    [" + std::string(what) + " fails in process " + S(actor()) + "]");
    return true;
  }
  return false;
}

// the names of shared memory objects; each is a memfd kept open here
struct Name {
  char name[256];
  int fd;
  unsigned long ino;
};
Name g_names[32];
int g_nnames = 0;

int find_name(const char* n)
{
  for (int i = 0; i < g_nnames; ++i)
    if (!strcmp(g_names[i].name, n))
      return i;
  return -1;
}
} // namespace

extern "C" {
int __real_ftruncate(int, off_t);
int __real_ftruncate64(int, off64_t);
int __real_fstat(int, struct stat*);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_close(int);
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*);
int __real_pthread_mutexattr_init(pthread_mutexattr_t*);
int __real_pthread_mutexattr_setpshared(pthread_mutexattr_t*, int);

int __wrap_shm_open(const char* name, int flags, mode_t)
{
  if (fails("shm_open")) {
    errno = EMFILE;
    return -1;
  }
  Ign g;
  int i = find_name(name);
  if (i >= 0 && (flags & O_CREAT) && (flags & O_EXCL)) {
    errno = EEXIST;
    return -1;
  }
  if (i < 0) {
    if (!(flags & O_CREAT)) {
      errno = ENOENT;
      return -1;
    }
    if (g_nnames >= 32 || strlen(name) > 255)
      abort();
    i = g_nnames++;
    strcpy(g_names[i].name, name);
    g_names[i].fd = memfd_create("shm", MFD_CLOEXEC);
    struct stat st;
    __real_fstat(g_names[i].fd, &st);
    g_names[i].ino = st.st_ino;
  }
  // a description of its own, like shm_open gives
  char p[64];
  snprintf(p, sizeof p, "/proc/self/fd/%d", g_names[i].fd);
  return open(p, (flags & O_ACCMODE) | O_CLOEXEC | (flags & O_TRUNC));
}
int __wrap_shm_unlink(const char* name)
{
  sched::point("shm_unlink");
  Ign g;
  int i = find_name(name);
  if (i < 0) {
    errno = ENOENT;
    return -1;
  }
  __real_close(g_names[i].fd);
  g_names[i] = g_names[--g_nnames];
  return 0;
}
int __wrap_ftruncate(int fd, off_t n)
{
  if (fails("ftruncate")) {
    errno = ENOSPC;
    return -1;
  }
  return __real_ftruncate(fd, n);
}
int __wrap_ftruncate64(int fd, off64_t n)
{
  if (fails("ftruncate")) {
    errno = ENOSPC;
    return -1;
  }
  return __real_ftruncate64(fd, n);
}
int __wrap_fstat(int fd, struct stat* st)
{
  if (fails("fstat")) {
    errno = EIO;
    return -1;
  }
  Ign g;
  int r = __real_fstat(fd, st);
  if (r == 0) {
    st->st_nlink = 0;
    for (int i = 0; i < g_nnames; ++i)
      if (g_names[i].ino == st->st_ino)
        st->st_nlink = 1;
  }
  return r;
}
void* __wrap_mmap(void* a, size_t n, int prot, int flags, int fd, off_t off)
{
  if (fd < 0)
    return __real_mmap(a, n, prot, flags, fd, off);
  if (fails("mmap")) {
    errno = ENOMEM;
    return MAP_FAILED;
  }
  Ign g;
  if (n == 0 || n > (std::size_t(1) << 36))
    return __real_mmap(a, n, prot, flags, fd, off);
  // with an inaccessible page behind it
  std::size_t span = ((n + 4095) & ~std::size_t(4095)) + 4096;
  void* r = __real_mmap(nullptr, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (r == MAP_FAILED)
    return r;
  void* p = __real_mmap(r, n, prot, flags | MAP_FIXED, fd, off);
  if (p == MAP_FAILED) {
    int e = errno;
    __real_munmap(r, span);
    errno = e;
    return MAP_FAILED;
  }
  struct stat st;
  __real_fstat(fd, &st);
  if (g_nmap < 64)
    g_map[g_nmap++] = {static_cast<char*>(p), n, span, (unsigned long)st.st_ino, actor()};
  if (sched::active())
    sched::alias_add(p, span - 4096, 0x100000000000ull + ((uintptr_t)st.st_ino << 20));
  return p;
}
int __wrap_munmap(void* p, size_t n)
{
  Ign g;
  for (int i = 0; i < g_nmap; ++i)
    if (g_map[i].base == p) {
      std::size_t span = g_map[i].span;
      bool whole = n + 4096 > span - 4096 && n <= span - 4096;
      g_map[i] = g_map[--g_nmap];
      sched::alias_del(p);
      if (whole)
        return __real_munmap(p, span);
      break;
    }
  return __real_munmap(p, n);
}
int __wrap_close(int fd)
{
  return __real_close(fd);
}
int __wrap_pthread_mutexattr_init(pthread_mutexattr_t* a)
{
  if (fails("pthread_mutexattr_init"))
    return ENOMEM;
  return __real_pthread_mutexattr_init(a);
}
int __wrap_pthread_mutexattr_setpshared(pthread_mutexattr_t* a, int v)
{
  if (fails("pthread_mutexattr_setpshared"))
    return ENOTSUP;
  return __real_pthread_mutexattr_setpshared(a, v);
}
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
  if (fails("pthread_mutex_init"))
    return EAGAIN;
#ifndef SHM_SEQ
  __tsan_write_range(m, sizeof *m);
#endif
  return __real_pthread_mutex_init(m, a);
}
}

namespace {

void purge()
{
  while (g_nnames)
    __real_close(g_names[--g_nnames].fd);
}

int count_fds()
{
  int n = 0;
  DIR* D = opendir("/proc/self/fd");
  while (readdir(D))
    ++n;
  closedir(D);
  return n - g_nnames;
}

std::unique_ptr<Shm> attach(std::size_t size, const std::string& name = "seg")
{
  umpire::MemoryResourceTraits t;
  t.size = size;
  t.scope = umpire::MemoryResourceTraits::shared_scope::node;
  t.resource = umpire::MemoryResourceTraits::resource_type::shared;
  return std::unique_ptr<Shm>(new Shm(umpire::Platform::host, name, 4000 + actor(), t));
}

const Mapping* mapping_of(int who)
{
  for (int i = g_nmap - 1; i >= 0; --i)
    if (g_map[i].actor == who)
      return &g_map[i];
  return nullptr;
}

#ifdef SHM_SEQ
// ----------------------------------------------------------------------- P21
struct Params {
  std::size_t seg;
  int attach;
  std::vector<std::string> names;
  std::vector<std::size_t> sizes;
  int depth;
  bool tracked; // through Allocator handles
};

struct Obj {
  std::size_t off, n;
  int pat;
  std::vector<int> holders; // attachment of each holder
  std::vector<std::size_t> asked;
};

unsigned char pat(int p, std::size_t k)
{
  return (unsigned char)(p * 29 + k % 253 + 1);
}

// what an allocation takes from an otherwise empty segment, and the largest
// that fits into one
struct Learned {
  std::size_t initial;
  std::map<std::pair<std::string, std::size_t>, std::size_t> cost;
  std::map<std::string, std::size_t> largest;
};

std::size_t cost_of(const std::string& name, std::size_t n)
{
  g_actor = 9;
  auto r = attach(1 << 20, "probe");
  std::size_t a = r->getActualSize();
  void* p = r->allocate_named(name, n);
  std::size_t b = r->getActualSize();
  r->deallocate(p, n);
  return b - a;
}

std::size_t largest_of(std::size_t seg, const std::string& name)
{
  g_actor = 9;
  auto r = attach(seg, "probe");
  for (std::size_t n = seg; n > 0; --n) {
    try {
      void* p = r->allocate_named(name, n);
      r->deallocate(p, n);
      return n;
    } catch (std::exception&) {
    }
  }
  return 0;
}

Learned& learn(const Params& P)
{
  static std::map<std::pair<std::size_t, std::string>, Learned> cache;
  std::string k;
  for (auto& n : P.names)
    k += n + "|";
  for (auto s : P.sizes)
    k += S(s) + "|";
  auto it = cache.find({P.seg, k});
  if (it != cache.end())
    return it->second;
  Learned& l = cache[{P.seg, k}];
  for (auto& n : P.names) {
    for (auto s : P.sizes)
      if (s <= P.seg)
        l.cost[{n, s}] = cost_of(n, s);
    l.largest[n] = largest_of(P.seg, n);
  }
  g_actor = 9;
  auto r = attach(P.seg, "probe");
  l.initial = r->getActualSize();
  return l;
}

void body21(mc::Ctx& c, const Params& P)
{
  purge();
  if (g_nmap)
    c.prune("mappings of an earlier history");
  Learned& L = learn(P);
  struct Att {
    std::unique_ptr<Shm> r;
    std::unique_ptr<umpire::Allocator> al;
    char* base;
  };
  std::vector<Att> at(P.attach);
  for (int i = 0; i < P.attach; ++i) {
    g_actor = i + 1;
    at[i].r = attach(P.seg);
    at[i].al.reset(new umpire::Allocator(at[i].r.get()));
    const Mapping* m = mapping_of(i + 1);
    c.require(m != nullptr, "an attachment maps nothing");
    at[i].base = m->base;
    c.require(m->len >= P.seg, "an attachment maps less than the segment");
    c.require(m->ino == mapping_of(1)->ino, "two attachments of one name are different segments");
  }
  const std::size_t page_end = (P.seg + 4095) & ~std::size_t(4095);
  for (std::size_t k = P.seg; k < page_end; ++k)
    at[0].base[k] = (char)(k * 7 + 3);
  std::map<std::string, Obj> live;
  int serial = 0;
  std::size_t actual = at[0].r->getActualSize();
  c.require(actual == L.initial, "used size of a new segment differs from that of another new segment");

  auto observe = [&](const std::string& when) {
    if (c.replayed())
      return;
    for (int i = 0; i < P.attach; ++i) {
      auto& a = at[i];
      for (std::size_t k = P.seg; k < page_end; ++k)
        if (a.base[k] != (char)(k * 7 + 3))
          c.fail(when + ": memory behind the segment is overwritten");
      c.check();
      for (auto& n : P.names) {
        auto it = live.find(n);
        void* p = P.tracked ? umpire::find_pointer_from_name(*a.al, n) : a.r->find_pointer_from_name(n);
        if (it == live.end())
          c.require_f(p == nullptr, [&] { return when + ": lookup of \"" + n + "\" finds something although it is not allocated"; });
        else
          c.require_f(p == a.base + it->second.off, [&] { return when + ": lookup of \"" + n + "\" does not find the live allocation"; });
      }
      for (auto& o : live)
        for (std::size_t k = 0; k < o.second.n; ++k)
          if ((unsigned char)a.base[o.second.off + k] != pat(o.second.pat, k))
            c.fail(when + ": contents of \"" + o.first + "\" changed at byte " + S(k) + " of " + S(o.second.n));
      c.check();
      c.require_f(a.r->getActualSize() == actual, [&] { return when + ": attachments report different used sizes"; });
    }
    if (live.empty())
      c.require_f(actual == L.initial, [&] { return when + ": used size is " + S(actual) + " with nothing allocated, initially it was " + S(L.initial); });
    mc::Hash h;
    for (auto& o : live)
      h.add(o.first).add(o.second.off).add(o.second.n).add(o.second.holders.size());
    h.add(actual);
    c.state(h.h);
  };

  // sound lower bound for the free space between live allocations
  auto must_fit = [&](const std::string& name, std::size_t n) {
    if (n > P.seg)
      return false;
    if (live.empty())
      return n <= L.largest[name];
    const std::size_t need = L.cost.count({name, n}) ? L.cost[{name, n}] : 0;
    if (!need)
      return false;
    std::vector<const Obj*> v;
    std::vector<std::size_t> ovh;
    for (auto& o : live)
      v.push_back(&o.second);
    std::sort(v.begin(), v.end(), [](const Obj* a, const Obj* b) { return a->off < b->off; });
    std::map<const Obj*, std::size_t> over;
    for (auto& o : live)
      over[&o.second] = L.cost[{o.first, o.second.asked[0]}] - o.second.asked[0];
    std::size_t from = L.initial;
    for (auto* o : v) {
      std::size_t to = o->off - std::min(o->off, over[o]);
      if (to > from && to - from >= need)
        return true;
      from = o->off + o->n + over[o];
    }
    return P.seg > from && P.seg - from >= need;
  };

  for (int s = 0; s < P.depth; ++s) {
    std::vector<std::pair<std::string, int>> frees; // name, attachment
    for (auto& o : live) {
      std::set<int> done;
      for (int h : o.second.holders)
        if (done.insert(h).second)
          frees.push_back({o.first, h});
    }
    const int na = (int)(P.names.size() * P.sizes.size()) * P.attach;
    int k = c.choose(1 + na + (int)frees.size());
    if (k == 0)
      break;
    --k;
    c.step();
    if (k < na) {
      const std::string& name = P.names[k % P.names.size()];
      k /= (int)P.names.size();
      std::size_t n = P.sizes[k % P.sizes.size()];
      int i = k / (int)P.sizes.size();
      c.log("attachment " + S(i + 1) + ": allocate \"" + name + "\" of " + S(n));
      char* p = nullptr;
      bool oom = false, failed = false;
      std::string what;
      try {
        p = static_cast<char*>(P.tracked ? at[i].al->allocate(name, n) : at[i].r->allocate_named(name, n));
      } catch (umpire::out_of_memory_error&) {
        oom = failed = true;
      } catch (std::exception& e) {
        failed = true;
      }
      c.log(failed ? (oom ? "  -> out of memory" : "  -> error") : "  -> offset " + S(p - at[i].base));
      auto it = live.find(name);
      if (it != live.end()) {
        Obj& o = it->second;
        if (failed) {
          c.require(n > o.asked[0], "a second allocation of a live name fails although it asks for no more");
        } else {
          c.require(p == at[i].base + o.off, "allocations of the same name are different memory");
          c.require_f(o.off + n <= P.seg, [&] { return "allocation of a live name for " + S(n) + " bytes reaches beyond the segment"; });
          // every byte asked for must be usable
          for (std::size_t j = o.n; j < n; ++j)
            p[j] = (char)pat(o.pat, j);
          o.n = std::max(o.n, n);
          o.holders.push_back(i);
          o.asked.push_back(n);
        }
      } else if (failed) {
        c.require(oom, "a request that does not fit raises something other than an out-of-memory error");
        c.require_f(!must_fit(name, n), [&] { return "allocation of " + S(n) + " fails although enough contiguous space is free"; });
      } else {
        std::size_t off = p - at[i].base;
        c.require_f(p > at[i].base && off <= P.seg && n <= P.seg - off, [&] { return "allocation of " + S(n) + " lies outside the segment (offset " + S(off) + ")"; });
        c.require_f(!live.empty() || n <= L.largest[name], [&] { return "allocation of " + S(n) + " succeeds although a new segment cannot hold it"; });
        for (auto& o : live)
          c.require_f(off + n <= o.second.off || o.second.off + o.second.n <= off, [&] { return "\"" + name + "\" overlaps \"" + o.first + "\""; });
        Obj o{off, n, ++serial, {i}, {n}};
        for (std::size_t j = 0; j < n; ++j)
          p[j] = (char)pat(o.pat, j);
        live[name] = o;
      }
      std::size_t a = at[0].r->getActualSize();
      if (failed || it != live.end())
        c.require(a == actual || (it != live.end() && !failed), "a refused allocation changes the used size");
      actual = a;
      observe(failed ? "after a refused allocation" : "after allocate");
    } else {
      auto f = frees[k - na];
      c.log("attachment " + S(f.second + 1) + ": free \"" + f.first + "\"");
      Obj& o = live[f.first];
      char* p = at[f.second].base + o.off;
      auto h = std::find(o.holders.begin(), o.holders.end(), f.second);
      if (P.tracked)
        at[f.second].al->deallocate(p);
      else
        at[f.second].r->deallocate(p, o.n);
      o.asked.erase(o.asked.begin() + (o.holders.size() > 1 && h == o.holders.begin() ? 1 : h - o.holders.begin()));
      o.holders.erase(h);
      std::size_t a = at[0].r->getActualSize();
      if (o.holders.empty()) {
        live.erase(f.first);
        c.require(a < actual, "freeing an allocation for good does not reduce the used size");
      } else {
        c.require(a == actual, "the used size changes although there are other holders");
      }
      actual = a;
      observe("after free");
    }
  }
  // a later attachment sees the same
  if (!c.replayed()) {
    g_actor = 8;
    auto late = attach(P.seg);
    const Mapping* m = mapping_of(8);
    c.require(m && m->ino == mapping_of(1)->ino, "a later attachment is a different segment");
    for (auto& n : P.names) {
      void* p = late->find_pointer_from_name(n);
      auto it = live.find(n);
      c.require(p == (it == live.end() ? nullptr : m->base + it->second.off), "a later attachment finds something else");
    }
    // and everything can be freed, in the order of allocation
    while (!live.empty()) {
      auto best = live.begin();
      for (auto it = live.begin(); it != live.end(); ++it)
        if (it->second.pat < best->second.pat)
          best = it;
      Obj o = best->second;
      live.erase(best);
      for (int h : o.holders) {
        if (P.tracked)
          at[h].al->deallocate(at[h].base + o.off);
        else
          at[h].r->deallocate(at[h].base + o.off, o.n);
      }
    }
    actual = at[0].r->getActualSize();
    observe("after everything was freed");
    const std::string& n0 = P.names[0];
    void* p = nullptr;
    try {
      p = at[0].r->allocate_named(n0, L.largest[n0]);
    } catch (std::exception&) {
      c.fail("after everything was freed, the largest allocation does not fit any more");
    }
    at[0].r->deallocate(p, L.largest[n0]);
  } else if (P.tracked) {
    for (auto& o : live)
      for (int h : o.second.holders)
        at[h].al->deallocate(at[h].base + o.second.off);
  }
}

// segments of every small size, and calls on allocators that are not shared memory
void body_segsize(mc::Ctx& c, const std::vector<std::size_t>& sizes)
{
  purge();
  if (g_nmap)
    c.prune("mappings of an earlier history");
  std::size_t seg = sizes[c.choose((int)sizes.size())];
  c.log("segment of " + S(seg));
  const int fds = count_fds();
  g_actor = 1;
  std::unique_ptr<Shm> r;
  try {
    r = attach(seg);
  } catch (std::exception& e) {
    c.log(std::string("  -> error"));
    c.require(seg < 512 || seg > (std::size_t(1) << 40), "a segment of reasonable size is refused");
    c.require(g_nnames == 0, "a segment that could not be created is left behind");
    c.require(count_fds() == fds, "creating a segment fails and leaves a descriptor open");
    c.require(g_nmap == 0, "creating a segment fails and leaves a mapping");
    return;
  }
  const Mapping* m = mapping_of(1);
  c.require(m && m->len >= seg, "the segment is mapped shorter than it is");
  if (m->len > 1 << 20)
    return;
  char* base = m->base;
  const std::size_t page_end = (seg + 4095) & ~std::size_t(4095);
  for (std::size_t k = seg; k < page_end; ++k)
    base[k] = (char)(k * 7 + 3);
  std::size_t n = std::vector<std::size_t>{1, 16, 100, 2000, 5000}[c.choose(5)];
  const std::size_t initial = r->getActualSize();
  c.require(initial <= seg, "more is used than the segment is long");
  std::vector<char*> v;
  for (int i = 0; i < 40; ++i) {
    try {
      char* p = static_cast<char*>(r->allocate_named("n" + S(i), n));
      c.require(p > base && (std::size_t)(p - base) <= seg && n <= seg - (p - base), "an allocation lies outside the segment");
      memset(p, 0x40 + i, n);
      v.push_back(p);
    } catch (umpire::out_of_memory_error&) {
      break;
    }
  }
  for (std::size_t i = 0; i < v.size(); ++i)
    for (std::size_t k = 0; k < n; ++k)
      if (v[i][k] != (char)(0x40 + i))
        c.fail("contents of an allocation changed");
  for (std::size_t k = seg; k < page_end; ++k)
    if (base[k] != (char)(k * 7 + 3))
      c.fail("memory behind the segment is overwritten");
  c.require(r->getActualSize() <= seg, "more is used than the segment is long");
  for (auto* p : v)
    r->deallocate(p, n);
  c.require(r->getActualSize() == initial, "used size is not restored");
  mc::Hash h;
  h.add(seg).add(n).add(v.size());
  c.state(h.h);
}

// a segment of many gigabytes (sparse): only the ends of the allocations are touched
void body_giga(mc::Ctx& c, int depth)
{
  purge();
  if (g_nmap)
    c.prune("mappings of an earlier history");
  const std::size_t G = std::size_t(1) << 30, seg = 20 * G;
  const std::size_t sizes[] = {100, 2 * G + 5, 4 * G + 48, 9 * G};
  std::unique_ptr<Shm> r[2];
  char* base[2];
  for (int i = 0; i < 2; ++i) {
    g_actor = i + 1;
    r[i] = attach(seg);
    const Mapping* m = mapping_of(i + 1);
    c.require(m && m->len >= seg, "the segment is mapped shorter than it is");
    base[i] = m->base;
  }
  const std::size_t initial = r[0]->getActualSize();
  struct A {
    std::string name;
    std::size_t off, n;
    int pat;
  };
  std::vector<A> live;
  int serial = 0;
  auto look = [&] {
    std::size_t sum = 0;
    for (auto& a : live) {
      sum += a.n;
      for (int i = 0; i < 2; ++i) {
        char* p = base[i] + a.off;
        c.require_f(r[i]->find_pointer_from_name(a.name) == p, [&] { return "attachment " + S(i) + " does not find " + a.name + " where it lies"; });
        c.require(p[0] == (char)a.pat && p[a.n - 1] == (char)a.pat && p[a.n / 2] == (char)a.pat, "contents of an allocation changed");
      }
      for (auto& b : live)
        c.require_f(&a == &b || a.off + a.n <= b.off || b.off + b.n <= a.off, [&] { return a.name + " and " + b.name + " overlap"; });
    }
    for (int i = 0; i < 2; ++i) {
      std::size_t x = r[i]->getActualSize();
      c.require_f(x <= seg && x >= sum, [&] { return "used size is " + S(x) + " with " + S(sum) + " bytes allocated"; });
      c.require_f(x >= initial + sum && x <= initial + sum + 4096 * (live.size() + 1), [&] { return "used size is " + S(x) + " with " + S(sum) + " bytes allocated"; });
    }
    mc::Hash h;
    for (auto& a : live)
      h.add(a.n).add(a.off);
    c.state(h.h);
  };
  look();
  for (int s = 0; s < depth; ++s) {
    int k = c.choose(1 + 4 + (int)live.size());
    if (k == 0)
      break;
    --k;
    c.step();
    int who = s % 2;
    if (k < 4) {
      A a{"n" + S(serial), 0, sizes[k], 40 + serial};
      ++serial;
      c.log("attachment " + S(who) + " allocates " + S(a.n));
      // is there certainly room?  the longest gap between allocations
      std::vector<std::pair<std::size_t, std::size_t>> v;
      for (auto& b : live)
        v.push_back({b.off, b.off + b.n});
      v.push_back({seg, seg});
      std::sort(v.begin(), v.end());
      std::size_t at = 0, gap = 0;
      for (auto& x : v) {
        gap = std::max(gap, x.first - at);
        at = x.second;
      }
      try {
        char* p = static_cast<char*>(r[who]->allocate_named(a.name, a.n));
        c.require(p > base[who] && (std::size_t)(p - base[who]) <= seg && a.n <= seg - (p - base[who]), "an allocation lies outside the segment");
        a.off = p - base[who];
        for (auto& b : live)
          c.require_f(a.off + a.n <= b.off || b.off + b.n <= a.off, [&] { return a.name + " and " + b.name + " overlap"; });
        p[0] = p[a.n - 1] = p[a.n / 2] = (char)a.pat;
        live.push_back(a);
      } catch (umpire::out_of_memory_error&) {
        c.log("  -> out of memory");
        c.require_f(gap < a.n + 8192, [&] { return "a free stretch of " + S(gap) + " bytes does not hold " + S(a.n); });
      }
    } else {
      A a = live[k - 4];
      live.erase(live.begin() + (k - 4));
      c.log("attachment " + S(who) + " frees " + a.name);
      r[who]->deallocate(base[who] + a.off, a.n);
      bool gone = false;
      try {
        gone = r[who]->find_pointer_from_name(a.name) == nullptr;
      } catch (std::exception&) {
        gone = true;
      }
      c.require(gone, "a freed name is still found");
    }
    look();
  }
  while (!live.empty()) {
    r[0]->deallocate(base[0] + live.back().off, live.back().n);
    live.pop_back();
    look();
  }
  c.require(r[0]->getActualSize() == initial, "used size is not restored");
}

void body_other(mc::Ctx& c)
{
  auto& rm = umpire::ResourceManager::getInstance();
  int k = c.choose(3);
  std::unique_ptr<umpire::strategy::AllocationStrategy> s;
  umpire::Allocator al = rm.getAllocator("HOST");
  if (k == 1)
    s.reset(new umpire::strategy::NamedAllocationStrategy("n", 5001, al));
  if (k == 2)
    s.reset(new umpire::strategy::QuickPool("q", 5002, al, 64, 64, 16));
  if (s)
    al = umpire::Allocator(s.get());
  c.log("lookup of a name in an allocator that is not shared memory, kind " + S(k));
  void* a = c.choose(2) ? al.allocate("x", 32) : nullptr;
  bool threw = false;
  try {
    umpire::find_pointer_from_name(al, "x");
  } catch (std::exception&) {
    threw = true;
  }
  c.require(threw, "looking up a name in an allocator that is not shared memory raises no error");
  if (a)
    al.deallocate(a);
}

std::vector<mc::Config> make(const mc::Options& o)
{
  const bool th = o.tier == "thorough";
  std::vector<mc::Config> v;
  auto add = [&](const std::string& n, Params p) {
    mc::Config c;
    c.name = n;
    c.body = [p](mc::Ctx& x) { body21(x, p); };
    c.bounds = "segment of " + S(p.seg) + " bytes, " + S(p.attach) + " attachments, " + S(p.names.size()) + " names, " + S(p.sizes.size()) + " sizes, " +
               S(p.depth) + " steps";
    c.split = 2;
    c.segment = 5000;
    v.push_back(c);
  };
  const std::size_t M = ~std::size_t(0);
  add("names", {1500, 1, {"a", "b", "c", "ab"}, {100, 300}, th ? 7 : 5, false});
  add("fragments", {1000, 1, {"a", "b", "c"}, {16, 200, 420}, th ? 7 : 6, false});
  add("slivers", {1600, 1, {"a", "b", "c"}, th ? std::vector<std::size_t>{16, 48, 64} : std::vector<std::size_t>{16, 48}, th ? 7 : 6, false});
  add("slivers-names", {1600, 1, {"a", std::string(18, 'b'), std::string(40, 'c')}, {20, 60}, th ? 7 : 6, false});
  add("two-attachments", {1500, 2, {"a", "b"}, {64, 400}, th ? 6 : 5, false});
  add("tracked", {1500, 2, {"a", "b"}, {64, 400}, th ? 6 : 4, true});
  add("holders", {1500, 3, {"a"}, {40, 41, 56}, th ? 6 : 5, false});
  add("odd-names", {2000, 1, {"", "a", std::string(15, 'n'), std::string(16, 'n'), std::string(300, 'n')}, {15, 33}, th ? 5 : 4, false});
  add("huge", {1200, 1, {"a", "b"}, {50, M, M - 15, M - 16, M - 17, M - 63, M - 127, M / 2, 1200, 1100}, th ? 5 : 4, false});
  for (std::size_t seg : {(std::size_t)700, (std::size_t)705, (std::size_t)4096, (std::size_t)8192}) {
    // the largest that fits and its neighbours
    Params p{seg, 1, {"a", "b"}, {1, 16}, th ? 6 : 5, false};
    std::size_t room = seg - 100;
    (void)room;
    for (std::size_t d : {(std::size_t)160, (std::size_t)176, (std::size_t)192, (std::size_t)208, (std::size_t)224})
      p.sizes.push_back(seg - d);
    p.depth = th ? 5 : 3;
    add("exact/" + S(seg), p);
  }
  mc::Config c;
  c.name = "segment-sizes";
  std::vector<std::size_t> ss;
  for (std::size_t n = 0; n <= 400; ++n)
    ss.push_back(n);
  for (std::size_t n : {511, 512, 1000, 4095, 4096, 4097, 8191, 8192})
    ss.push_back(n);
  ss.push_back(M);
  ss.push_back(M / 2);
  ss.push_back(M / 2 + 1);
  c.body = [ss](mc::Ctx& x) { body_segsize(x, ss); };
  c.bounds = "segments of every size up to 400 bytes and around page boundaries, filled completely";
  c.split = 1;
  v.push_back(c);
  mc::Config g;
  g.name = "giga";
  const int gd = th ? 7 : 6;
  g.body = [gd](mc::Ctx& x) { body_giga(x, gd); };
  g.bounds = "sparse segment of 20 GiB, two attachments, allocations of 100 bytes to 9 GiB, " + S(gd) + " steps";
  g.split = 2;
  v.push_back(g);
  mc::Config d;
  d.name = "not-shared";
  d.body = body_other;
  d.bounds = "lookup in allocators that are not shared memory";
  d.split = 1;
  v.push_back(d);
  return v;
}
#else
// ----------------------------------------------------------------------- P22
enum OpK { ALLOC_A, ALLOC_B, ALLOC_BIG, FIND_A, FREE_, SIZE_, NOPS };
const char* op_name[] = {"allocate a(64)", "allocate b(100)", "allocate c(500)", "find a", "free", "size"};
const std::size_t SEG = 1000;

struct Proc {
  std::unique_ptr<Shm> r;
  bool failed{false};
  char* base{nullptr};
  unsigned long ino{0};
  struct Held {
    char* p;
    std::size_t n;
    std::string name;
  };
  std::vector<Held> held;
  std::vector<long> res;
  std::vector<std::pair<int, int>> when;
};

typedef std::vector<std::vector<int>> Prog;

std::string show(const Prog& p)
{
  std::string s;
  for (std::size_t t = 0; t < p.size(); ++t) {
    s += "process " + S(t + 1) + ": attach";
    for (int k : p[t])
      s += "; " + std::string(op_name[k]);
    s += ".  ";
  }
  return s;
}

struct World {
  std::vector<Proc> p;
  const Prog* prog;
  int first{0};

  explicit World(const Prog& pr) : p(pr.size()), prog(&pr) {}

  void step(int t, int i)
  {
    Proc& x = p[t];
    if (!sched::active())
      g_actor = t + 1;
    int w0 = sched::active() ? (int)sched::now() : 0;
    long r = -9;
    if (i == 0) {
      try {
        x.r = attach(SEG);
        Ign g;
        const Mapping* m = mapping_of(t + 1);
        if (m) {
          x.base = m->base;
          x.ino = m->ino;
        }
        r = 0;
      } catch (std::exception& e) {
        x.failed = true;
        r = -1;
      }
    } else if (x.failed) {
      r = -3;
    } else {
      int k = (*prog)[t][i - 1];
      switch (k) {
        case ALLOC_A:
        case ALLOC_B:
        case ALLOC_BIG: {
          std::size_t n = k == ALLOC_A ? 64 : k == ALLOC_B ? 100 : 500;
          const char* nm = k == ALLOC_A ? "a" : k == ALLOC_B ? "b" : "c";
          try {
            char* q = static_cast<char*>(x.r->allocate_named(nm, n));
            Ign g;
            x.held.push_back({q, n, nm});
            r = q - x.base;
          } catch (umpire::out_of_memory_error&) {
            r = -1;
          } catch (std::exception&) {
            r = -2;
          }
          break;
        }
        case FIND_A: {
          char* q = static_cast<char*>(x.r->find_pointer_from_name("a"));
          r = q ? q - x.base : 0;
          break;
        }
        case FREE_: {
          if (x.held.empty()) {
            r = -4;
            break;
          }
          char* q;
          std::size_t n;
          {
            Ign g;
            q = x.held.back().p;
            n = x.held.back().n;
            x.held.pop_back();
          }
          x.r->deallocate(q, n);
          r = 0;
          break;
        }
        case SIZE_:
          r = (long)x.r->getActualSize();
          break;
      }
    }
    Ign g;
    x.res.push_back(r);
    x.when.push_back({w0, sched::active() ? (int)sched::now() : 0});
  }

  // everything observable afterwards
  std::vector<long> outcome()
  {
    std::vector<long> o;
    for (auto& x : p)
      for (long r : x.res)
        o.push_back(r);
    for (std::size_t t = 0; t < p.size(); ++t) {
      auto& x = p[t];
      if (!x.r)
        continue;
      o.push_back((long)x.r->getActualSize());
      for (const char* n : {"a", "b", "c"}) {
        char* q = static_cast<char*>(x.r->find_pointer_from_name(n));
        o.push_back(q ? q - x.base : 0);
      }
    }
    return o;
  }
  // frees everything; returns a complaint
  std::string finish()
  {
    for (auto& x : p)
      for (auto& h : x.held) {
        x.r->deallocate(h.p, h.n);
      }
    std::string m;
    Proc* any = nullptr;
    for (auto& x : p)
      if (x.r)
        any = &x;
    if (any) {
      for (const char* n : {"a", "b", "c"})
        if (any->r->find_pointer_from_name(n))
          m = std::string("\"") + n + "\" is still found after everything was freed";
      try {
        void* q = any->r->allocate_named("all", 700);
        any->r->deallocate(q, 700);
      } catch (std::exception&) {
        m = "after everything was freed, the space is not usable as a whole";
      }
    }
    return m;
  }
};

void thread22(void* a, int t)
{
  World* w = static_cast<World*>(a);
  const int n = (int)(*w->prog)[t].size() + 1;
  for (int i = w->first; i < n; ++i)
    w->step(t, i);
}

struct Late {
  std::unique_ptr<Shm> r;
  bool failed{false};
};
void late22(void* a, int)
{
  Late* l = static_cast<Late*>(a);
  try {
    l->r = attach(SEG);
  } catch (std::exception&) {
    l->failed = true;
  }
}

std::map<std::vector<int>, std::vector<long>> g_seq;
std::string g_seq_key;

void body22(mc::Ctx& c, int nproc, int len, const std::vector<int>& alpha, int pb, int faults, bool before)
{
  purge();
  g_c = nullptr;
  if (g_nmap)
    c.prune("mappings of an earlier history");
  Prog prog(nproc);
  for (auto& p : prog) {
    int held = 0;
    for (int i = 0; i < len; ++i) {
      std::vector<int> o;
      for (int k : alpha)
        if (k != FREE_ || held)
          o.push_back(k);
      int k = o[c.choose((int)o.size())];
      held += k == FREE_ ? -1 : k <= ALLOC_BIG ? 1 : 0;
      p.push_back(k);
    }
  }
  const std::string key = show(prog);
  c.log(key);
  if (!faults && g_seq_key != key) {
    g_seq_key = key;
    g_seq.clear();
    std::vector<int> order;
    for (int t = 0; t < nproc; ++t)
      order.insert(order.end(), len + (before ? 0 : 1), t);
    do {
      World w(prog);
      std::vector<int> at(nproc, before ? 1 : 0);
      for (int t = 0; before && t < nproc; ++t)
        w.step(t, 0);
      for (int t : order)
        w.step(t, at[t]++);
      g_seq[order] = w.outcome();
      std::string m = w.finish();
      if (!m.empty())
        c.fail("executed one at a time: " + m);
      for (auto& x : w.p)
        x.r.reset();
      purge();
    } while (std::next_permutation(order.begin(), order.end()));
  }
  const int fds = count_fds();
  const int maps0 = g_nmap;
  World w(prog);
  g_faults_left = faults;
  g_faulted = 0;
  if (before) {
    for (int t = 0; t < nproc; ++t)
      w.step(t, 0);
    w.first = 1;
    for (int i = 0; i < g_nmap; ++i)
      sched::alias_add(g_map[i].base, g_map[i].span - 4096, 0x100000000000ull + ((uintptr_t)g_map[i].ino << 20));
  }
  g_c = faults ? &c : nullptr;
  sched::trace = c.verbose;
  sched::Result r = sched::run(nproc, thread22, &w, pb, choose_cb, &c);
  sched::alias_clear();
  g_c = nullptr;
  if (c.sh)
    c.sh->transitions += r.points;
  if (c.diverged) {
    c.fresh = true;
    throw mc::Diverged{};
  }
  if (r.error)
    c.fail(r.error);
  int attached = 0;
  unsigned long ino = 0;
  for (auto& x : w.p) {
    c.require(x.r || g_faulted, "a process cannot attach although no system call failed");
    if (!x.r)
      continue;
    ++attached;
    c.require(ino == 0 || x.ino == ino, "two processes are attached to different segments");
    ino = x.ino;
  }
  c.require(g_nmap - maps0 == attached, "a process that could not attach leaves a mapping");
  int f = count_fds() - fds;
  c.require(f <= attached, "a process that could not attach leaves a descriptor open");
  std::vector<long> o = w.outcome();
  if (!faults) {
    bool found = false;
    for (auto& q : g_seq) {
      if (q.second != o)
        continue;
      std::vector<int> at(nproc, before ? 1 : 0);
      std::vector<std::pair<int, int>> seq;
      for (int t : q.first)
        seq.push_back(w.p[t].when[at[t]++]);
      bool rt = true;
      for (std::size_t i = 0; i < seq.size() && rt; ++i)
        for (std::size_t j = i + 1; j < seq.size() && rt; ++j)
          if (seq[j].second < seq[i].first)
            rt = false;
      if (rt) {
        found = true;
        break;
      }
    }
    std::string d;
    if (!found) {
      d = "no sequential order of the operations gives these results:";
      for (long x : o)
        d += " " + std::to_string(x);
    }
    c.require(found, d.c_str());
  }
  // live allocations of different names do not overlap
  for (auto& x : w.p)
    for (auto& y : w.p)
      for (auto& h : x.held)
        for (auto& k : y.held) {
          long a = h.p - x.base, b = k.p - y.base;
          c.require(h.name == k.name ? a == b : (a + (long)h.n <= b || b + (long)k.n <= a), "allocations overlap, or one name is two allocations");
        }
  // whoever comes later can attach, to the same segment
  Late late;
  sched::Result r2 = sched::run(1, late22, &late, 0, choose_cb, &c);
  sched::alias_clear();
  if (r2.error)
    c.fail(std::string("a process attaching later: ") + r2.error);
  c.require(!late.failed, "a process cannot attach later on");
  if (attached) {
    const Mapping* m = &g_map[g_nmap - 1];
    c.require(m->ino == ino, "a process attaching later gets a different segment");
  }
  mc::Hash h;
  h.add(key);
  for (long x : o)
    h.add((uint64_t)x);
  c.state(h.h);
  std::string m = w.finish();
  c.require(m.empty(), m.c_str());
  late.r.reset();
  for (auto& x : w.p)
    x.r.reset();
  c.require(g_nmap == maps0, "a mapping remains after detaching");
  c.require(count_fds() == fds, "a descriptor remains open after detaching");
}

// Two processes attach, use the segment and detach, which removes its name,
// in any interleaving: each always has a segment that works.
struct Round {
  int rounds;
  bool use;
  const char* bad[2]{nullptr, nullptr};
};

void thread_detach(void* a, int t)
{
  Round* w = static_cast<Round*>(a);
  for (int i = 0; i < w->rounds; ++i) {
    std::unique_ptr<Shm> r;
    try {
      r = attach(SEG);
    } catch (std::exception&) {
      w->bad[t] = "a process cannot attach while another one attaches or detaches";
      return;
    }
    if (w->use) {
      try {
        void* q = r->allocate_named("a", 64);
        if (!q || r->find_pointer_from_name("a") != q)
          w->bad[t] = "an allocation is not found by its name while another process detaches";
        r->deallocate(q, 64);
      } catch (std::exception&) {
        w->bad[t] = "a process cannot use its segment while another one detaches";
      }
    }
    r.reset();
  }
}

void body_detach(mc::Ctx& c, int rounds, bool use, int pb)
{
  purge();
  g_c = nullptr;
  if (g_nmap)
    c.prune("mappings of an earlier history");
  const int fds = count_fds();
  g_faults_left = 0;
  g_faulted = 0;
  Round w{rounds, use};
  sched::trace = c.verbose;
  sched::Result r = sched::run(2, thread_detach, &w, pb, choose_cb, &c);
  sched::alias_clear();
  if (c.sh)
    c.sh->transitions += r.points;
  if (c.diverged) {
    c.fresh = true;
    throw mc::Diverged{};
  }
  if (r.error)
    c.fail(r.error);
  for (const char* b : w.bad)
    c.require(b == nullptr, b ? b : "");
  c.require(g_nmap == 0, "a mapping remains after detaching");
  c.require(count_fds() == fds, "a descriptor remains open after detaching");
  c.require(g_nnames == 0, "a segment remains after everybody detached");
  c.state(mc::Hash().add(rounds).add(r.points).h);
}

std::vector<mc::Config> make(const mc::Options& o)
{
  const bool th = o.tier == "thorough";
  std::vector<mc::Config> v;
  auto add = [&](const std::string& n, int nproc, int len, std::vector<int> alpha, int pb, int faults, bool before = false) {
    mc::Config c;
    c.name = n;
    c.body = [=](mc::Ctx& x) { body22(x, nproc, len, alpha, pb, faults, before); };
    c.bounds = S(nproc) + (before ? " attached processes that do " : " processes that attach and do ") + S(len) + " operations each, " + S(pb) + " preemptions, " + S(faults) + " failing calls";
    c.split = 3;
    c.segment = 1000;
    c.hang_s = 60;
    v.push_back(c);
  };
  add("attach/2", 2, 0, {SIZE_}, th ? 8 : 6, 0);
  add("attach/3", 3, 0, {SIZE_}, th ? 3 : 2, 0);
  auto det = [&](const std::string& n, int rounds, bool use, int pb) {
    mc::Config c;
    c.name = n;
    c.body = [=](mc::Ctx& x) { body_detach(x, rounds, use, pb); };
    c.bounds = "two processes that attach" + std::string(use ? ", use the segment" : "") + " and detach " + S(rounds) + " times, " + S(pb) + " preemptions";
    c.split = 3;
    c.segment = 1000;
    c.hang_s = 60;
    v.push_back(c);
  };
  det("detach/1", 1, true, th ? 7 : 5);
  det("detach/2", 2, false, th ? 6 : 4);
  add("faults/2", 2, 0, {SIZE_}, th ? 5 : 4, th ? 2 : 1);
  add("faults/3", 3, 0, {SIZE_}, th ? 2 : 1, 1);
  std::vector<int> all{ALLOC_A, ALLOC_B, ALLOC_BIG, FIND_A, FREE_, SIZE_};
  add("use/2x1", 2, 1, all, th ? 5 : 4, 0);
  add("use/2x2", 2, 2, all, 2, 0);
  add("use/3x1", 3, 1, {ALLOC_A, ALLOC_BIG, FIND_A}, th ? 2 : 1, 0);
  add("attached/2x3", 2, 3, all, th ? 3 : 2, 0, true);
  add("attached/3x2", 3, 2, {ALLOC_A, ALLOC_BIG, FIND_A, FREE_}, th ? 4 : 2, 0, true);
  if (th)
    add("attached/2x4", 2, 4, {ALLOC_A, ALLOC_B, ALLOC_BIG, FREE_, FIND_A}, 2, 0, true);
  return v;
}
#endif
} // namespace

int main(int argc, char** argv)
{
  setenv("UMPIRE_LOG_LEVEL", "ERROR", 1);
  auto& rm = umpire::ResourceManager::getInstance();
  umpire::log().rdbuf(nullptr);
  umpire::error().rdbuf(nullptr);
  rm.getAllocator("HOST");
  return mc::mc_main(argc, argv, make);
}
