// Exhaustive exploration of histories of resource-manager operations: pointer
// introspection, rejected frees, copy / memset, reallocate / move, zero-byte
// allocations, the allocator registry and range queries
// (P03 P10 P11 P12 P13 P14 P26 P27).
//
// A set of allocators is created once; every history runs on it and, when it
// ends, gives everything back.
#include <cmath>
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <vector>

#include "camp/resource.hpp"
#include "mc.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include "umpire/TypedAllocator.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/NamingShim.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/allocation_statistics.hpp"
#include "umpire/util/error.hpp"
#include "umpire/util/io.hpp"

namespace us = umpire::strategy;
using umpire::Allocator;
using umpire::ResourceManager;

extern "C" {
void* __real_malloc(size_t);
void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t);
void* __wrap_realloc(void*, size_t);
}

namespace {

int g_prop = 0;
bool g_thorough = false;
// Refuse the n-th request for memory from now on (0: none). Only requests made
// by the operation under test count; g_requests counts them.
int g_refuse = 0;
bool g_count = false;
int g_requests = 0;
bool g_refused = false;
bool g_refuse_malloc = false; // requests of the host resource may be refused

bool refuse_now()
{
  if (!g_count)
    return false;
  ++g_requests;
  if (g_refuse && g_requests == g_refuse) {
    g_refused = true;
    return true;
  }
  return false;
}

constexpr std::size_t GUARD = 64;
constexpr unsigned char GBYTE = 0xA5;

struct Arena : public us::AllocationStrategy {
  struct B {
    char* p;
    std::size_t n;
  };
  std::vector<B> live;
  std::string err;
  Arena(const std::string& name, int id) : us::AllocationStrategy{name, id, nullptr, "arena"}
  {
  }
  void* allocate(std::size_t n) override
  {
    if (refuse_now() || n > (1u << 22)) {
      UMPIRE_ERROR(umpire::out_of_memory_error, "arena refuses");
    }
    char* raw = static_cast<char*>(__real_malloc(n + 2 * GUARD));
    memset(raw, GBYTE, GUARD);
    memset(raw + GUARD, 0x5c, n);
    memset(raw + GUARD + n, GBYTE, GUARD);
    live.push_back({raw + GUARD, n});
    return raw + GUARD;
  }
  void deallocate(void* p, std::size_t) override
  {
    for (std::size_t i = 0; i < live.size(); ++i)
      if (live[i].p == p) {
        check(live[i]);
        free(live[i].p - GUARD);
        live.erase(live.begin() + i);
        return;
      }
    err = "memory given back to the resource that it never handed out";
  }
  void check(const B& b)
  {
    for (std::size_t i = 0; i < GUARD; ++i)
      if ((unsigned char)b.p[-1 - (long)i] != GBYTE || (unsigned char)b.p[b.n + i] != GBYTE)
        err = "bytes outside the memory of the resource were changed";
  }
  void check_all()
  {
    for (auto& b : live)
      check(b);
  }
  umpire::Platform getPlatform() noexcept override
  {
    return umpire::Platform::host;
  }
  umpire::MemoryResourceTraits getTraits() const noexcept override
  {
    return umpire::MemoryResourceTraits{};
  }
};

struct A {
  Allocator a;
  std::string label;
  bool tracked{true};
  bool pool{false};
  std::size_t max{0}; // largest request, 0: any
  bool exact{true};   // current size and count follow the live allocations
};

std::vector<A> g_a;
Arena* g_arena;
Allocator g_under; // the pool below the thread-safe allocator
enum { HOST, ARENA, QUICK, LIST, FIXED, LIMIT, ALIGN, TSAFE, SHIM, MIXED, UNTR, MONO, SLOT, NAMED };

std::string S(std::size_t n)
{
  return std::to_string(n);
}

// memory whose blocks the library does not track, so nothing can be copied to it
Allocator g_sink_a;
Arena* g_sink;

void make_world()
{
  auto& rm = ResourceManager::getInstance();
  auto add = [&](Allocator a, const char* label, bool tracked, bool pool, std::size_t max) {
    g_a.push_back({a, label, tracked, pool, max, true});
  };
  add(rm.getAllocator("HOST"), "host", true, false, 0);
  auto ar = rm.makeAllocator<Arena>("w_arena");
  g_arena = static_cast<Arena*>(ar.getAllocationStrategy());
  add(ar, "arena", true, false, 0);
  add(rm.makeAllocator<us::QuickPool>("w_quick", ar, 512, 256, 16), "quick", true, true, 0);
  add(rm.makeAllocator<us::DynamicPoolList>("w_list", ar, 512, 256, 16), "list", true, true, 0);
  add(rm.makeAllocator<us::FixedPool>("w_fixed", ar, 40, 4), "fixed", true, true, 40);
  add(rm.makeAllocator<us::SizeLimiter>("w_limit", ar, 200), "limit", true, false, 0);
  add(rm.makeAllocator<us::AlignedAllocator>("w_align", ar, 64), "align", true, false, 0);
  auto q2 = rm.makeAllocator<us::QuickPool>("w_quick2", ar, 512, 256, 16);
  g_under = q2;
  add(rm.makeAllocator<us::ThreadSafeAllocator>("w_tsafe", q2), "tsafe", true, false, 0);
  add(rm.makeAllocator<us::NamingShim>("w_shim", ar), "shim", true, false, 0);
  add(rm.makeAllocator<us::MixedPool>("w_mixed", ar, 16, 64, 128, 2, 512, 256, 16), "mixed", true, true, 0);
  add(rm.makeAllocator<us::QuickPool, false>("w_untr", ar, 512, 256, 16), "untracked", false, true, 0);
  add(rm.makeAllocator<us::MonotonicAllocationStrategy>("w_mono", ar, 1 << 20), "mono", true, false, 0);
  g_a.back().exact = false;
  add(rm.makeAllocator<us::SlotPool>("w_slot", ar, 8), "slot", true, false, 0);
  g_a.back().exact = false;
  add(rm.makeAllocator<us::NamedAllocationStrategy>("w_named", ar), "named", true, false, 0);
  g_sink_a = rm.makeAllocator<Arena, false>("w_sink");
  g_sink = static_cast<Arena*>(g_sink_a.getAllocationStrategy());
}

// fixed pools hand out objects of one size
std::size_t fit(int a, std::size_t n)
{
  return g_a[a].max && n ? g_a[a].max : n;
}

struct Live {
  char* p;
  std::size_t n;
  int a;
  std::string name;
  std::vector<unsigned char> data;
};

struct Stat {
  std::size_t cur, count, actual;
  bool operator==(const Stat& o) const
  {
    return cur == o.cur && count == o.count && actual == o.actual;
  }
};

Stat stat(Allocator& a)
{
  return {a.getCurrentSize(), a.getAllocationCount(), a.getActualSize()};
}

struct RecKey {
  void* p;
  std::size_t n;
  std::string name;
  bool operator<(const RecKey& o) const
  {
    return std::tie(p, n, name) < std::tie(o.p, o.n, o.name);
  }
  bool operator==(const RecKey& o) const
  {
    return p == o.p && n == o.n && name == o.name;
  }
};

std::multiset<RecKey> records(Allocator a)
{
  std::multiset<RecKey> s;
  for (auto& r : umpire::get_allocator_records(a))
    s.insert({r.ptr, r.size, r.name});
  return s;
}

// Everything observable without changing it.
struct Snap {
  std::vector<Stat> st;
  std::vector<std::size_t> hwm;
  std::vector<std::multiset<RecKey>> rec;
};

Snap snap(bool recs = true)
{
  Snap s;
  for (auto& x : g_a) {
    s.st.push_back(stat(x.a));
    s.hwm.push_back(x.a.getHighWatermark());
    if (recs)
      s.rec.push_back(records(x.a));
  }
  return s;
}

std::string diff(const Snap& a, const Snap& b, bool hwm = true)
{
  for (std::size_t i = 0; i < g_a.size(); ++i) {
    if (!(a.st[i] == b.st[i]))
      return "statistics of " + g_a[i].label + " changed (size " + S(a.st[i].cur) + " -> " + S(b.st[i].cur) +
             ", count " + S(a.st[i].count) + " -> " + S(b.st[i].count) + ", actual " + S(a.st[i].actual) + " -> " +
             S(b.st[i].actual) + ")";
    if (hwm && a.hwm[i] != b.hwm[i])
      return "high watermark of " + g_a[i].label + " changed";
    if (i < a.rec.size() && i < b.rec.size() && !(a.rec[i] == b.rec[i]))
      return "records of " + g_a[i].label + " changed";
  }
  return "";
}

struct W {
  mc::Ctx& c;
  std::vector<Live> live;
  std::vector<char*> freed;
  int serial{0};

  explicit W(mc::Ctx& cc) : c(cc)
  {
    g_refuse = 0;
    g_count = false;
    g_refused = false;
    g_arena->err.clear();
  }

  void fill(Live& l)
  {
    l.data.resize(l.n);
    for (std::size_t i = 0; i < l.n; ++i)
      l.p[i] = l.data[i] = (unsigned char)(17 * (serial + 1) + 3 * i + 1);
    ++serial;
  }

  // the contents of every live allocation are what was written
  std::string contents() const
  {
    for (auto& l : live)
      if (l.n && memcmp(l.p, l.data.data(), l.n) != 0)
        return "contents of a live allocation of " + g_a[l.a].label + " changed";
    return "";
  }

  int owner(const char* q) const
  {
    for (std::size_t i = 0; i < live.size(); ++i)
      if (g_a[live[i].a].tracked && (q == live[i].p || (q >= live[i].p && q < live[i].p + live[i].n)))
        return (int)i;
    return -1;
  }

  bool alloc(int a, std::size_t n, const std::string& name)
  {
    c.step();
    if (c.verbose)
      c.log("allocate " + S(n) + " from " + g_a[a].label + (name.empty() ? "" : " as \"" + name + "\""));
    void* p = nullptr;
    try {
      p = name.empty() ? g_a[a].a.allocate(n) : g_a[a].a.allocate(name, n);
    } catch (std::exception& e) {
      if (a == LIMIT)
        return false; // its limit is reached
      c.prune("allocation refused");
    }
    Live l{static_cast<char*>(p), n, a, name, {}};
    fill(l);
    live.push_back(l);
    return true;
  }

  void drop(std::size_t i, int via)
  {
    c.step();
    Live l = live[i];
    if (c.verbose)
      c.log("free #" + S(i) + " (" + g_a[l.a].label + ", " + S(l.n) + " bytes)" + (via ? " through the resource manager" : ""));
    live.erase(live.begin() + i);
    if (via)
      ResourceManager::getInstance().deallocate(l.p);
    else
      g_a[l.a].a.deallocate(l.p);
    freed.push_back(l.p);
  }

  void finish()
  {
    try {
      while (!live.empty()) {
        Live l = live.back();
        live.pop_back();
        g_a[l.a].a.deallocate(l.p);
      }
      for (auto& x : g_a)
        if (x.pool)
          x.a.release();
      g_under.release();
    } catch (std::exception& e) {
      c.prune(std::string("clean-up failed: ") + e.what());
    }
  }

  uint64_t hash() const
  {
    mc::Hash h;
    for (auto& l : live)
      h.add(l.a).add(l.n).add(l.name);
    h.add(freed.size());
    for (auto& x : g_a)
      h.add(x.a.getActualSize());
    return h.h;
  }
};

// run f; returns 0 no exception, 1 unknown_pointer_error, 2 runtime_error family, 3 other
template <typename F>
int attempt(F&& f)
{
  try {
    f();
    return 0;
  } catch (umpire::unknown_pointer_error&) {
    return 1;
  } catch (umpire::runtime_error&) {
    return 2;
  } catch (std::exception&) {
    return 3;
  }
}

// ---------------------------------------------------------------- P03

void probe(W& w, char* q, const char* what, bool full)
{
  mc::Ctx& c = w.c;
  auto& rm = ResourceManager::getInstance();
  int i = w.owner(q);
  bool has = rm.hasAllocator(q);
  c.require_f(has == (i >= 0), [&] {
    return std::string("hasAllocator of ") + what + (i >= 0 ? " is false for a live allocation" : " is true for an unknown address");
  });
  if (i < 0 && !full)
    return;
  int id = -1;
  int e = attempt([&] { id = rm.getAllocator(static_cast<void*>(q)).getId(); });
  std::size_t size = 0;
  int e2 = attempt([&] { size = rm.getSize(q); });
  const umpire::util::AllocationRecord* r = nullptr;
  int e3 = attempt([&] { r = rm.findAllocationRecord(q); });
  if (i < 0) {
    c.require_f(e != 0, [&] { return std::string("getAllocator(") + what + ") does not report an unknown address"; });
    c.require_f(e2 != 0, [&] { return std::string("getSize(") + what + ") does not report an unknown address"; });
    c.require_f(e3 != 0, [&] { return std::string("findAllocationRecord(") + what + ") does not report an unknown address"; });
    return;
  }
  Live& l = w.live[i];
  c.require_f(e == 0 && e2 == 0 && e3 == 0, [&] { return std::string("an address of a live allocation is unknown: ") + what; });
  c.require_f(id == g_a[l.a].a.getId(), [&] { return std::string("getAllocator(") + what + ") names another allocator"; });
  c.require_f(size == l.n, [&] { return std::string("getSize(") + what + ") is " + S(size) + ", not " + S(l.n); });
  c.require_f(g_a[l.a].a.getSize(q) == l.n, [&] { return std::string("Allocator::getSize(") + what + ") is not " + S(l.n); });
  c.require_f(r && r->ptr == l.p && r->size == l.n && r->name == l.name && r->strategy == g_a[l.a].a.getAllocationStrategy(),
              [&] { return std::string("the record of ") + what + " is not that of the live allocation"; });
}

void introspect(W& w, const std::vector<int>& as, bool full)
{
  mc::Ctx& c = w.c;
  if (c.replayed())
    return;
  for (std::size_t k = 0; k < w.live.size(); ++k) {
    char* p = w.live[k].p;
    std::size_t n = w.live[k].n;
    probe(w, p, "a live allocation", full);
    probe(w, p - 1, "the byte before an allocation", full);
    probe(w, p + n, "one past the end of an allocation", full);
    probe(w, p + n + 1, "two past the end of an allocation", full);
    if (n > 1) {
      probe(w, p + 1, "the second byte of an allocation", full);
      probe(w, p + n / 2, "the middle of an allocation", full);
      probe(w, p + n - 1, "the last byte of an allocation", full);
    }
  }
  for (char* q : w.freed)
    probe(w, q, "a freed address", full);
  int local = 0;
  if (w.live.empty())
    probe(w, reinterpret_cast<char*>(&local), "a stack address", full);
  for (int a : as) {
    std::multiset<RecKey> want;
    for (auto& l : w.live)
      if (l.a == a && g_a[a].tracked)
        want.insert({l.p, l.n, l.name});
    auto got = records(g_a[a].a);
    c.require_f(got == want, [&] {
      return "get_allocator_records of " + g_a[a].label + " lists " + S(got.size()) + " records that are not its " +
             S(want.size()) + " live allocations";
    });
  }
}

void print_check(W& w, int a)
{
  std::ostringstream os;
  umpire::print_allocator_records(g_a[a].a, os);
  std::string t = os.str();
  std::size_t lines = 0, pos = 0;
  while ((pos = t.find("size: ", pos)) != std::string::npos) {
    ++lines;
    ++pos;
  }
  std::size_t want = 0;
  for (auto& l : w.live)
    if (l.a == a && g_a[a].tracked) {
      ++want;
      std::ostringstream x;
      x << "size: " << l.n << ", range: " << (void*)l.p << " -- " << (void*)(l.p + l.n) << ", name: " << l.name;
      w.c.require_f(t.find(x.str()) != std::string::npos,
                    [&] { return "print_allocator_records of " + g_a[a].label + " misses a live allocation"; });
    }
  w.c.require_f(lines == want, [&] { return "print_allocator_records of " + g_a[a].label + " does not list exactly the live allocations"; });
}

void p03(mc::Ctx& c, const std::vector<int>& as, const std::vector<std::size_t>& sizes, int depth)
{
  W w(c);
  int nalloc = (int)(as.size() * sizes.size());
  for (int d = 0; d < depth; ++d) {
    int nl = (int)w.live.size();
    int k = c.choose(nalloc + 1 + 2 * nl);
    if (k < nalloc) {
      int a = as[k / sizes.size()];
      std::size_t n = sizes[k % sizes.size()];
      n = fit(a, n);
      w.alloc(a, n, "");
    } else if (k == nalloc) {
      w.alloc(as[d % as.size()], fit(as[d % as.size()], 8), "name " + S(d));
    } else {
      int j = k - nalloc - 1;
      int i = j / 2;
      if (!g_a[w.live[i].a].tracked && j % 2)
        w.drop(i, 0); // cannot be found by the resource manager
      else
        w.drop(i, j % 2);
    }
    introspect(w, as, d + 1 == depth && w.live.size() <= 2);
    c.state(w.hash());
  }
  for (int a : as)
    print_check(w, a);
  w.finish();
}

// Lookups as part of the history: after every operation one address is looked
// up, and it is the first one looked up again after the next operation, so
// that whatever a lookup leaves behind cannot outlive a change.
void p03_requery(mc::Ctx& c, const std::vector<int>& as, const std::vector<std::size_t>& sizes, int depth)
{
  W w(c);
  std::vector<char*> gone;
  char* last = nullptr;
  int nalloc = (int)(as.size() * sizes.size());
  for (int d = 0; d < depth; ++d) {
    int k = c.choose(nalloc + (int)w.live.size());
    if (k < nalloc) {
      int a = as[k / sizes.size()];
      w.alloc(a, fit(a, sizes[k % sizes.size()]), "");
    } else {
      Live l = w.live[k - nalloc];
      gone.push_back(l.p + l.n / 2);
      gone.push_back(l.p + l.n - 1);
      w.drop(k - nalloc, 0);
    }
    if (last)
      probe(w, last, "the address that was looked up last", true);
    std::vector<char*> q = gone;
    for (auto& l : w.live) {
      q.push_back(l.p);
      q.push_back(l.p + l.n / 2);
      q.push_back(l.p + l.n - 1);
      q.push_back(l.p + l.n);
    }
    if (d + 1 < depth) {
      last = q[c.choose((int)q.size())];
      if (c.verbose) {
        std::ostringstream os;
        os << "look up " << (void*)last;
        c.log(os.str());
      }
      probe(w, last, "an address", true);
    } else
      for (char* x : q)
        probe(w, x, "an address", true);
    c.state(w.hash());
  }
  w.finish();
}

// Externally registered ranges at chosen addresses, including the ends of the
// address space and ranges that share judy prefixes.
void p03_external(mc::Ctx& c, int depth)
{
  static const uintptr_t bases[] = {0x1, 0x10, 0xff, 0x100, 0x7fff00000000ull, 0x7fff00000100ull, 0x7fffffffffffull,
                                    0x8000000000000000ull, 0xffffffffffffff00ull};
  static const std::size_t sizes[] = {0, 1, 16};
  constexpr int NB = sizeof(bases) / sizeof(bases[0]);
  auto& rm = ResourceManager::getInstance();
  auto* st = g_arena;
  struct X {
    uintptr_t b;
    std::size_t n;
  };
  std::vector<X> live;
  auto check = [&] {
    if (c.replayed())
      return;
    for (int i = 0; i < NB; ++i)
      for (int o = -1; o <= 17; o += (o < 1 || o >= 15) ? 1 : 7) {
        uintptr_t q = bases[i] + o;
        if (!q)
          continue;
        const X* x = nullptr;
        for (auto& l : live)
          if (q == l.b || (q >= l.b && q - l.b < l.n))
            x = &l;
        bool has = rm.hasAllocator(reinterpret_cast<void*>(q));
        c.require_f(has == (x != nullptr), [&] {
          std::ostringstream os;
          os << "hasAllocator(0x" << std::hex << q << ") is " << has;
          return os.str();
        });
        if (x) {
          const umpire::util::AllocationRecord* r = nullptr;
          int e = attempt([&] { r = rm.findAllocationRecord(reinterpret_cast<void*>(q)); });
          c.require(e == 0 && r->ptr == reinterpret_cast<void*>(x->b) && r->size == x->n && r->strategy == st,
                    "the record found is not that of the range containing the address");
        }
      }
    std::multiset<RecKey> want;
    for (auto& l : live)
      want.insert({reinterpret_cast<void*>(l.b), l.n, ""});
    c.require(records(g_a[ARENA].a) == want, "the listed records are not the registered ranges");
  };
  for (int d = 0; d < depth; ++d) {
    c.step();
    int k = c.choose(NB * 3);
    uintptr_t b = bases[k / 3];
    std::size_t n = sizes[k % 3];
    int at = -1;
    bool clash = false;
    for (std::size_t i = 0; i < live.size(); ++i) {
      if (live[i].b == b)
        at = (int)i;
      else if ((live[i].b < b && b - live[i].b < live[i].n) || (b < live[i].b && live[i].b - b < n))
        clash = true;
    }
    if (at >= 0) {
      c.log("deregister " + S(b));
      umpire::util::AllocationRecord r;
      int e = attempt([&] { r = umpire::deregister_external_allocation(reinterpret_cast<void*>(b)); });
      c.require(e == 0 && r.size == live[at].n, "deregistering a registered range fails or returns another record");
      live.erase(live.begin() + at);
    } else if (!clash) {
      c.log("register " + S(b) + " size " + S(n));
      umpire::register_external_allocation(reinterpret_cast<void*>(b), {reinterpret_cast<void*>(b), n, st});
      live.push_back({b, n});
    } else {
      break; // live ranges never overlap here
    }
    check();
    mc::Hash h;
    for (auto& l : live)
      h.add(l.b).add(l.n);
    c.state(h.h);
  }
  for (auto& l : live)
    umpire::deregister_external_allocation(reinterpret_cast<void*>(l.b));
}

// Ranges of gigabytes.
void p03_external_giga(mc::Ctx& c, int depth)
{
  const uintptr_t base = 0x100000000000ull, gap = std::size_t(1) << 41;
  static const std::size_t sizes[] = {24, (std::size_t(1) << 31) + 8, std::size_t(1) << 32, (std::size_t(5) << 30) + 1, std::size_t(1) << 40};
  constexpr int NS = 5, NB = 4;
  auto& rm = ResourceManager::getInstance();
  auto* st = g_arena;
  std::size_t live[NB] = {};
  auto ptr = [](uintptr_t q) { return reinterpret_cast<void*>(q); };
  for (int d = 0; d < depth; ++d) {
    c.step();
    int k = c.choose(NB * NS);
    int b = k / NS;
    std::size_t n = sizes[k % NS];
    if (live[b]) {
      if (k % NS)
        break; // one way to deregister
      umpire::util::AllocationRecord r;
      int e = attempt([&] { r = umpire::deregister_external_allocation(ptr(base + b * gap)); });
      c.require(e == 0 && r.size == live[b], "deregistering a registered range fails or returns another record");
      live[b] = 0;
    } else {
      umpire::register_external_allocation(ptr(base + b * gap), {ptr(base + b * gap), n, st});
      live[b] = n;
    }
    c.log((live[b] ? "register " : "deregister ") + S(b) + " size " + S(n));
    if (!c.replayed())
      for (int i = 0; i < NB; ++i) {
        std::set<std::size_t> os = {0};
        for (std::size_t x : sizes)
          for (std::size_t o : {x - 1, x, x + 1})
            os.insert(o);
        for (std::size_t o : os) {
          uintptr_t q = base + i * gap + o;
          bool in = live[i] && o < live[i];
          c.require_f(rm.hasAllocator(ptr(q)) == in, [&] { return "an address at offset " + S(o) + " of a range of " + S(live[i]) + " bytes is reported wrongly"; });
          const umpire::util::AllocationRecord* r = nullptr;
          int e = attempt([&] { r = rm.findAllocationRecord(ptr(q)); });
          c.require_f(in ? e == 0 && r->ptr == ptr(base + i * gap) && r->size == live[i] && r->strategy == st : e != 0,
                      [&] { return "the record found at offset " + S(o) + " of a range of " + S(live[i]) + " bytes is wrong"; });
        }
      }
    mc::Hash h;
    for (std::size_t l : live)
      h.add(l);
    c.state(h.h);
  }
  for (int i = 0; i < NB; ++i)
    if (live[i])
      umpire::deregister_external_allocation(ptr(base + i * gap));
}

// ---------------------------------------------------------------- P10

void p10(mc::Ctx& c, const std::vector<int>& as, const std::vector<std::size_t>& sizes, int depth)
{
  W w(c);
  auto& rm = ResourceManager::getInstance();
  static int never_allocated;
  int nalloc = (int)(as.size() * sizes.size());
  for (int d = 0; d < depth; ++d) {
    int nl = (int)w.live.size();
    int k = c.choose(nalloc + 2 * nl);
    if (k < nalloc) {
      int a = as[k / sizes.size()];
      std::size_t n = sizes[k % sizes.size()];
      n = fit(a, n);
      w.alloc(a, n, k % 2 ? "n" + S(d) : "");
    } else {
      int j = k - nalloc;
      w.drop(j / 2, j % 2 && g_a[w.live[j / 2].a].tracked);
    }
    c.state(w.hash());
  }
  // every invalid free, from the state reached
  struct Bad {
    char* q;
    int via; // allocator index, or -1 for the resource manager
    const char* what;
  };
  std::vector<Bad> bad;
  auto start = [&](char* q, int a) {
    for (auto& l : w.live)
      if (l.p == q && (a < 0 || l.a == a))
        return true;
    return false;
  };
  std::vector<std::pair<char*, const char*>> qs;
  for (auto& l : w.live) {
    qs.push_back({l.p, "a pointer owned by another allocator"});
    qs.push_back({l.p - 1, "the byte before an allocation"});
    qs.push_back({l.p + l.n, "one past the end"});
    if (l.n > 1) {
      qs.push_back({l.p + 1, "an interior pointer"});
      qs.push_back({l.p + l.n - 1, "the last byte"});
    }
  }
  for (char* q : w.freed)
    qs.push_back({q, "a freed pointer"});
  qs.push_back({reinterpret_cast<char*>(&never_allocated), "memory that was never allocated"});
  for (auto& q : qs) {
    if (q.first == nullptr)
      continue;
    for (int a : as)
      if (g_a[a].tracked && !start(q.first, a))
        bad.push_back({q.first, a, q.second});
    if (!start(q.first, -1))
      bad.push_back({q.first, -1, q.second});
  }
  for (auto& b : bad) {
    c.step();
    Snap before = snap();
    std::string how = std::string("freeing ") + b.what + " through " + (b.via < 0 ? "the resource manager" : g_a[b.via].label);
    c.log(how);
    int e = attempt([&] {
      if (b.via < 0)
        rm.deallocate(b.q);
      else
        g_a[b.via].a.deallocate(b.q);
    });
    c.require_f(e == 1 || e == 2, [&] { return how + (e ? " raises an error of another kind" : " is not rejected"); });
    std::string df = diff(before, snap());
    c.require_f(df.empty(), [&] { return how + ": " + df; });
    std::string ct = w.contents();
    c.require_f(ct.empty(), [&] { return how + ": " + ct; });
    for (auto& l : w.live)
      if (g_a[l.a].tracked)
        c.require_f(rm.hasAllocator(l.p) && rm.getAllocator((void*)l.p).getId() == g_a[l.a].a.getId(),
                    [&] { return how + " disturbs another allocation's record"; });
  }
  {
    Snap before = snap();
    for (int a : as)
      g_a[a].a.deallocate(nullptr);
    std::string df = diff(before, snap());
    c.require_f(df.empty(), [&] { return "deallocating null: " + df; });
  }
  // the owner can still free everything
  for (int round = 0; !w.live.empty(); ++round) {
    Live l = w.live.back();
    w.live.pop_back();
    Stat s0 = stat(g_a[l.a].a);
    int via = g_a[l.a].tracked ? round % 2 : 0;
    int e = attempt([&] {
      if (via)
        rm.deallocate(l.p);
      else
        g_a[l.a].a.deallocate(l.p);
    });
    c.require(e == 0, "the owner cannot free its allocation after rejected frees");
    if (g_a[l.a].tracked && g_a[l.a].exact) {
      Stat s1 = stat(g_a[l.a].a);
      c.require(s1.cur + l.n == s0.cur && s1.count + 1 == s0.count, "statistics after the owner's free are wrong");
    }
  }
  w.finish();
}

// ---------------------------------------------------------------- P11

camp::resources::Resource& ctx()
{
  static camp::resources::Resource r{camp::resources::Host{}};
  return r;
}

constexpr std::size_t BIG = ~std::size_t(0);

// two allocations with sizes s and t, with guards (and neighbours) around them
void p11_copy(mc::Ctx& c, int aa, int ab, std::size_t smax)
{
  auto& rm = ResourceManager::getInstance();
  W w(c);
  std::size_t s = (std::size_t)c.choose((int)smax + 1);
  std::size_t t = (std::size_t)c.choose((int)smax + 1);
  int same = c.choose(2); // source and destination inside one allocation
  if (same && (aa != ab || s != t || s < 2))
    return;
  // neighbours in the same pools
  if (!w.alloc(aa, s, "") || !w.alloc(ab, 9, "") || (!same && !w.alloc(ab, t, "")) ||
      !w.alloc(aa, 5, "")) {
    w.finish();
    return;
  }
  const int si = 0, di = same ? 0 : 2;
  char* sp = w.live[si].p;
  char* dp = w.live[di].p;
  std::size_t dn = w.live[di].n;
  std::vector<std::size_t> lens;
  for (std::size_t l = 0; l <= smax + 2; ++l)
    lens.push_back(l);
  for (std::size_t k = 0; k <= smax; ++k)
    lens.push_back(BIG - k);
  lens.push_back(BIG / 2);
  lens.push_back(BIG / 2 + 1);
  for (int async = 0; async < 2; ++async)
    for (std::size_t so = 0; so < (s ? s : 1); ++so)
      for (std::size_t to = 0; to < (dn ? dn : 1); ++to)
        for (std::size_t len : lens) {
          std::size_t want = len ? len : s - so;
          bool ok = want <= s - so && want <= dn - to;
          if (same && ok) {
            // only non-overlapping ranges
            if (so < to + want && to < so + want)
              continue;
          }
          c.step();
          for (auto& l : w.live)
            w.fill(l);
          auto expect = w.live[di].data;
          if (ok)
            for (std::size_t i = 0; i < want; ++i)
              expect[to + i] = w.live[si].data[so + i];
          int e = attempt([&] {
            if (async)
              rm.copy(dp + to, sp + so, ctx(), len);
            else
              rm.copy(dp + to, sp + so, len);
          });
          auto how = [&] {
            return std::string(async ? "asynchronous " : "") + "copy of " + S(len) + " bytes from offset " + S(so) + " of " + S(s) +
                   " (" + g_a[aa].label + ") to offset " + S(to) + " of " + S(dn) + " (" + g_a[ab].label + ")";
          };
          if (ok)
            c.require_f(e == 0, [&] { return how() + " is refused"; });
          else
            c.require_f(e == 1 || e == 2, [&] { return how() + (want > s - so ? " reads past the source" : " writes past the destination"); });
          w.live[di].data = expect;
          std::string ct = w.contents();
          c.require_f(ct.empty(), [&] { return how() + ": " + ct; });
        }
  g_arena->check_all();
  c.require_f(g_arena->err.empty(), [&] { return g_arena->err; });
  // unknown pointers
  int local[4] = {1, 2, 3, 4};
  char* f = nullptr;
  {
    f = static_cast<char*>(g_a[ARENA].a.allocate(8));
    g_a[ARENA].a.deallocate(f);
  }
  std::vector<char*> unknown = {reinterpret_cast<char*>(local), nullptr, f};
  for (auto& l : w.live)
    if (w.owner(l.p + l.n) < 0)
      unknown.push_back(l.p + l.n);
  for (char* q : unknown)
    for (int async = 0; async < 2; ++async)
      for (int dir = 0; dir < 2; ++dir)
        for (std::size_t len : {std::size_t(0), std::size_t(1), BIG}) {
          if (w.owner(q) >= 0)
            continue;
          c.step();
          for (auto& l : w.live)
            w.fill(l);
          int e = attempt([&] {
            void* d = dir ? q : dp;
            void* s2 = dir ? sp : q;
            if (async)
              rm.copy(d, s2, ctx(), len);
            else
              rm.copy(d, s2, len);
          });
          c.require_f(e == 1 || e == 2, [&] { return std::string("copy ") + (dir ? "to" : "from") + " an unknown pointer is not refused"; });
          std::string ct = w.contents();
          c.require_f(ct.empty() && local[0] == 1 && local[1] == 2 && local[2] == 3 && local[3] == 4,
                      [&] { return "a refused copy changes memory: " + ct; });
        }
  c.state(mc::Hash().add(aa).add(ab).add(s).add(t).add(same).h);
  w.finish();
}

void p11_memset(mc::Ctx& c, int a, std::size_t smax)
{
  auto& rm = ResourceManager::getInstance();
  W w(c);
  std::size_t s = (std::size_t)c.choose((int)smax + 1);
  static const int values[] = {0, 0xab, -1, 0x1ff, 0x1234};
  int v = values[c.choose(5)];
  if (!w.alloc(a, 5, "") || !w.alloc(a, s, "") || !w.alloc(a, 5, "")) {
    w.finish();
    return;
  }
  std::vector<std::size_t> lens;
  for (std::size_t l = 0; l <= smax + 2; ++l)
    lens.push_back(l);
  for (std::size_t k = 0; k <= smax; ++k)
    lens.push_back(BIG - k);
  lens.push_back(BIG / 2 + 1);
  char* p = w.live[1].p;
  for (int async = 0; async < 2; ++async)
    for (std::size_t o = 0; o < (s ? s : 1); ++o)
      for (std::size_t len : lens) {
        c.step();
        std::size_t want = len ? len : s - o;
        bool ok = want <= s - o;
        for (auto& l : w.live)
          w.fill(l);
        if (ok)
          for (std::size_t i = 0; i < want; ++i)
            w.live[1].data[o + i] = (unsigned char)v;
        int e = attempt([&] {
          if (async)
            rm.memset(p + o, v, ctx(), len);
          else
            rm.memset(p + o, v, len);
        });
        auto how = [&] {
          return std::string(async ? "asynchronous " : "") + "memset of " + S(len) + " bytes at offset " + S(o) + " of " + S(s) + " (" +
                 g_a[a].label + ")";
        };
        c.require_f(ok ? e == 0 : (e == 1 || e == 2), [&] { return how() + (ok ? " is refused" : " is not refused"); });
        std::string ct = w.contents();
        c.require_f(ct.empty(), [&] { return how() + ": " + ct; });
      }
  int local[2] = {7, 8};
  for (int async = 0; async < 2; ++async)
    for (std::size_t len : {std::size_t(0), std::size_t(1), BIG})
      for (void* q : {(void*)local, (void*)nullptr}) {
        int e = attempt([&] {
          if (async)
            rm.memset(q, v, ctx(), len);
          else
            rm.memset(q, v, len);
        });
        c.require(e == 1 || e == 2, "memset of an unknown pointer is not refused");
        c.require(local[0] == 7 && local[1] == 8, "a refused memset changes memory");
      }
  g_arena->check_all();
  c.require_f(g_arena->err.empty(), [&] { return g_arena->err; });
  c.state(mc::Hash().add(a).add(s).add(v).h);
  w.finish();
}

// The same for large blocks: boundary offsets and lengths.
const std::vector<std::size_t>& large_sizes()
{
  static const std::vector<std::size_t> v = {15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 4095, 4096, 4097, 65535, 65536, 65537, (1 << 20) + 3};
  return v;
}

std::vector<std::size_t> offsets_of(std::size_t n)
{
  std::set<std::size_t> o;
  for (std::size_t x : {std::size_t(0), std::size_t(1), std::size_t(7), std::size_t(8), n / 2, n - 9, n - 8, n - 1})
    if (x < n && (n < 5000 || x < 2 || x == n - 1 || x == n / 2))
      o.insert(x);
  return {o.begin(), o.end()};
}

void p11_copy_large(mc::Ctx& c, int aa, int ab)
{
  auto& rm = ResourceManager::getInstance();
  W w(c);
  const auto& sz = large_sizes();
  std::size_t s = sz[c.choose((int)sz.size())];
  std::vector<std::size_t> ts;
  for (std::size_t t : {s - 1, s, s + 1, s / 2, 2 * s})
    ts.push_back(t);
  std::size_t t = ts[c.choose((int)ts.size())];
  if (!w.alloc(aa, s, "") || !w.alloc(ab, 9, "") || !w.alloc(ab, t, "") || !w.alloc(aa, 5, "")) {
    w.finish();
    return;
  }
  char* sp = w.live[0].p;
  char* dp = w.live[2].p;
  for (auto& l : w.live)
    w.fill(l);
  for (int async = 0; async < 2; ++async)
    for (std::size_t so : offsets_of(s))
      for (std::size_t to : offsets_of(t)) {
        const std::size_t av = s - so, room = t - to;
        std::set<std::size_t> lens = {0, 1, av, av + 1, room, room + 1, s, t, BIG - s, BIG};
        if (s < 5000)
          for (std::size_t l : {std::size_t(8), av / 2, av - 1, room - 1, s + t, BIG - t, BIG / 2})
            lens.insert(l);
        for (std::size_t len : lens) {
          std::size_t want = len ? len : av;
          bool ok = want <= av && want <= room;
          if (s > 5000 && ok && want > 5000 && (so || to) && want != av && want != room)
            continue;
          c.step();
          auto saved = w.live[2].data;
          if (ok)
            memcpy(&w.live[2].data[to], &w.live[0].data[so], want);
          int e = attempt([&] {
            if (async)
              rm.copy(dp + to, sp + so, ctx(), len);
            else
              rm.copy(dp + to, sp + so, len);
          });
          auto how = [&] {
            return std::string(async ? "asynchronous " : "") + "copy of " + S(len) + " bytes from offset " + S(so) + " of " + S(s) +
                   " (" + g_a[aa].label + ") to offset " + S(to) + " of " + S(t) + " (" + g_a[ab].label + ")";
          };
          if (ok)
            c.require_f(e == 0, [&] { return how() + " is refused"; });
          else
            c.require_f(e == 1 || e == 2, [&] { return how() + (want > av ? " reads past the source" : " writes past the destination"); });
          std::string ct = w.contents();
          c.require_f(ct.empty(), [&] { return how() + ": " + ct; });
          if (ok) {
            memcpy(dp, saved.data(), t);
            w.live[2].data = saved;
          }
        }
      }
  g_arena->check_all();
  c.require_f(g_arena->err.empty(), [&] { return g_arena->err; });
  c.state(mc::Hash().add(aa).add(ab).add(s).add(t).h);
  w.finish();
}

void p11_memset_large(mc::Ctx& c, int a)
{
  auto& rm = ResourceManager::getInstance();
  W w(c);
  const auto& sz = large_sizes();
  std::size_t s = sz[c.choose((int)sz.size())];
  if (!w.alloc(a, 5, "") || !w.alloc(a, s, "") || !w.alloc(a, 5, "")) {
    w.finish();
    return;
  }
  for (auto& l : w.live)
    w.fill(l);
  char* p = w.live[1].p;
  int v = 3;
  for (int async = 0; async < 2; ++async)
    for (std::size_t o : offsets_of(s)) {
      const std::size_t av = s - o;
      std::set<std::size_t> lens = {0, 1, 8, av / 2, av - 1, av, av + 1, s, s + 1, BIG - s, BIG - o, BIG, BIG / 2 + 1};
      for (std::size_t len : lens) {
        std::size_t want = len ? len : av;
        bool ok = want <= av;
        v = (v + 37) & 255;
        c.step();
        if (ok)
          memset(&w.live[1].data[o], v, want);
        int e = attempt([&] {
          if (async)
            rm.memset(p + o, v, ctx(), len);
          else
            rm.memset(p + o, v, len);
        });
        auto how = [&] {
          return std::string(async ? "asynchronous " : "") + "memset of " + S(len) + " bytes at offset " + S(o) + " of " + S(s) + " (" +
                 g_a[a].label + ")";
        };
        c.require_f(ok ? e == 0 : (e == 1 || e == 2), [&] { return how() + (ok ? " is refused" : " is not refused"); });
        std::string ct = w.contents();
        c.require_f(ct.empty(), [&] { return how() + ": " + ct; });
      }
    }
  c.state(mc::Hash().add(a).add(s).h);
  w.finish();
}

// Memory of gigabytes that takes megabytes: the same few pages over and over,
// except around the multiples of a gigabyte and at both ends.
constexpr std::size_t GB = std::size_t(1) << 30;
struct Giga : public us::AllocationStrategy {
  struct B {
    char* base;
    std::size_t span;
  };
  std::map<char*, B> live;
  Giga(const std::string& name, int id) : us::AllocationStrategy{name, id, nullptr, "giga"}
  {
  }
  void* allocate(std::size_t n) override
  {
    const std::size_t page = 4096, piece = 8u << 20;
    std::size_t span = (n + page - 1) / page * page + 2 * page;
    char* base = static_cast<char*>(mmap(nullptr, span, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (base == MAP_FAILED)
      UMPIRE_ERROR(umpire::out_of_memory_error, "no address space");
    int fd = memfd_create("giga", 0);
    if (fd < 0 || ftruncate(fd, piece))
      UMPIRE_ERROR(umpire::out_of_memory_error, "no memory file");
    auto fixed = [&](char* at, std::size_t len, int f) {
      if (mmap(at, len, PROT_READ | PROT_WRITE, MAP_FIXED | (f < 0 ? MAP_PRIVATE | MAP_ANONYMOUS : MAP_SHARED), f, 0) == MAP_FAILED)
        abort();
    };
    char* p = base + page;
    std::size_t body = span - 2 * page;
    for (std::size_t o = 0; o < body; o += piece)
      fixed(p + o, std::min(piece, body - o), fd);
    close(fd);
    for (std::size_t o = 0; o <= body; o += GB)
      for (std::size_t at : {o - page, o})
        if (at < body)
          fixed(p + at, page, -1);
    if (body) {
      fixed(p + body - page, page, -1);
      if (body > page)
        fixed(p + body - 2 * page, page, -1);
    }
    // the last byte handed out ends the block
    live[p] = {base, span};
    return p;
  }
  void deallocate(void* p, std::size_t) override
  {
    auto it = live.find(static_cast<char*>(p));
    if (it == live.end())
      return;
    munmap(it->second.base, it->second.span);
    live.erase(it);
  }
  umpire::Platform getPlatform() noexcept override
  {
    return umpire::Platform::host;
  }
  umpire::MemoryResourceTraits getTraits() const noexcept override
  {
    return umpire::MemoryResourceTraits{};
  }
};

Allocator giga()
{
  auto& rm = ResourceManager::getInstance();
  return rm.isAllocator("w_giga") ? rm.getAllocator("w_giga") : rm.makeAllocator<Giga>("w_giga");
}

// The places of a block of n bytes that are written and read.
std::vector<std::size_t> giga_places(std::size_t n)
{
  std::set<std::size_t> v;
  for (std::size_t o = 0; o <= n; o += GB)
    for (std::size_t x : {o - 100, o - 1, o, o + 1, o + 200})
      if (x < n)
        v.insert(x);
  for (std::size_t k : {std::size_t(1), std::size_t(2), std::size_t(101), std::size_t(300)})
    if (k <= n)
      v.insert(n - k);
  return {v.begin(), v.end()};
}

void giga_fill(char* p, std::size_t n, unsigned salt)
{
  for (std::size_t x : giga_places(n))
    p[x] = (char)(1 + (x * 2654435761u + (x >> 28) * 31 + salt * 17) % 250);
}

void p11_giga(mc::Ctx& c)
{
  struct T {
    std::size_t so, to, len;
    bool set;
  };
  static const std::size_t s = 5 * GB + 100, t = 6 * GB + 8192;
  static const std::vector<T> ts = {
      {0, 0, 0, false},          {0, 0, 4 * GB, false},        {GB, 0, 0, false},           {0, GB, 4 * GB + 99, false},
      {0, 0, s + 1, false},      {4 * GB, 0, GB + 101, false}, {4 * GB, 4 * GB, 0, false},  {GB, 2 * GB, 4 * GB + 100, false},
      {0, 2 * GB, 0, false},     {0, 2 * GB, 4 * GB + 8193, false}, {4 * GB - 1, 4 * GB, 102, false}, {5 * GB - 1, 5 * GB, 0, false},
      {0, 0, 0, true},           {0, 0, 4 * GB + 1, true},     {0, 4 * GB, 0, true},        {0, 2 * GB, 4 * GB + 8193, true},
      {0, 0, t + 1, true},       {0, 4 * GB - 1, 2, true},     {0, 3 * GB, 2 * GB + 1, true}, {0, 0, 2 * GB + 1, true}};
  const int which = c.choose(2 * (int)ts.size());
  T k = ts[which / 2];
  int async = which % 2;
  if (async && !g_thorough && !k.so && !k.to && k.len && k.len < s)
    return;
  auto& rm = ResourceManager::getInstance();
  auto a = giga();
  c.step();
  char* sp = static_cast<char*>(a.allocate(s));
  char* dp = static_cast<char*>(a.allocate(t));
  giga_fill(sp, s, 1);
  giga_fill(dp, t, 2);
  std::map<std::size_t, char> want;
  const std::size_t len = k.len ? k.len : k.set ? t - k.to : s - k.so;
  const bool ok = len <= t - k.to && (k.set || len <= s - k.so);
  for (std::size_t x : giga_places(t))
    want[x] = ok && x >= k.to && x - k.to < len ? (k.set ? (char)0x5e : sp[k.so + (x - k.to)]) : dp[x];
  int e = attempt([&] {
    if (k.set && async)
      rm.memset(dp + k.to, 0x5e, ctx(), k.len);
    else if (k.set)
      rm.memset(dp + k.to, 0x5e, k.len);
    else if (async)
      rm.copy(dp + k.to, sp + k.so, ctx(), k.len);
    else
      rm.copy(dp + k.to, sp + k.so, k.len);
  });
  std::string how = std::string(async ? "asynchronous " : "") + (k.set ? "memset" : "copy") + " of " + S(k.len) + " bytes from " + S(k.so) + " of " + S(s) + " to " +
                    S(k.to) + " of " + S(t) + ": ";
  c.log(how);
  c.require_f(ok ? e == 0 : (e == 1 || e == 2), [&] { return how + (ok ? "refused" : "not refused"); });
  for (auto& x : want)
    c.require_f(dp[x.first] == x.second, [&] { return how + "byte " + S(x.first) + " is wrong"; });
  c.state(mc::Hash().add(k.so).add(k.to).add(k.len).add(k.set).add(async).h);
  a.deallocate(sp);
  a.deallocate(dp);
}

// Allocations of gigabytes are reallocated and moved.
void p12_giga(mc::Ctx& c)
{
  static const std::size_t sizes[] = {100, 2 * GB + 1, 4 * GB, 5 * GB + 17};
  auto& rm = ResourceManager::getInstance();
  Allocator as[] = {rm.getAllocator("HOST"), giga()};
  const int which = c.choose(2 * 3 * 4 * 4);
  int from = which % 2;
  int op = which / 2 % 3; // reallocate, asynchronously, move
  std::size_t n = sizes[which / 6 % 4];
  std::size_t m = sizes[which / 24];
  if (op == 2 && m != n)
    return;
  Allocator a = as[from], to = op == 2 ? as[1 - from] : a;
  if (op == 2 && from == 1 && n > 3 * GB)
    return; // would need the memory
  c.step();
  const std::size_t c0[2] = {as[0].getCurrentSize(), as[1].getCurrentSize()};
  char* p = static_cast<char*>(a.allocate(n));
  giga_fill(p, n, 3);
  std::map<std::size_t, char> want;
  for (std::size_t x : giga_places(n))
    if (x < m)
      want[x] = p[x];
  char* q = nullptr;
  int e = attempt([&] {
    q = static_cast<char*>(op == 0 ? rm.reallocate(p, m) : op == 1 ? rm.reallocate(p, m, ctx()) : rm.move(p, to));
  });
  std::string how = std::string(op == 2 ? "move" : op ? "asynchronous reallocate" : "reallocate") + " of " + S(n) + " bytes of " + a.getName() + " to " + S(m) + ": ";
  c.log(how);
  c.require_f(e == 0 && q, [&] { return how + "fails"; });
  for (auto& x : want)
    c.require_f(q[x.first] == x.second, [&] { return how + "byte " + S(x.first) + " is lost"; });
  c.require_f(rm.getSize(q) == m && rm.getAllocator(static_cast<void*>(q)).getId() == to.getId(), [&] { return how + "the record is wrong"; });
  c.require_f(rm.getAllocator(static_cast<void*>(q + m - 1)).getId() == to.getId(), [&] { return how + "the last byte is unknown"; });
  c.require_f(to.getCurrentSize() == c0[op == 2 ? 1 - from : from] + m, [&] { return how + "the current size is wrong"; });
  to.deallocate(q);
  c.require_f(as[0].getCurrentSize() == c0[0] && as[1].getCurrentSize() == c0[1], [&] { return how + "the current size does not return"; });
  c.state(mc::Hash().add(from).add(op).add(n).add(m).h);
}

void p11_values(mc::Ctx& c, int a)
{
  auto& rm = ResourceManager::getInstance();
  W w(c);
  int v = -300 + c.choose(900);
  if (!w.alloc(a, 5, "") || !w.alloc(a, 40, "") || !w.alloc(a, 5, ""))
    return;
  for (auto& l : w.live)
    w.fill(l);
  for (int async = 0; async < 2; ++async)
    for (std::size_t len : {0, 1, 17, 33}) {
      c.step();
      std::size_t want = len ? len : 33;
      memset(&w.live[1].data[7], v, want);
      int e = attempt([&] {
        if (async)
          rm.memset(w.live[1].p + 7, v, ctx(), len);
        else
          rm.memset(w.live[1].p + 7, v, len);
      });
      c.require_f(e == 0, [&] { return "memset with value " + std::to_string(v) + " is refused"; });
      std::string ct = w.contents();
      c.require_f(ct.empty(), [&] { return "memset with value " + std::to_string(v) + ": " + ct; });
    }
  w.finish();
}

// ---------------------------------------------------------------- P12

struct Expect {
  std::vector<Stat> st;
};

void p12(mc::Ctx& c, const std::vector<int>& as, const std::vector<std::size_t>& sizes, int depth, int faults)
{
  auto& rm = ResourceManager::getInstance();
  W w(c);
  int nfault = 0;
  const int ns = (int)sizes.size();
  g_refuse_malloc = false;
  for (int a : as)
    g_refuse_malloc |= a == HOST;
  for (int a : as) // their bookkeeping uses malloc
    g_refuse_malloc &= a != FIXED && a != MIXED;
  rm.setDefaultAllocator(g_a[as[0]].a);
  for (int d = 0; d < depth; ++d) {
    int nl = (int)w.live.size();
    int na = (int)as.size();
    // 0: allocate/realloc(null)  1: reallocate  2: move 3: rejected ones 4: free
    int op = c.choose(nl ? 5 : 1);
    c.step();
    Snap before = snap();
    auto begin = [&] {
      g_requests = 0;
      g_refused = false;
      g_refuse = nfault < faults ? c.choose(3) : 0; // none, first or second request refused
      g_count = true;
    };
    auto end = [&] {
      g_count = false;
      g_refuse = 0;
      if (g_refused) {
        ++nfault;
        c.deviation();
      }
    };
    // the statistics of every tracked allocator that is exact, apart from
    // those listed, are unchanged; those listed changed by delta
    auto stats_delta = [&](std::map<int, std::pair<long, long>> delta, const std::string& what) {
      Snap after = snap(false);
      for (std::size_t i = 0; i < g_a.size(); ++i) {
        if (!g_a[i].tracked || !g_a[i].exact || (int)i == ARENA)
          continue;
        auto it = delta.find((int)i);
        long ds = it == delta.end() ? 0 : it->second.first, dc = it == delta.end() ? 0 : it->second.second;
        c.require_f((long)after.st[i].cur == (long)before.st[i].cur + ds && (long)after.st[i].count == (long)before.st[i].count + dc,
                    [&] {
                      return what + ": " + g_a[i].label + " reports size " + S(after.st[i].cur) + " and count " + S(after.st[i].count) +
                             ", expected " + S(before.st[i].cur + ds) + " and " + S(before.st[i].count + dc);
                    });
        c.require_f(after.hwm[i] >= after.st[i].cur, [&] { return what + ": high watermark of " + g_a[i].label + " below its current size"; });
      }
    };
    auto recs_match = [&](const std::string& what) {
      for (int a : as) {
        std::multiset<RecKey> want;
        for (auto& l : w.live)
          if (l.a == a)
            want.insert({l.p, l.n, l.name});
        c.require_f(records(g_a[a].a) == want, [&] { return what + ": the records of " + g_a[a].label + " are not its live allocations"; });
      }
      std::string ct = w.contents();
      c.require_f(ct.empty(), [&] { return what + ": " + ct; });
      g_arena->check_all();
      c.require_f(g_arena->err.empty(), [&] { return what + ": " + g_arena->err; });
    };
    if (op == 0) {
      int k = c.choose(na * ns);
      int a = as[k / ns];
      std::size_t n = sizes[k % ns];
      n = fit(a, n);
      int form = a == as[0] ? c.choose(4) : 1 + 2 * c.choose(2);
      std::string what = "reallocate(null, " + S(n) + ") in " + g_a[a].label + " form " + S(form);
      c.log(what);
      void* p = nullptr;
      begin();
      int e = attempt([&] {
        p = form == 0   ? rm.reallocate(nullptr, n)
            : form == 1 ? rm.reallocate(nullptr, n, g_a[a].a)
            : form == 2 ? rm.reallocate(nullptr, n, ctx())
                        : rm.reallocate(nullptr, n, g_a[a].a, ctx());
      });
      end();
      if (e) {
        c.require_f(g_refused || (a == LIMIT && before.st[a].cur + n > 200), [&] { return what + " fails although memory is available"; });
        stats_delta({}, what + " (refused)");
        recs_match(what + " (refused)");
      } else {
        c.require_f(p != nullptr, [&] { return what + " returns null"; });
        Live l{static_cast<char*>(p), n, a, "", {}};
        w.fill(l);
        w.live.push_back(l);
        stats_delta({{a, {(long)n, 1}}}, what);
        recs_match(what);
      }
    } else if (op == 1) {
      int k = c.choose(nl * ns);
      int i = k / ns;
      Live old = w.live[i];
      std::size_t n = sizes[k % ns];
      n = fit(old.a, n);
      int form = c.choose(4);
      std::string what = "reallocate of " + S(old.n) + " to " + S(n) + " bytes in " + g_a[old.a].label + " form " + S(form);
      c.log(what);
      void* p = nullptr;
      Allocator al = g_a[old.a].a;
      begin();
      int e = attempt([&] {
        p = form == 0   ? rm.reallocate(old.p, n)
            : form == 1 ? rm.reallocate(old.p, n, al)
            : form == 2 ? rm.reallocate(old.p, n, ctx())
                        : rm.reallocate(old.p, n, al, ctx());
      });
      end();
      if (e) {
        c.require_f(g_refused || (old.a == LIMIT && before.st[old.a].cur + n > 200), [&] { return what + " fails although memory is available"; });
        c.require_f(n != 0, [&] { return what + " fails"; });
        stats_delta({}, what + " (refused)");
        recs_match(what + " (refused)");
      } else {
        Live nw{static_cast<char*>(p), n, old.a, "", {}};
        c.require_f(p != nullptr, [&] { return what + " returns null"; });
        for (std::size_t j = 0; j < w.live.size(); ++j)
          if ((int)j != i) {
            Live& o = w.live[j];
            c.require_f(o.p != nw.p && !(nw.p < o.p + o.n && o.p < nw.p + nw.n), [&] { return what + " yields memory of another live allocation"; });
          }
        std::size_t keep = std::min(old.n, n);
        c.require_f(keep == 0 || memcmp(nw.p, old.data.data(), keep) == 0, [&] { return what + " does not keep the contents"; });
        w.fill(nw);
        w.live[i] = nw;
        if (old.p != nw.p) {
          w.freed.push_back(old.p);
          c.require_f(w.owner(old.p) >= 0 || !rm.hasAllocator(old.p), [&] { return what + " leaves the old record"; });
        }
        stats_delta({{old.a, {(long)n - (long)old.n, 0}}}, what);
        recs_match(what);
      }
    } else if (op == 2) {
      int k = c.choose(nl * na);
      int i = k / na;
      Live old = w.live[i];
      int t = as[k % na];
      if (old.n != fit(t, old.n))
        continue;
      std::string what = "move of " + S(old.n) + " bytes from " + g_a[old.a].label + " to " + g_a[t].label;
      c.log(what);
      void* p = nullptr;
      begin();
      int e = attempt([&] { p = rm.move(old.p, g_a[t].a); });
      end();
      if (e) {
        c.require_f(g_refused || (t == LIMIT && before.st[t].cur + old.n > 200), [&] { return what + " fails although memory is available"; });
        stats_delta({}, what + " (refused)");
        recs_match(what + " (refused)");
      } else if (t == old.a) {
        c.require_f(p == old.p, [&] { return what + " does not return the pointer unchanged"; });
        stats_delta({}, what);
        recs_match(what);
      } else {
        c.require_f(p != nullptr && (p != old.p), [&] { return what + " returns the old pointer"; });
        Live nw{static_cast<char*>(p), old.n, t, "", {}};
        c.require_f(old.n == 0 || memcmp(nw.p, old.data.data(), old.n) == 0, [&] { return what + " does not keep the contents"; });
        w.fill(nw);
        w.live[i] = nw;
        w.freed.push_back(old.p);
        stats_delta({{old.a, {-(long)old.n, -1}}, {t, {(long)old.n, 1}}}, what);
        recs_match(what);
      }
    } else if (op == 3) {
      // every request that has to be rejected, with every size
      Snap s0 = before;
      int local = 0;
      for (int i = 0; i < nl; ++i) {
        Live& l = w.live[i];
        std::vector<std::pair<char*, int>> bad; // pointer, allocator (-1: none named)
        if (l.n > 1) {
          bad.push_back({l.p + 1, -1});
          bad.push_back({l.p + l.n - 1, l.a});
        }
        for (int a : as)
          if (a != l.a)
            bad.push_back({l.p, a});
        if (w.owner(l.p + l.n) < 0) {
          bad.push_back({l.p + l.n, -1});
          bad.push_back({l.p + l.n, l.a});
        }
        bad.push_back({reinterpret_cast<char*>(&local), -1});
        bad.push_back({reinterpret_cast<char*>(&local), l.a});
        for (char* q : w.freed)
          if (w.owner(q) < 0)
            bad.push_back({q, l.a});
        for (auto& b : bad)
          for (std::size_t n : sizes)
            for (int asyn = 0; asyn < 2; ++asyn) {
              int e = attempt([&] {
                if (b.second < 0) {
                  if (asyn)
                    rm.reallocate(b.first, n, ctx());
                  else
                    rm.reallocate(b.first, n);
                } else {
                  if (asyn)
                    rm.reallocate(b.first, n, g_a[b.second].a, ctx());
                  else
                    rm.reallocate(b.first, n, g_a[b.second].a);
                }
              });
              c.require_f(e == 1 || e == 2, [&] {
                return "reallocate to " + S(n) + " bytes of " +
                       (b.first == l.p ? "a pointer of another allocator" : w.owner(b.first) >= 0 ? "an interior pointer" : "an unknown pointer") +
                       " (" + g_a[l.a].label + ") is not rejected";
              });
            }
        // moving an interior or unknown pointer
        for (int a : as) {
          for (char* q : {l.p + (l.n > 1 ? 1 : 0), reinterpret_cast<char*>(&local)}) {
            if (q == l.p || (w.owner(q) >= 0 && w.live[w.owner(q)].a == a))
              continue;
            int e = attempt([&] { rm.move(q, g_a[a].a); });
            c.require(e == 1 || e == 2, "moving an interior or unknown pointer is not rejected");
          }
        }
      }
      // moving to where the data cannot be copied: memory the library does
      // not track, and the memory of files
      auto file = rm.getAllocator("FILE");
      for (int i = 0; i < nl; ++i) {
        Live& l = w.live[i];
        if (l.n == 0)
          continue;
        std::size_t fs = file.getCurrentSize(), fc = file.getAllocationCount();
        for (int k = 0; k < 2; ++k) {
          int e = attempt([&] { rm.move(l.p, k ? file : g_sink_a); });
          const char* to = k ? "the memory of files" : "memory that is not tracked";
          c.require_f(e == 1 || e == 2, [&] { return "moving from " + g_a[l.a].label + " to " + to + ", which cannot be copied to, raises no error"; });
          c.require_f(g_sink->live.empty() && file.getCurrentSize() == fs && file.getAllocationCount() == fc,
                      [&] { return "a failed move from " + g_a[l.a].label + " to " + to + " leaves a block behind"; });
        }
      }
      std::string df = diff(s0, snap());
      c.require_f(df.empty(), [&] { return "a rejected reallocate or move: " + df; });
      recs_match("a rejected reallocate or move");
    } else {
      int i = c.choose(nl);
      Live l = w.live[i];
      int e = attempt([&] { w.drop(i, d % 2); });
      c.require(e == 0, "an allocation obtained from reallocate or move cannot be freed");
      stats_delta({{l.a, {-(long)l.n, -1}}}, "freeing the result of reallocate or move");
      recs_match("freeing the result of reallocate or move");
    }
    c.state(w.hash());
  }
  w.finish();
}

// ---------------------------------------------------------------- P13

void p13(mc::Ctx& c, const std::vector<int>& as, int depth)
{
  auto& rm = ResourceManager::getInstance();
  W w(c);
  const int na = (int)as.size();
  std::map<int, int> zeros;
  for (int d = 0; d < depth; ++d) {
    int nl = (int)w.live.size();
    // allocate 0 (plain or named), allocate 16, free directly / through rm
    int k = c.choose(3 * na + 2 * nl);
    c.step();
    Snap before = snap();
    if (k < 2 * na) {
      int a = as[k / 2];
      bool named = k % 2;
      std::string what = std::string("allocating zero bytes from ") + g_a[a].label;
      void* p = nullptr;
      c.log(what);
      g_requests = 0;
      g_count = true;
      int e = attempt([&] { p = named ? g_a[a].a.allocate("zero", 0) : g_a[a].a.allocate(0); });
      g_count = false;
      c.require_f(e == 0 && p != nullptr, [&] { return what + " fails or returns null"; });
      c.require_f(g_requests == 0, [&] { return what + " takes memory from the resource"; });
      for (auto& l : w.live)
        c.require_f(p != l.p && !(p > l.p && p < l.p + l.n), [&] { return what + " returns a pointer of another live allocation"; });
      w.live.push_back({static_cast<char*>(p), 0, a, named ? "zero" : "", {}});
      Snap after = snap();
      for (std::size_t i = 0; i < g_a.size(); ++i) {
        Stat want = before.st[i];
        if ((int)i == a && g_a[i].tracked)
          want.count++;
        c.require_f(after.st[i] == want && after.hwm[i] == before.hwm[i], [&] { return what + " changes statistics of " + g_a[i].label + " other than the count"; });
        auto wr = before.rec[i];
        if ((int)i == a && g_a[i].tracked)
          wr.insert({p, 0, named ? "zero" : ""});
        c.require_f(after.rec[i] == wr, [&] { return what + " leaves wrong records of " + g_a[i].label; });
      }
      if (g_a[a].tracked)
        c.require_f(rm.hasAllocator(p) && rm.getSize(p) == 0 && rm.getAllocator(p).getId() == g_a[a].a.getId(),
                    [&] { return what + " is not tracked with size zero under it"; });
    } else if (k < 3 * na) {
      int a = as[k - 2 * na];
      w.alloc(a, fit(a, 16), "");
      char* p = w.live.back().p;
      for (int j = 0; j < nl; ++j)
        c.require(w.live[j].p != p && !(w.live[j].p > p && w.live[j].p < p + w.live.back().n), "an allocation contains a live zero-byte pointer");
    } else {
      int j = k - 3 * na;
      Live l = w.live[j / 2];
      int via = j % 2 && g_a[l.a].tracked;
      g_requests = 0;
      std::size_t blocks = g_arena->live.size();
      int e = attempt([&] { w.drop(j / 2, via); });
      c.require_f(e == 0, [&] { return "a live allocation of " + S(l.n) + " bytes of " + g_a[l.a].label + " cannot be freed"; });
      if (l.n == 0) {
        Snap after = snap();
        for (std::size_t i = 0; i < g_a.size(); ++i) {
          Stat want = before.st[i];
          if ((int)i == l.a && g_a[i].tracked)
            want.count--;
          c.require_f(after.st[i] == want && after.hwm[i] == before.hwm[i], [&] { return "freeing a zero-byte allocation of " + g_a[l.a].label + " changes statistics of " + g_a[i].label; });
        }
        c.require(g_arena->live.size() == blocks, "freeing a zero-byte allocation gives memory back");
        c.require(!rm.hasAllocator(l.p), "a freed zero-byte allocation is still known");
        if (g_a[l.a].tracked) {
          int e2 = attempt([&] {
            if (d % 2)
              rm.deallocate(l.p);
            else
              g_a[l.a].a.deallocate(l.p);
          });
          c.require_f(e2 == 1 || e2 == 2, [&] { return "freeing a zero-byte allocation of " + g_a[l.a].label + " twice is not rejected"; });
        }
      }
    }
    std::string ct = w.contents();
    c.require_f(ct.empty(), [&] { return "zero-byte operations: " + ct; });
    c.state(w.hash());
  }
  g_arena->check_all();
  c.require_f(g_arena->err.empty(), [&] { return g_arena->err; });
  w.finish();
}

// n zero-byte allocations over two allocators, freed in every chosen order
void p13_bulk(mc::Ctx& c)
{
  auto& rm = ResourceManager::getInstance();
  static const int counts[] = {1, 31, 32, 33, 64, 2046, 2047, 2048, 2049, 2050, 4095, 4096, 4097};
  int n = counts[c.choose(13)];
  int order = c.choose(4); // fifo, lifo, odd then even, half then refill
  int who = c.choose(3);
  const int pick[3][2] = {{HOST, QUICK}, {LIST, UNTR}, {FIXED, ARENA}};
  c.log("bulk of " + S(n) + " zero-byte allocations, order " + S(order));
  Snap before = snap(false);
  std::vector<std::pair<void*, int>> v;
  std::set<void*> seen;
  auto get = [&](int i) {
    int a = pick[who][i % 2];
    void* p = g_a[a].a.allocate(0);
    c.step();
    c.require(p != nullptr && seen.insert(p).second, "a zero-byte allocation is null or not distinct from the live ones");
    if (g_a[a].tracked)
      c.require(rm.getSize(p) == 0 && rm.getAllocator(p).getId() == g_a[a].a.getId(), "a zero-byte allocation is not tracked under its allocator");
    v.push_back({p, a});
  };
  auto put = [&](std::size_t i) {
    c.step();
    auto x = v[i];
    int e = attempt([&] { g_a[x.second].a.deallocate(x.first); });
    c.require(e == 0, "a live zero-byte allocation cannot be freed");
    seen.erase(x.first);
    v.erase(v.begin() + i);
  };
  for (int i = 0; i < n; ++i)
    get(i);
  for (auto& x : v)
    if (g_a[x.second].tracked)
      c.require(rm.hasAllocator(x.first) && rm.getSize(x.first) == 0, "a live zero-byte allocation is unknown");
  if (order == 3) {
    for (int i = 0; i < n / 2; ++i)
      put(v.size() / 2);
    for (int i = 0; i < n / 2; ++i)
      get(i);
  }
  if (order == 2)
    for (std::size_t i = 1; i < v.size(); ++i)
      put(i);
  while (!v.empty())
    put(order == 0 ? 0 : v.size() - 1);
  Snap after = snap(false);
  std::string df = diff(before, after);
  c.require_f(df.empty(), [&] { return "after freeing all zero-byte allocations: " + df; });
  c.state(mc::Hash().add(n).add(order).add(who).h);
}

// ---------------------------------------------------------------- P14

struct Throws : public us::AllocationStrategy {
  Throws(const std::string& name, int id) : us::AllocationStrategy{name, id, nullptr, "throws"}
  {
    UMPIRE_ERROR(umpire::runtime_error, "constructor fails");
  }
  void* allocate(std::size_t) override
  {
    return nullptr;
  }
  void deallocate(void*, std::size_t) override
  {
  }
  umpire::Platform getPlatform() noexcept override
  {
    return umpire::Platform::host;
  }
  umpire::MemoryResourceTraits getTraits() const noexcept override
  {
    return {};
  }
};

// The registry as the history has built it. It is never reset (allocators
// cannot be destroyed), so names carry a per-history prefix.
int g_history = 0;

void p14(mc::Ctx& c, int depth, bool family)
{
  auto& rm = ResourceManager::getInstance();
  std::string pre = "h" + S((std::size_t)g_history++) + "_";
  struct Al {
    Allocator a;
    std::string name;
    int id;
  };
  std::vector<Al> made;                 // allocators of this history
  std::map<std::string, int> alias;     // alias -> index in made
  int deflt = -1;                       // index in made, -1: as before
  rm.setDefaultAllocator(rm.getAllocator("HOST"));
  int host_id = rm.getAllocator("HOST").getId();
  std::map<std::string, int> base; // names known before this history
  for (auto& n : rm.getAllocatorNames())
    base[n] = rm.getAllocator(n).getId();
  std::set<int> base_ids;
  for (int i : rm.getAllocatorIds())
    base_ids.insert(i);
  std::vector<std::string> names = {pre + "x", pre + "y", pre + "", "w_quick"};

  auto known = [&](const std::string& n) -> int { // -1 unknown, else id
    for (auto& m : made)
      if (m.name == n)
        return m.id;
    auto it = alias.find(n);
    if (it != alias.end())
      return made[it->second].id;
    auto b = base.find(n);
    return b == base.end() ? -1 : b->second;
  };
  auto check = [&](const char* what) {
    if (c.replayed())
      return;
    auto W2 = [&](const std::string& s) { return std::string("after ") + what + ": " + s; };
    std::set<std::string> all;
    for (auto& b : base)
      all.insert(b.first);
    for (auto& m : made)
      all.insert(m.name);
    for (auto& a : alias)
      all.insert(a.first);
    std::multiset<std::string> got;
    for (auto& n : rm.getAllocatorNames())
      got.insert(n);
    c.require_f(got.size() == all.size() && std::equal(got.begin(), got.end(), all.begin()), [&] { return W2("the registered names are not those created or aliased"); });
    std::set<int> ids(base_ids);
    for (auto& m : made)
      ids.insert(m.id);
    std::multiset<int> gi;
    for (int i : rm.getAllocatorIds())
      gi.insert(i);
    c.require_f(gi.size() == ids.size() && std::equal(gi.begin(), gi.end(), ids.begin()), [&] { return W2("the registered ids are not those of the created allocators"); });
    for (auto& n : names) {
      int id = known(n);
      bool is = rm.isAllocator(n);
      c.require_f(is == (id >= 0), [&] { return W2("isAllocator(\"" + n + "\") is " + (is ? "true" : "false")); });
      Allocator a;
      int e = attempt([&] { a = rm.getAllocator(n); });
      c.require_f((e == 0) == (id >= 0) && e <= 2, [&] { return W2("getAllocator(\"" + n + "\") is wrong"); });
      if (e == 0)
        c.require_f(a.getId() == id, [&] { return W2("getAllocator(\"" + n + "\") is another allocator"); });
    }
    for (auto& m : made) {
      Allocator a, b;
      int e = attempt([&] {
        a = rm.getAllocator(m.id);
        b = rm.getAllocator(m.name);
      });
      c.require_f(e == 0 && a.getAllocationStrategy() == m.a.getAllocationStrategy() && b.getAllocationStrategy() == m.a.getAllocationStrategy() &&
                      a.getName() == m.name && rm.isAllocator(m.id),
                  [&] { return W2("an allocator is not found under its name and id"); });
    }
    int dd = rm.getDefaultAllocator().getId();
    c.require_f(dd == (deflt < 0 ? host_id : made[deflt].id), [&] { return W2("the default allocator is not the one last set"); });
    for (int id : {-1, -100, 0x7ffffff0, (int)umpire::invalid_allocator_id}) {
      c.require_f(!rm.isAllocator(id), [&] { return W2("an unknown id is an allocator"); });
      c.require_f(attempt([&] { rm.getAllocator(id); }) == 2, [&] { return W2("getAllocator of an unknown id raises no error"); });
    }
    // ids near the end of those in use, also those of creations that failed
    for (int last = ids.empty() ? 0 : *ids.rbegin(), id = std::max(0, last - 10); id < last + 6; ++id)
      c.require_f(rm.isAllocator(id) == (ids.count(id) != 0) && (attempt([&] { rm.getAllocator(id); }) == 0) == (ids.count(id) != 0), [&] { return W2("whether id " + S((std::size_t)id) + " is an allocator is wrong"); });
    c.require_f(!rm.isAllocator(pre + "unknown") && attempt([&] { rm.getAllocator(pre + "unknown"); }) == 2, [&] { return W2("an unknown name is an allocator"); });
  };
  if (family) {
    // a resource, an allocator over it, one over that one and a sibling: what
    // matters is who owns an alias
    names = {pre + "x", pre + "y"};
    auto put = [&](Allocator a) { made.push_back({a, a.getName(), a.getId()}); };
    put(rm.getAllocator("HOST"));
    put(rm.makeAllocator<us::QuickPool>(pre + "a", made[0].a, 512, 256, 16));
    put(rm.makeAllocator<us::ThreadSafeAllocator>(pre + "b", made[1].a));
    put(rm.makeAllocator<us::QuickPool>(pre + "c", made[0].a, 512, 256, 16));
    base_ids.erase(made[0].id);
  }
  check("the start");
  for (int d = 0; d < depth; ++d) {
    const int nm = (int)names.size();
    int total = (int)made.size();
    c.step();
    // create(5 kinds x names) | alias add (names x owners) | alias remove (names x owners) | default
    int op = c.choose(4);
    if (op == 0) {
      int kind = family ? 3 : c.choose(6);
      std::string n = names[c.choose(nm)];
      c.log("create " + n + " kind " + S(kind));
      bool fails = known(n) >= 0 || kind >= 4;
      Allocator a;
      int e = attempt([&] {
        Allocator ar = g_a[ARENA].a;
        switch (kind) {
          case 0:
            a = rm.makeAllocator<us::QuickPool>(n, ar, 512, 256, 16);
            break;
          case 1:
            a = rm.makeAllocator<us::SizeLimiter, false>(n, ar, 10);
            break;
          case 2:
            a = rm.makeAllocator<us::FixedPool>(n, umpire::Tracking::Untracked, ar, 8, 2);
            break;
          case 3:
            a = rm.makeAllocator<us::ThreadSafeAllocator>(n, total ? made[family ? 1 : 0].a : ar);
            break;
          case 4:
            a = rm.makeAllocator<Throws>(n);
            break;
          case 5:
            a = rm.makeAllocator<us::AlignedAllocator>(n, ar, 3);
            break;
        }
      });
      c.require_f((e != 0) == fails && e <= 2, [&] { return fails ? std::string("creating an allocator that must fail does not raise an error") : "creating an allocator under an unused name fails"; });
      if (e == 0) {
        for (int i : base_ids)
          c.require(a.getId() != i, "an id is reused");
        for (auto& m : made)
          c.require(a.getId() != m.id, "an id is reused");
        c.require(a.getName() == n, "the new allocator has another name");
        c.require(a.isTracked() == (kind == 0 || kind == 3), "the new allocator is tracked although untracked was asked for, or vice versa");
        made.push_back({a, n, a.getId()});
      }
      check("a creation");
    } else if (op == 1) {
      std::string n = names[c.choose(nm)];
      if (total == 0)
        continue;
      int o = c.choose(total);
      c.log("addAlias " + n + " for #" + S(o));
      bool fails = known(n) >= 0;
      int e = attempt([&] { rm.addAlias(n, made[o].a); });
      c.require_f((e != 0) == fails && e <= 2, [&] { return fails ? std::string("an alias under a name in use is accepted") : "an alias under an unused name is refused"; });
      if (e == 0)
        alias[n] = o;
      check("addAlias");
    } else if (op == 2) {
      static const char* extra[] = {"FILE", "SHARED", "HOST"};
      int k = c.choose(nm + (family ? 1 : 3));
      std::string n = k < nm ? names[k] : extra[k - nm];
      int o = family ? c.choose(total) : c.choose(total + 1) - 1;
      Allocator owner = o < 0 ? g_a[QUICK].a : made[o].a;
      c.log("removeAlias " + n);
      auto it = alias.find(n);
      bool fails = it == alias.end() || it->second != o;
      int e = attempt([&] { rm.removeAlias(n, owner); });
      c.require_f((e != 0) == fails && e <= 2, [&] { return fails ? std::string("removing something that is not an alias of that allocator is accepted") : "removing an alias by its owner is refused"; });
      if (e == 0)
        alias.erase(it);
      check("removeAlias");
    } else {
      if (total == 0)
        continue;
      int o = c.choose(total + 1) - 1;
      rm.setDefaultAllocator(o < 0 ? rm.getAllocator("HOST") : made[o].a);
      deflt = o;
      check("setDefaultAllocator");
    }
    mc::Hash h;
    h.add(made.size()).add(deflt + 1);
    for (auto& m : made)
      h.add(m.name.substr(pre.size() < m.name.size() ? pre.size() : 0));
    for (auto& a : alias)
      h.add(a.first.substr(pre.size() < a.first.size() ? pre.size() : 0)).add(a.second);
    c.state(h.h);
  }
  rm.setDefaultAllocator(rm.getAllocator("HOST"));
}

// Memory resources by name and type, in every order; a fresh process each time.
void p14_resources(mc::Ctx& c, int depth)
{
  c.fresh = true;
  auto& rm = ResourceManager::getInstance();
  static const char* names[] = {"HOST", "SHARED", "FILE", "HOST::0", "HOST::1", "SHARED::0", "SHARED::0x", "HOSTX", "FILE::0::FINE", "BOGUS"};
  constexpr int NN = 10;
  // what is known before
  std::map<std::string, void*> known;
  for (auto& n : rm.getAllocatorNames())
    known[n] = rm.getAllocator(n).getAllocationStrategy();
  auto resource = [](const std::string& n) { return n == "HOST" || n == "SHARED" || n == "FILE"; };
  auto check = [&] {
    std::multiset<std::string> got;
    for (auto& n : rm.getAllocatorNames())
      got.insert(n);
    std::set<std::string> want;
    for (auto& k : known)
      want.insert(k.first);
    c.require_f(got.size() == want.size() && std::equal(got.begin(), got.end(), want.begin()), [&] {
      std::string s = "registered names:";
      for (auto& g : got)
        s += " \"" + g + "\"";
      s += " expected:";
      for (auto& g : want)
        s += " \"" + g + "\"";
      return s;
    });
    for (auto& k : known) {
      Allocator a = rm.getAllocator(k.first);
      c.require_f(a.getAllocationStrategy() == k.second, [&] { return "\"" + k.first + "\" is another allocator than before"; });
      c.require_f(rm.isAllocator(a.getId()) && rm.getAllocator(a.getId()).getAllocationStrategy() == k.second, [&] { return "the allocator \"" + k.first + "\" is not found under its id"; });
    }
    for (int i = 0; i < NN; ++i)
      c.require_f(rm.isAllocator(names[i]) == (known.count(names[i]) || resource(names[i])), [&] { return std::string("isAllocator(\"") + names[i] + "\") is wrong"; });
  };
  std::set<int> ids;
  for (int i : rm.getAllocatorIds())
    ids.insert(i);
  check();
  for (int d = 0; d < depth; ++d) {
    c.step();
    int op = c.choose(3);
    if (op == 0 || op == 1) {
      std::string n = names[c.choose(NN)];
      Allocator a;
      c.log((op ? "makeResource " : "getAllocator ") + n);
      int e = attempt([&] { a = op ? rm.makeResource(n) : rm.getAllocator(n); });
      bool had = known.count(n) != 0;
      if (op == 0) {
        c.require_f((e == 0) == (had || resource(n)) && e <= 2, [&] { return "getAllocator(\"" + n + "\") is wrong"; });
        if (had)
          c.require(a.getAllocationStrategy() == known[n], "getAllocator returns another allocator than before");
      } else if (had) {
        c.require_f(e == 2, [&] { return "makeResource(\"" + n + "\") of a name in use does not raise an error"; });
      }
      if (e == 0 && !had) {
        c.require(ids.insert(a.getId()).second, "an id is reused");
        c.require_f(a.getName() == n, [&] { return "the resource \"" + n + "\" has the name \"" + a.getName() + "\""; });
        known[n] = a.getAllocationStrategy();
        // a device-numbered resource X::0 also answers to X
        if (n.size() > 3 && n.substr(n.size() - 3) == "::0" && !known.count(n.substr(0, n.size() - 3)))
          known[n.substr(0, n.size() - 3)] = a.getAllocationStrategy();
      }
    } else {
      umpire::resource::MemoryResourceType ty[] = {umpire::resource::Host, umpire::resource::Shared, umpire::resource::File, umpire::resource::Device};
      static const char* tn[] = {"HOST", "SHARED", "FILE", "DEVICE"};
      int k = c.choose(4);
      c.log(std::string("getAllocator of type ") + tn[k]);
      Allocator a;
      int e = attempt([&] { a = rm.getAllocator(ty[k]); });
      c.require_f((e == 0) == (k < 3) && e <= 2, [&] { return std::string("getAllocator of resource type ") + tn[k] + " is wrong"; });
      if (e == 0) {
        if (known.count(tn[k]))
          c.require(a.getAllocationStrategy() == known[tn[k]], "the resource type is another allocator than its name");
        else {
          c.require(ids.insert(a.getId()).second, "an id is reused");
          known[tn[k]] = a.getAllocationStrategy();
        }
      }
    }
    check();
    mc::Hash h;
    for (auto& k : known)
      h.add(k.first);
    c.state(h.h);
  }
}

// ---------------------------------------------------------------- P26

void p26_ranges(mc::Ctx& c, int line)
{
  // two ranges on a line of `line` positions, registered externally; a third
  // one far away
  int b1 = c.choose(line), n1 = c.choose(line + 1), b2 = c.choose(line), n2 = c.choose(line + 1);
  int region = c.choose(6);
  static const uintptr_t at[] = {0x100000, 0x7fff00000000ull - 4, 0xfffffffffffff000ull, 0x100000, 0x100000, 0x100000};
  static const std::size_t unit[] = {1, 1, 1, 4096, std::size_t(3) << 30, std::size_t(1) << 40};
  uintptr_t L = at[region];
  const std::size_t U = unit[region];
  // the registry finds a record by its last start before the address; two
  // records must not start at the same address for the second to be found
  if (b1 == b2)
    return;
  c.step();
  auto P = [&](int b) { return reinterpret_cast<void*>(L + b * U); };
  umpire::register_external_allocation(P(b1), {P(b1), (std::size_t)n1 * U, g_arena});
  umpire::register_external_allocation(P(b2), {P(b2), (std::size_t)n2 * U, g_arena});
  auto ov = [](int lb, int ln, int rb, int rn) { return rb >= lb && rb < lb + ln && rb + rn > lb + ln; };
  auto co = [](int lb, int ln, int rb, int rn) { return rb >= lb && rb < lb + ln && rb + rn <= lb + ln; };
  auto q = [&](int lb, int ln, int rb, int rn) {
    bool o = umpire::pointer_overlaps(P(lb), P(rb)), k = umpire::pointer_contains(P(lb), P(rb));
    auto how = [&](const char* f, bool r) {
      return std::string(f) + " of [" + S(lb) + "," + S(lb + ln) + ") and [" + S(rb) + "," + S(rb + rn) + ") is " + (r ? "true" : "false");
    };
    c.require_f(o == ov(lb, ln, rb, rn), [&] { return how("pointer_overlaps", o); });
    c.require_f(k == co(lb, ln, rb, rn), [&] { return how("pointer_contains", k); });
  };
  q(b1, n1, b2, n2);
  q(b2, n2, b1, n1);
  q(b1, n1, b1, n1);
  q(b2, n2, b2, n2);
  // an address inside a range stands for it
  for (int x = b1 + 1; x < b1 + n1; ++x)
    if (!(b2 > b1 && b2 <= x) && !(x >= b2 && x < b2 + n2)) {
      bool o = umpire::pointer_overlaps(P(x), P(b2)), k = umpire::pointer_contains(P(x), P(b2));
      bool o2 = umpire::pointer_overlaps(P(b2), P(x)), k2 = umpire::pointer_contains(P(b2), P(x));
      c.require_f(o == ov(b1, n1, b2, n2) && k == co(b1, n1, b2, n2) && o2 == ov(b2, n2, b1, n1) && k2 == co(b2, n2, b1, n1),
                  [&] { return "a query with an address inside [" + S(b1) + "," + S(b1 + n1) + ") and one of [" + S(b2) + "," + S(b2 + n2) + ") differs from that of the ranges"; });
    }
  int local;
  for (int k = 0; k < 2; ++k) {
    void* l = k ? (void*)&local : P(b1);
    void* r = k ? P(b1) : (void*)&local;
    c.require(attempt([&] { umpire::pointer_overlaps(l, r); }) != 0 && attempt([&] { umpire::pointer_contains(l, r); }) != 0,
              "an unknown pointer is accepted by an overlap or containment query");
  }
  umpire::deregister_external_allocation(P(b1));
  umpire::deregister_external_allocation(P(b2));
  c.state(mc::Hash().add(b1).add(n1).add(b2).add(n2).add(region).h);
}

void p26_fragmentation(mc::Ctx& c, int maxrec, int maxgap, int maxsize)
{
  // every ordered list of up to maxrec records with sizes and gaps
  int n = c.choose(maxrec + 1);
  std::vector<umpire::util::AllocationRecord> v;
  uintptr_t p = 0x1000;
  std::size_t total = 0, largest = 0;
  static const std::size_t gaps[] = {0, 1, 7, 64, 4096, std::size_t(1) << 32, std::size_t(1) << 40};
  static const std::size_t szs[] = {1, 0, 16, std::size_t(1) << 33};
  std::string txt;
  for (int i = 0; i < n; ++i) {
    if (i) {
      std::size_t g = gaps[c.choose(maxgap)];
      p += g;
      total += g;
      largest = std::max(largest, g);
    }
    std::size_t s = szs[c.choose(maxsize)];
    v.push_back({reinterpret_cast<void*>(p), s, g_arena});
    txt += " [" + S(p) + "," + S(p + s) + ")";
    p += s;
  }
  c.step();
  c.log("records" + txt);
  float f = umpire::util::relative_fragmentation(v);
  double want = total ? 1.0 - (double)largest / (double)total : 0.0;
  if (n < 2 || total == 0) {
    // nothing to compare: only that an answer in 0..1 comes back
    c.require_f(f >= 0.0f && f <= 1.0f, [&] { return "fragmentation without a gap is " + std::to_string(f); });
  } else {
    c.require_f(std::fabs(f - want) < 1e-4, [&] { return "fragmentation of" + txt + " is " + std::to_string(f) + ", not " + std::to_string(want); });
  }
  c.state(mc::Hash().add(txt).h);
}

// ---------------------------------------------------------------- P27

template <std::size_t N>
struct Obj {
  char b[N];
};

// everything is as before, apart from pools that gave unused blocks back
std::string diff_refused(const Snap& a, const Snap& b)
{
  for (std::size_t i = 0; i < g_a.size(); ++i) {
    if ((int)i != ARENA && (a.st[i].cur != b.st[i].cur || a.st[i].count != b.st[i].count))
      return "statistics of " + g_a[i].label + " changed (size " + S(a.st[i].cur) + " -> " + S(b.st[i].cur) + ", count " +
             S(a.st[i].count) + " -> " + S(b.st[i].count) + ")";
    if ((int)i != ARENA && a.st[i].actual < b.st[i].actual)
      return g_a[i].label + " holds more memory than before";
    if ((int)i == ARENA && (a.st[i].cur < b.st[i].cur || a.st[i].count < b.st[i].count))
      return "memory was taken from the resource";
    if (a.hwm[i] != b.hwm[i])
      return "high watermark of " + g_a[i].label + " changed";
    if ((int)i != ARENA && !(a.rec[i] == b.rec[i]))
      return "records of " + g_a[i].label + " changed";
  }
  return "";
}

template <typename T>
void p27_typed_one(mc::Ctx& c, int a, W& w)
{
  constexpr std::size_t Z = sizeof(T);
  Allocator al = g_a[a].a;
  umpire::TypedAllocator<T> ta(al);
  umpire::TypedAllocator<char> tb(ta);
  umpire::TypedAllocator<T> tc(tb);
  umpire::TypedAllocator<T> other(g_a[a == HOST ? QUICK : HOST].a);
  c.require(ta == tc && !(ta != tc), "a rebound typed allocator differs from the original");
  c.require(!(ta == other) && ta != other, "typed allocators over different allocators are equal");
  // counts that fit
  for (std::size_t n = 9; n + 1 > 0; --n) { // downwards, so that a pool of slots can reuse one
    if (g_a[a].max && n * Z > g_a[a].max)
      continue;
    if (a == LIMIT && n * Z > 100)
      continue;
    if (a == SLOT) // a used slot stays used
      continue;
    c.step();
    Snap s0 = snap();
    T* p = nullptr;
    int e = attempt([&] { p = n % 2 ? ta.allocate(n) : tc.allocate(n); });
    c.require_f(e == 0 && p, [&] { return "allocating " + S(n) + " objects of " + S(Z) + " bytes from " + g_a[a].label + " fails"; });
    for (auto& l : w.live)
      c.require(l.n == 0 || n == 0 || (char*)(p + n) <= l.p || l.p + l.n <= (char*)p, "a typed allocation overlaps a live one");
    memset((void*)p, 0x3c, n * Z);
    if (g_a[a].tracked) {
      auto sz = ResourceManager::getInstance().getSize(p);
      c.require_f(sz == n * Z, [&] { return S(n) + " objects of " + S(Z) + " bytes from " + g_a[a].label + " have " + S(sz) + " bytes"; });
      c.require(ResourceManager::getInstance().getAllocator(static_cast<void*>(p)).getId() == al.getId(), "a typed allocation belongs to another allocator");
    }
    Snap s1 = snap();
    if (g_a[a].exact && g_a[a].tracked && a != FIXED)
      c.require_f(s1.st[a].cur == s0.st[a].cur + n * Z && s1.st[a].count == s0.st[a].count + 1,
                  [&] { return S(n) + " objects of " + S(Z) + " bytes change the size of " + g_a[a].label + " by " + S(s1.st[a].cur - s0.st[a].cur); });
    // the count given when freeing does not matter
    e = attempt([&] { (n % 3 ? ta : tc).deallocate(p, n); });
    c.require_f(e == 0, [&] { return "freeing a typed allocation of " + g_a[a].label + " fails"; });
    Snap s2 = snap();
    c.require_f(!g_a[a].exact || (s2.st[a].cur == s0.st[a].cur && s2.st[a].count == s0.st[a].count), [&] { return "freeing a typed allocation leaves statistics of " + g_a[a].label + " changed"; });
    std::string ct = w.contents();
    c.require_f(ct.empty(), [&] { return ct; });
  }
  // counts whose size cannot be represented or obtained
  const std::size_t M = BIG / Z;
  std::set<std::size_t> huge;
  for (std::size_t k = 0; k < 4; ++k) {
    huge.insert(BIG - k);
    huge.insert(M - k);
    huge.insert(BIG / 2 - k);
    huge.insert(BIG / 2 + 1 + k);
    if (Z > 1) {
      huge.insert(M + 1 + k); // the product wraps around to something small
      huge.insert((BIG / 2) / Z + 1 + k);
      for (std::size_t f = 2; f < Z && f < 6; ++f)
        huge.insert(M * f + 1 + k);
    }
  }
  // the wrapped product is small and a power of two
  for (std::size_t sh = 1; sh < 64; ++sh)
    if (Z > 1 && ((std::size_t(1) << sh) > M))
      for (std::size_t k = 0; k < 3; ++k)
        huge.insert((std::size_t(1) << sh) + k);
  for (std::size_t n : huge) {
    c.step();
    Snap s0 = snap();
    T* p = nullptr;
    int e = attempt([&] { p = ta.allocate(n); });
    c.require_f(e != 0, [&] { return S(n) + " objects of " + S(Z) + " bytes can be allocated from " + g_a[a].label; });
    c.require_f(e == 1 || e == 2, [&] { return "refusing " + S(n) + " objects of " + S(Z) + " bytes from " + g_a[a].label + " raises an unknown exception"; });
    std::string d = diff_refused(s0, snap());
    c.require_f(d.empty(), [&] { return "a refused request of " + S(n) + " objects of " + S(Z) + " bytes from " + g_a[a].label + ": " + d; });
    std::string ct = w.contents();
    c.require_f(ct.empty(), [&] { return ct; });
  }
}

void p27_typed(mc::Ctx& c, std::vector<int> as)
{
  W w(c);
  int a = as[c.choose((int)as.size())];
  int pre = c.choose(3);
  int type = c.choose(7);
  for (int i = 0; i < pre; ++i)
    if (!w.alloc(a, fit(a, 24 + i), ""))
      break;
  if (pre == 2 && w.live.size() == 2 && a != SLOT && a != MONO) // a free piece in front
    w.drop(0, 0);
  switch (type) {
    case 0:
      p27_typed_one<char>(c, a, w);
      break;
    case 1:
      p27_typed_one<short>(c, a, w);
      break;
    case 2:
      p27_typed_one<Obj<3>>(c, a, w);
      break;
    case 3:
      p27_typed_one<double>(c, a, w);
      break;
    case 4:
      p27_typed_one<Obj<24>>(c, a, w);
      break;
    case 5:
      p27_typed_one<Obj<40>>(c, a, w);
      break;
    default:
      p27_typed_one<Obj<64>>(c, a, w);
      break;
  }
  c.state(mc::Hash().add(a).add(pre).add(type).h);
  w.finish();
}

// a container of the standard library on a typed allocator
void p27_vector(mc::Ctx& c, std::vector<int> as)
{
  int a = as[c.choose((int)as.size())];
  Snap s0 = snap();
  {
    std::vector<double, umpire::TypedAllocator<double>> v{umpire::TypedAllocator<double>(g_a[a].a)};
    std::vector<double> ref;
    for (int d = 0; d < 5; ++d) {
      int op = c.choose(5);
      c.step();
      if (op == 0)
        for (int i = 0; i < 3; ++i) {
          v.push_back(i + d);
          ref.push_back(i + d);
        }
      else if (op == 1) {
        v.resize(ref.size() / 2);
        ref.resize(ref.size() / 2);
      } else if (op == 2) {
        v.shrink_to_fit();
      } else if (op == 3) {
        auto copy = v;
        v.swap(copy);
      } else {
        int e = attempt([&] {
          try {
            v.reserve(BIG / 8 - 1);
          } catch (std::length_error&) {
            throw std::bad_alloc();
          }
        });
        c.require(e != 0, "a vector reserves more than can exist");
      }
      c.require(v.size() == ref.size() && std::equal(ref.begin(), ref.end(), v.begin()), "a vector on a typed allocator has other contents");
      std::size_t held = v.capacity() * sizeof(double);
      Snap s = snap(false);
      c.require_f(s.st[a].cur - s0.st[a].cur == held, [&] { return "a vector holding " + S(held) + " bytes accounts for " + S(s.st[a].cur - s0.st[a].cur) + " in " + g_a[a].label; });
    }
  }
  Snap s1 = snap();
  c.require_f(s1.st[a].cur == s0.st[a].cur && s1.st[a].count == s0.st[a].count, [&] { return "a vector leaves memory of " + g_a[a].label + " behind"; });
  for (auto& x : g_a)
    if (x.pool)
      x.a.release();
}

// allocators made with parameters that cannot be satisfied: either making them
// or using them is refused, or what they hand out is really there
void p27_made(mc::Ctx& c)
{
  int kind = c.choose(8);
  static const char* kinds[] = {"fixed pool", "monotonic allocator", "quick pool (first block)", "quick pool (other blocks)", "list pool (first block)", "list pool (other blocks)", "quick pool (alignment)", "mixed pool"};
  int i = c.choose(64), io = c.choose(3);
  std::size_t x = (std::size_t(1) << i) + io - 1, top = kind == 0 ? 64 : 1;
  if (kind == 6 && io != 1)
    return;
  if (x == 0 || (kind == 7 && x < 64))
    return;
  for (std::size_t j = 0; j < top; ++j)
    for (std::size_t jo = 0; jo < (kind == 0 ? 3 : 1); ++jo) {
      std::size_t y = (std::size_t(1) << j) + jo - 1;
      if (y == 0)
        continue;
      if (y > (1u << 16) && x < 16 && (__uint128_t)x * y <= (1u << 22))
        continue; // large but obtainable
      c.step();
      Arena ar("limited", 900);
      std::string did;
      {
        Allocator on(&ar);
        std::unique_ptr<us::AllocationStrategy> st;
        std::size_t n = kind == 0 ? x : 16;
        std::vector<std::pair<char*, std::size_t>> got;
        int e = attempt([&] {
          switch (kind) {
            case 0:
              st.reset(new us::FixedPool("p", 901, on, x, y));
              break;
            case 1:
              st.reset(new us::MonotonicAllocationStrategy("p", 901, on, x));
              break;
            case 2:
              st.reset(new us::QuickPool("p", 901, on, x, 64, 16));
              break;
            case 3:
              st.reset(new us::QuickPool("p", 901, on, 64, x, 16));
              break;
            case 4:
              st.reset(new us::DynamicPoolList("p", 901, on, x, 64, 16));
              break;
            case 5:
              st.reset(new us::DynamicPoolList("p", 901, on, 64, x, 16));
              break;
            case 6:
              st.reset(new us::QuickPool("p", 901, on, 64, 64, x));
              break;
            default:
              st.reset(new us::MixedPool("p", 901, on, 16, x, x, 4, 1024, 1024, 16));
              break;
          }
        });
        auto how = [&] { return std::string("a ") + kinds[kind] + " made with " + S(x) + (kind == 0 ? " bytes times " + S(y) : std::string()); };
        c.check();
        if (e == 0) {
          int f = 0;
          for (int k = 0; k < 6 && f == 0; ++k) {
            char* p = nullptr;
            f = attempt([&] { p = (char*)st->allocate(n); });
            if (f != 0)
              break;
            bool in = false;
            for (auto& b : ar.live)
              in = in || (p >= b.p && n <= b.n && (std::size_t)(p - b.p) <= b.n - n);
            c.require_f(in, [&] { return how() + " hands out " + S(n) + " bytes that it does not have"; });
            for (auto& g : got)
              c.require_f(p >= g.first + g.second || g.first >= p + n, [&] { return how() + " hands out overlapping blocks"; });
            got.push_back({p, n});
          }
          c.require_f(f != 3, [&] { return how() + " raises an error that is not Umpire's"; });
          for (auto& g : got)
            st->deallocate(g.first, n);
        }
        c.require_f(e != 1 && e != 3, [&] { return how() + " raises the wrong error"; });
        const bool fits = kind == 0 ? (__uint128_t)x * y <= (1u << 20) : kind == 1 ? x <= (1u << 20) : false;
        if (fits)
          c.require_f(e == 0, [&] { return how() + " is refused"; });
        did = how();
      }
      ar.check_all();
      c.require_f(ar.live.empty() && ar.err.empty(), [&] { return did + " leaves memory behind or damages it " + ar.err; });
    }
  c.state(mc::Hash().add(kind).add(x).h);
}

// every way to ask for memory, with sizes that cannot be satisfied
void p27_forms(mc::Ctx& c, std::vector<int> as)
{
  auto& rm = ResourceManager::getInstance();
  W w(c);
  int a = as[c.choose((int)as.size())];
  int pre = c.choose(3);
  int form = c.choose(6);
  for (int i = 0; i < pre; ++i)
    if (!w.alloc(a, fit(a, 24 + 10 * i), i ? "x" : ""))
      break;
  if (form >= 3 && (w.live.empty() || !g_a[a].tracked)) {
    w.finish();
    return;
  }
  std::set<std::size_t> huge;
  for (std::size_t k = 0; k < 140; ++k) {
    huge.insert(BIG - k);
    huge.insert(BIG / 2 + 1 - k);
    huge.insert(BIG / 2 + 1 + k);
  }
  for (std::size_t sh = 47; sh < 64; ++sh)
    for (std::size_t k = 0; k < 3; ++k) {
      huge.insert((std::size_t(1) << sh) + k);
      huge.insert((std::size_t(1) << sh) - k - 1);
    }
  for (std::size_t n : huge) {
    if (n < (std::size_t(1) << 47))
      continue;
    c.step();
    Snap s0 = snap();
    int e = attempt([&] {
      switch (form) {
        case 0:
          g_a[a].a.allocate(n);
          break;
        case 1:
          g_a[a].a.allocate("n", n);
          break;
        case 2:
          rm.reallocate(nullptr, n, g_a[a].a);
          break;
        case 3:
          rm.reallocate(w.live[0].p, n);
          break;
        case 4:
          rm.reallocate(w.live[0].p, n, g_a[a].a);
          break;
        default:
          rm.reallocate(w.live[0].p, n, g_a[a].a, ctx());
          break;
      }
    });
    static const char* names[] = {"allocate", "allocate with a name", "reallocate of null", "reallocate", "reallocate with allocator", "asynchronous reallocate"};
    auto how = [&] { return std::string(names[form]) + " of " + S(n) + " bytes from " + g_a[a].label; };
    c.require_f(e != 0, [&] { return how() + " succeeds"; });
    c.require_f(e == 1 || e == 2, [&] { return how() + " raises an unknown exception"; });
    std::string d = diff_refused(s0, snap());
    c.require_f(d.empty(), [&] { return how() + ": " + d; });
    std::string ct = w.contents();
    c.require_f(ct.empty(), [&] { return how() + ": " + ct; });
  }
  c.state(mc::Hash().add(a).add(pre).add(form).add(77).h);
  w.finish();
}

// which alignments an aligned allocator accepts, and what it then does
void p02_create(mc::Ctx& c, bool thorough)
{
  auto& rm = ResourceManager::getInstance();
  static std::vector<std::size_t> al = [&] {
    std::set<std::size_t> s;
    for (std::size_t i = 0; i <= (thorough ? 70000u : 5000u); ++i)
      s.insert(i);
    for (int i = 0; i < 64; ++i) {
      std::size_t p = std::size_t(1) << i;
      for (std::size_t k = 0; k < 34; ++k) {
        s.insert(p + k);
        s.insert(p - k);
        s.insert(0 - k);
      }
      for (int j = 0; j < i; ++j) {
        s.insert(p + (std::size_t(1) << j));
        s.insert(p - (std::size_t(1) << j));
        for (int k = 0; k < j; ++k)
          s.insert(p + (std::size_t(1) << j) + (std::size_t(1) << k));
      }
    }
    return std::vector<std::size_t>(s.begin(), s.end());
  }();
  int part = c.choose(64);
  int parent = c.choose(3);
  static int serial = 0;
  for (std::size_t i = part; i < al.size(); i += 64) {
    std::size_t A = al[i];
    bool want = A >= 16 && (A & (A - 1)) == 0;
    c.step();
    Allocator a;
    std::string name = "al" + S(serial++) + "_" + S(getpid());
    int e = attempt([&] { a = rm.makeAllocator<us::AlignedAllocator>(name, g_a[parent == 0 ? HOST : parent == 1 ? QUICK : ARENA].a, A); });
    c.require_f((e == 0) == want, [&] { return "an aligned allocator with alignment " + S(A) + (want ? " is refused" : " is created"); });
    c.require_f(rm.isAllocator(name) == want, [&] { return std::string("a refused aligned allocator is registered, or a created one is not"); });
    if (!want)
      continue;
    if (parent && A > 1000) // the arena is small
      continue;
    if (A > (std::size_t(1) << 24)) { // too large to be obtained on every machine
      continue;
    }
    std::vector<void*> ps;
    for (std::size_t n : {1, 7, 8, 15, 16, 17, 63, 64, 100}) {
      void* q = nullptr;
      e = attempt([&] { q = a.allocate(n); });
      c.require_f(e == 0 && q, [&] { return "an aligned allocator with alignment " + S(A) + " refuses " + S(n) + " bytes"; });
      c.require_f(reinterpret_cast<uintptr_t>(q) % A == 0, [&] { return "an allocation of alignment " + S(A) + " is not aligned"; });
      memset(q, 0x5a, n);
      ps.push_back(q);
    }
    for (void* q : ps)
      a.deallocate(q);
    if (parent == 1)
      g_a[QUICK].a.release();
  }
  c.state(mc::Hash().add(part).add(parent).h);
}

bool has_fixed(const std::vector<int>& g)
{
  return std::count(g.begin(), g.end(), FIXED) || std::count(g.begin(), g.end(), LIMIT);
}

std::vector<int> all_tracked()
{
  return {HOST, ARENA, QUICK, LIST, FIXED, LIMIT, ALIGN, TSAFE, SHIM, MIXED, NAMED};
}

} // namespace

extern "C" void* __wrap_malloc(size_t n)
{
  // requests of operator new (containers of the library) are not the
  // resource's; they do not come through here
  if (g_refuse_malloc && g_count && n < 60000 && refuse_now())
    return nullptr;
  return __real_malloc(n);
}
extern "C" void* __wrap_realloc(void* p, size_t n)
{
  if (g_refuse_malloc && g_count && n < 60000 && refuse_now())
    return nullptr;
  return __real_realloc(p, n);
}

int main(int argc, char** argv)
{
  setenv("UMPIRE_LOG_LEVEL", "ERROR", 1);
  ResourceManager::getInstance();
  umpire::log().rdbuf(nullptr);
  umpire::error().rdbuf(nullptr);
  make_world();
  return mc::mc_main(argc, argv, [](const mc::Options& o) {
    g_prop = atoi(o.property.c_str() + 1);
    bool T = g_thorough = o.tier == "thorough";
    std::vector<mc::Config> v;
    auto add = [&](const std::string& name, std::function<void(mc::Ctx&)> f, const std::string& bounds, int split = 3, uint64_t seg = 4000) {
      mc::Config cfg;
      cfg.name = name;
      cfg.body = f;
      cfg.bounds = bounds;
      cfg.split = split;
      cfg.segment = seg;
      v.push_back(cfg);
    };
    auto names = [](const std::vector<int>& as) {
      std::string s;
      for (int a : as)
        s += (s.empty() ? "" : "+") + g_a[a].label;
      return s;
    };
    std::vector<std::vector<int>> groups = {{QUICK, LIST}, {HOST, FIXED, ALIGN}, {LIMIT, TSAFE, UNTR}, {SHIM, MIXED}, {ARENA, NAMED, SLOT}};
    if (g_prop == 3) {
      auto all = all_tracked();
      all.push_back(UNTR);
      all.push_back(SLOT);
      std::vector<std::size_t> sz = {0, 16, 40};
      int d0 = T ? 4 : 3, d9 = T ? 7 : 6;
      add("all/d" + S(d0), [=](mc::Ctx& c) { p03(c, all, sz, d0); }, "all histories of " + S(d0) + " allocations and frees over all allocators, sizes 0, 16, 40");
      for (auto g : groups) {
        std::vector<std::size_t> s2 = {1, 16};
        int d1 = g.size() > 2 ? d9 - 1 : d9;
        add(names(g) + "/d" + S(d1), [=](mc::Ctx& c) { p03(c, g, s2, d1); }, "all histories of " + S(d1) + " operations over " + names(g) + ", sizes 1, 16");
      }
      for (auto g : std::vector<std::vector<int>>{{HOST}, {QUICK}, {FIXED, LIST}, {HOST, UNTR}}) {
        std::vector<std::size_t> s1 = {16};
        int d4 = (T ? 5 : 4) + (g.size() == 1);
        add("requery/" + names(g) + "/d" + S(d4), [=](mc::Ctx& c) { p03_requery(c, g, s1, d4); },
            "all histories of " + S(d4) + " allocations and frees over " + names(g) + " with every choice of one lookup after each, repeated after the next operation");
      }
      int d2 = T ? 5 : 4;
      int dg = T ? 5 : 4;
      add("external-giga/d" + S(dg), [=](mc::Ctx& c) { p03_external_giga(c, dg); }, "all sequences of " + S(dg) + " (de)registrations of 4 ranges of 5 sizes up to 2^40");
      add("external/d" + S(d2), [=](mc::Ctx& c) { p03_external(c, d2); }, "all sequences of " + S(d2) + " (de)registrations of 9 addresses with sizes 0, 1, 16");
    } else if (g_prop == 10) {
      int d0 = T ? 3 : 2;
      auto all = all_tracked();
      all.push_back(UNTR);
      all.push_back(MONO);
      all.push_back(SLOT);
      std::vector<std::size_t> sz = {0, 16, 1000};
      add("all/d" + S(d0), [=](mc::Ctx& c) { p10(c, all, sz, d0); }, "all histories of " + S(d0) + " operations over all allocators, then every invalid free");
      for (auto g : groups) {
        int d1 = T ? 6 : g.size() > 2 ? 4 : 5;
        add(names(g) + "/d" + S(d1), [=](mc::Ctx& c) { p10(c, g, {1, 16}, d1); }, "all histories of " + S(d1) + " operations over " + names(g) + ", then every invalid free");
      }
    } else if (g_prop == 11) {
      std::size_t m = T ? 9 : 6;
      std::vector<int> as;
      for (int a : all_tracked())
        if (a != FIXED)
          as.push_back(a);
      add("giga", p11_giga, "20 copies and memsets of gigabytes, synchronous and asynchronous", 1);
      for (int a : as)
        for (int b : as) {
          if (T || a == b || a == HOST || b == HOST || (a + b) % 5 == 0)
            add("copy-large/" + g_a[a].label + "-" + g_a[b].label, [=](mc::Ctx& c) { p11_copy_large(c, a, b); },
              "26 source sizes from 15 bytes to 1 MB, 5 destination sizes each, boundary offsets and lengths", 2);
          add("copy/" + g_a[a].label + "-" + g_a[b].label, [=](mc::Ctx& c) { p11_copy(c, a, b, m); },
              "every source and destination size up to " + S(m) + ", every pair of offsets, every length", 2);
        }
      for (int a : as) {
        add("memset-large/" + g_a[a].label, [=](mc::Ctx& c) { p11_memset_large(c, a); }, "26 sizes from 15 bytes to 1 MB, boundary offsets and lengths", 1);
        add("memset-values/" + g_a[a].label, [=](mc::Ctx& c) { p11_values(c, a); }, "all values from -300 to 599", 1);
      }
      for (int a : as)
        add("memset/" + g_a[a].label, [=](mc::Ctx& c) { p11_memset(c, a, m + 3); }, "every size up to " + S(m + 3) + ", every offset, length and 5 values", 2);
    } else if (g_prop == 12) {
      add("giga", p12_giga, "reallocate and move between 4 sizes up to 5 GB, two allocators", 1);
      std::vector<std::vector<int>> gs = {{HOST, QUICK}, {QUICK, LIST}, {HOST, ARENA}, {LIMIT, FIXED}, {ALIGN, TSAFE}, {SHIM, MIXED}, {NAMED, HOST}};
      for (auto g : gs)
        for (int f = 0; f < 2; ++f) {
          int d = T ? 4 : 3;
          if (f)
            for (int& x : g)
              if (x == MIXED) // it does not release its blocks, so histories would depend on each other
                x = LIST;
          std::vector<std::size_t> sz = f ? std::vector<std::size_t>{24, 600} : std::vector<std::size_t>{0, 8, 100};
          add(names(g) + "/f" + S(f), [=](mc::Ctx& c) { p12(c, g, sz, d, f); },
              "all histories of " + S(d) + " reallocate/move/free operations, every form, at most " + S(f) + " refusals");
          if (!f && !has_fixed(g)) {
            std::vector<std::size_t> big = {1, 4096, 70000, 1 << 20};
            add(names(g) + "/large", [=](mc::Ctx& c) { p12(c, g, big, T ? 3 : 2, 0); },
                "all histories of " + S(T ? 3 : 2) + " reallocate/move/free operations, every form, sizes up to 1 MB");
          }
        }
    } else if (g_prop == 13) {
      auto all = all_tracked();
      all.push_back(UNTR);
      all.push_back(MONO);
      all.push_back(SLOT);
      int d0 = T ? 4 : 3;
      add("all/d" + S(d0), [=](mc::Ctx& c) { p13(c, all, d0); }, "all histories of " + S(d0) + " operations over all allocators");
      for (auto g : groups) {
        int d1 = g.size() > 2 ? (T ? 6 : 5) : T ? 7 : 6;
        add(names(g) + "/d" + S(d1), [=](mc::Ctx& c) { p13(c, g, d1); }, "all histories of " + S(d1) + " operations over " + names(g));
      }
      add("bulk", [](mc::Ctx& c) { p13_bulk(c); }, "1..4097 zero-byte allocations around the block sizes, four free orders, three allocator pairs", 3, 40);
    } else if (g_prop == 14) {
      int d0 = T ? 4 : 3;
      add("registry/d" + S(d0), [=](mc::Ctx& c) { p14(c, d0, false); }, "all histories of " + S(d0) + " creations, alias additions and removals and default settings", 3, 300);
      int d2 = T ? 4 : 3;
      add("family/d" + S(d2), [=](mc::Ctx& c) { p14(c, d2, true); }, "all histories of " + S(d2) + " alias operations over a resource, a pool, its wrapper and a sibling", 4, 300);
      int d1 = T ? 4 : 3;
      add("resources/d" + S(d1), [=](mc::Ctx& c) { p14_resources(c, d1); }, "all sequences of " + S(d1) + " resource look-ups and creations by name and type", 3, 1);
    } else if (g_prop == 26) {
      int line = T ? 16 : 12;
      add("ranges", [=](mc::Ctx& c) { p26_ranges(c, line); }, "every pair of ranges with different starts on a line of " + S(line) + " positions, three regions and four units");
      int r = T ? 6 : 5, g = T ? 7 : 6, s = 4;
      add("fragmentation", [=](mc::Ctx& c) { p26_fragmentation(c, r, g, s); }, "every ordered list of up to " + S(r) + " records with " + S(g) + " gaps and " + S(s) + " sizes");
    }
    if (g_prop == 2)
      add("create", [=](mc::Ctx& c) { p02_create(c, T); },
          std::string("aligned allocators over three parents: every alignment up to ") + (T ? "70000" : "5000") + " and every sum of up to three powers of two", 1);
    if (g_prop == 27) {
      auto all = all_tracked();
      auto lim = all;
      all.push_back(UNTR);
      all.push_back(MONO);
      all.push_back(SLOT);
      lim.erase(std::remove_if(lim.begin(), lim.end(), [](int a) { return a == FIXED || a == LIMIT; }), lim.end());
      add("typed", [=](mc::Ctx& c) { p27_typed(c, all); }, "7 object sizes, 14 allocators in 3 states; counts 0..9 and about 100 that cannot be represented or obtained", 3);
      add("made", [=](mc::Ctx& c) { p27_made(c); }, "fixed, monotonic, quick, list and mixed pools made with every power of two and its neighbours (fixed pools: every pair)", 2);
      add("forms", [=](mc::Ctx& c) { p27_forms(c, all); }, "6 ways to ask for memory, 14 allocators in 3 states, about 480 sizes above 2^47", 3);
      add("vector", [=](mc::Ctx& c) { p27_vector(c, lim); }, "all sequences of 5 operations on a std::vector on a typed allocator, 9 allocators", 3);
    }
    for (auto& cfg : v)
      if (g_prop == 26)
        cfg.hang_s = 3;
    return v;
  });
}
