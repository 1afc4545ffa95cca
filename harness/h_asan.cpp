// P31: memory accessibility in a build for address sanitizing, on the real code.
//
// The library is compiled with UMPIRE_ENABLE_ASAN and -fsanitize=address.  Pools
// stand on an arena of ours (or on the real HOST resource); after every step of
// every history the sanitizer is asked about every byte the pool holds.
#include <sanitizer/asan_interface.h>

#include <algorithm>
#include <memory>

#include "mc.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/NamingShim.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/error.hpp"
#include "umpire/util/io.hpp"

extern "C" const char* __asan_default_options()
{
  return "detect_leaks=0:abort_on_error=1:handle_segv=0:handle_abort=0:allow_user_poisoning=1:log_path=/dev/null:"
         "quarantine_size_mb=8:detect_odr_violation=0";
}

using umpire::strategy::AllocationStrategy;
namespace us = umpire::strategy;

namespace {

std::string S(unsigned long long n)
{
  return std::to_string(n);
}

struct Blk {
  char* p;
  std::size_t n;
};

constexpr std::size_t ARENA = 1 << 16;
char* g_mem = nullptr;
struct World;
World* g_w = nullptr;

class Arena : public AllocationStrategy {
 public:
  Arena() : AllocationStrategy("arena", 1000, nullptr, "Arena") {}
  umpire::Platform getPlatform() noexcept override { return umpire::Platform::host; }
  umpire::MemoryResourceTraits getTraits() const noexcept override { return umpire::MemoryResourceTraits{}; }
  std::vector<Blk> held;
  std::string wrong;

 private:
  void* allocate(std::size_t n) override;
  void deallocate(void* p, std::size_t n) override;
};

enum Kind { QP, DPL, FIXED, MIXED, SLOT, MONO, LIMIT, ALIGN, TSAFE, NAMED, SHIM };
struct Layer {
  Kind k;
  std::size_t a{0}, b{0}, c{0};
  int heur{0}; // percentage of releasable bytes, or -n: n blocks
  bool hwm{false};
};

struct Spec {
  std::string name;
  std::vector<Layer> layers; // the first is the one used
  std::vector<std::size_t> sizes;
  int depth;
  int faults{0};
  bool exact{true}; // nothing but the live bytes may be accessible
  bool host{false}; // on the real resource
  bool untracked{false};
};

struct Live {
  char* p;
  std::size_t n;
  unsigned char pat;
};

struct World {
  const Spec& s;
  mc::Ctx& c;
  int faults_left;
  bool armed{false};
  Arena arena;
  std::vector<std::unique_ptr<AllocationStrategy>> strat;
  std::vector<Live> live;
  std::vector<Blk> freed; // on the real resource: freed and still with the pool
  World(const Spec& sp, mc::Ctx& cc) : s(sp), c(cc), faults_left(sp.faults) {}
};

void* Arena::allocate(std::size_t n)
{
  if (g_w->armed && g_w->faults_left > 0 && g_w->c.choose(2)) {
    g_w->faults_left--;
    g_w->c.deviation();
    g_w->c.log("    parent refuses " + S(n));
    throw umpire::out_of_memory_error("arena refuses", "arena", 1);
  }
  std::sort(held.begin(), held.end(), [](const Blk& x, const Blk& y) { return x.p < y.p; });
  char* at = g_mem + 64;
  for (auto& b : held) {
    if (at + n + 16 <= b.p)
      break;
    at = (char*)(((uintptr_t)(b.p + b.n) + 31) & ~(uintptr_t)15);
  }
  if (n == 0 || n > ARENA - 128 || at + n + 64 > g_mem + ARENA)
    throw umpire::out_of_memory_error("arena is full", "arena", 1);
  if (__asan_region_is_poisoned(at, n))
    wrong = "memory that the parent hands out is not accessible: it was given back in that state";
  held.push_back({at, n});
  return at;
}

void Arena::deallocate(void* p, std::size_t)
{
  for (std::size_t i = 0; i < held.size(); ++i)
    if (held[i].p == p) {
      char* bad = (char*)__asan_region_is_poisoned(p, held[i].n);
      if (bad && wrong.empty())
        wrong = "a block of " + S(held[i].n) + " bytes given back to the parent is not accessible at byte " + S(bad - (char*)p);
      ASAN_UNPOISON_MEMORY_REGION(p, held[i].n);
      held.erase(held.begin() + i);
      return;
    }
}

umpire::strategy::PoolCoalesceHeuristic<us::QuickPool> qh(const Layer& l)
{
  if (l.heur < 0)
    return l.hwm ? us::QuickPool::blocks_releasable_hwm(-l.heur) : us::QuickPool::blocks_releasable(-l.heur);
  return l.hwm ? us::QuickPool::percent_releasable_hwm(l.heur) : us::QuickPool::percent_releasable(l.heur);
}
umpire::strategy::PoolCoalesceHeuristic<us::DynamicPoolList> dh(const Layer& l)
{
  if (l.heur < 0)
    return l.hwm ? us::DynamicPoolList::blocks_releasable_hwm(-l.heur) : us::DynamicPoolList::blocks_releasable(-l.heur);
  return l.hwm ? us::DynamicPoolList::percent_releasable_hwm(l.heur) : us::DynamicPoolList::percent_releasable(l.heur);
}

template <class B>
struct Untracked : B {
  template <class... A>
  explicit Untracked(A&&... a) : B(std::forward<A>(a)...)
  {
    this->setTracking(false);
  }
};

void build(World& w)
{
  AllocationStrategy* below = &w.arena;
  umpire::Allocator host = umpire::ResourceManager::getInstance().getAllocator("HOST");
  if (w.s.host)
    below = host.getAllocationStrategy();
  for (int i = (int)w.s.layers.size() - 1; i >= 0; --i) {
    const Layer& l = w.s.layers[i];
    umpire::Allocator par(below);
    std::string nm = "layer" + S(i);
    int id = 2000 + i;
    AllocationStrategy* x = nullptr;
    switch (l.k) {
      case QP:
        x = w.s.untracked && i == 0 ? new Untracked<us::QuickPool>(nm, id, par, l.a, l.b, l.c, qh(l))
                                    : new us::QuickPool(nm, id, par, l.a, l.b, l.c, qh(l));
        break;
      case DPL:
        x = w.s.untracked && i == 0 ? new Untracked<us::DynamicPoolList>(nm, id, par, l.a, l.b, l.c, dh(l))
                                    : new us::DynamicPoolList(nm, id, par, l.a, l.b, l.c, dh(l));
        break;
      case FIXED:
        x = new us::FixedPool(nm, id, par, l.a, l.b);
        break;
      case MIXED:
        x = new us::MixedPool(nm, id, par, l.a, l.b, l.c, (std::size_t)2, (std::size_t)256, (std::size_t)128, (std::size_t)16,
                              us::QuickPool::percent_releasable(100));
        break;
      case SLOT:
        x = new us::SlotPool(nm, id, par, l.a);
        break;
      case MONO:
        x = new us::MonotonicAllocationStrategy(nm, id, par, l.a);
        break;
      case LIMIT:
        x = new us::SizeLimiter(nm, id, par, l.a);
        break;
      case ALIGN:
        x = new us::AlignedAllocator(nm, id, par, l.c);
        break;
      case TSAFE:
        x = new us::ThreadSafeAllocator(nm, id, par);
        break;
      case NAMED:
        x = new us::NamedAllocationStrategy(nm, id, par);
        break;
      case SHIM:
        x = new us::NamingShim(nm, id, par);
        break;
    }
    w.strat.emplace_back(x);
    below = x;
  }
}

void look(World& w, const char* when)
{
  if (!w.arena.wrong.empty())
    w.c.fail(std::string(when) + ": " + w.arena.wrong);
  if (w.c.replayed())
    return;
  for (auto& l : w.live) {
    char* bad = (char*)__asan_region_is_poisoned(l.p, l.n);
    w.c.require_f(!bad, [&] { return std::string(when) + ": byte " + S(bad - l.p) + " of a live allocation of " + S(l.n) + " is not accessible"; });
    for (std::size_t i = 0; i < l.n; ++i)
      if ((unsigned char)l.p[i] != l.pat)
        w.c.fail(std::string(when) + ": contents of a live allocation changed");
  }
  auto is_live = [&](uintptr_t g) { // the eight bytes at g: how many from its start are to be accessible
    int n = 0;
    for (auto& l : w.live) {
      uintptr_t b = (uintptr_t)l.p, e = b + l.n;
      if (b < g + 8 && e > g)
        n = std::max(n, (int)std::min<uintptr_t>(8, e - g));
    }
    return n;
  };
  if (w.s.exact && !w.s.host) {
    for (auto& b : w.arena.held)
      for (uintptr_t g = ((uintptr_t)b.p + 7) & ~(uintptr_t)7; g + 8 <= (uintptr_t)b.p + b.n; g += 8) {
        int n = is_live(g);
        for (int i = n; i < 8; ++i)
          if (!__asan_address_is_poisoned((void*)(g + i)))
            w.c.fail(std::string(when) + ": byte " + S(g + i - (uintptr_t)b.p) + " of a block of " + S(b.n) +
                     " held by the pool is accessible and not part of a live allocation");
      }
    w.c.check();
  }
  if (w.s.host)
    for (auto& f : w.freed) {
      for (uintptr_t g = ((uintptr_t)f.p + 7) & ~(uintptr_t)7; g + 8 <= (uintptr_t)f.p + f.n; g += 8)
        if (!is_live(g) && !__asan_address_is_poisoned((void*)g))
          w.c.fail(std::string(when) + ": memory freed to the pool is accessible");
      w.c.check();
    }
}

bool pools_only(const World& w)
{
  Kind k = w.s.layers[0].k;
  return k == QP || k == DPL;
}

void history(mc::Ctx& c, const Spec& s)
{
  if (!g_mem) {
    g_mem = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (g_mem == MAP_FAILED)
      _exit(3);
  }
  ASAN_UNPOISON_MEMORY_REGION(g_mem, ARENA);
  World w(s, c);
  g_w = &w;
  auto& rm = umpire::ResourceManager::getInstance();
  struct End {
    World& w;
    bool done{false};
    ~End()
    {
      if (!done) {
        w.armed = false;
        try {
          umpire::Allocator al(w.strat.back().get());
          for (auto& l : w.live)
            al.deallocate(l.p);
        } catch (...) {
        }
      }
    }
  } end{w};
  try {
    build(w);
  } catch (std::exception&) {
    end.done = true;
    c.prune("construction refused");
  }
  umpire::Allocator al(w.strat.back().get());
  look(w, "after creation");
  const int ns = (int)s.sizes.size();
  const bool rel = pools_only(w) || s.layers[0].k == MIXED;
  const bool real = pools_only(w);
  int serial = 0;
  auto put = [&](char* p, std::size_t n) {
    Live l{p, n, (unsigned char)(0x30 + ++serial)};
    char* bad = (char*)__asan_region_is_poisoned(p, n);
    c.require_f(!bad, [&] { return "byte " + S(bad - p) + " of a new allocation of " + S(n) + " is not accessible"; });
    for (std::size_t i = 0; i < n; ++i)
      p[i] = (char)l.pat;
    w.live.push_back(l);
  };
  for (int d = 0; d < s.depth; ++d) {
    const int nl = (int)w.live.size();
    int k = c.choose(1 + ns + nl + (rel ? 1 : 0) + (real ? 1 : 0) + (real && nl && !s.untracked ? ns : 0));
    if (k == 0)
      break;
    --k;
    c.step();
    w.armed = true;
    try {
      if (k < ns) {
        c.log("allocate " + S(s.sizes[k]));
        char* p = (char*)al.allocate(s.sizes[k]);
        put(p, s.sizes[k]);
      } else if ((k -= ns) < nl) {
        Live l = w.live[k];
        c.log("free the allocation of " + S(l.n));
        w.live.erase(w.live.begin() + k);
        w.freed.push_back({l.p, l.n});
        al.deallocate(l.p);
      } else if ((k -= nl) == 0 && rel) {
        c.log("release");
        w.freed.clear();
        al.release();
      } else if (--k == 0 && real) {
        c.log("coalesce");
        w.freed.clear();
        if (auto* q = dynamic_cast<us::QuickPool*>(w.strat.back().get()))
          q->coalesce();
        if (auto* q = dynamic_cast<us::DynamicPoolList*>(w.strat.back().get()))
          q->coalesce();
      } else {
        --k;
        Live l = w.live[0];
        c.log("reallocate the oldest, of " + S(l.n) + ", to " + S(s.sizes[k]));
        w.live.erase(w.live.begin());
        char* p = nullptr;
        try {
          p = (char*)rm.reallocate(l.p, s.sizes[k]);
        } catch (std::exception&) {
          w.live.insert(w.live.begin(), l);
          throw;
        }
        w.freed.push_back({l.p, l.n});
        std::size_t m = std::min(l.n, s.sizes[k]);
        for (std::size_t i = 0; i < m; ++i)
          if ((unsigned char)p[i] != l.pat)
            c.fail("reallocate loses contents");
        put(p, s.sizes[k]);
      }
    } catch (umpire::out_of_memory_error&) {
      c.log("  -> out of memory");
    } catch (umpire::runtime_error&) {
      c.log("  -> error");
    }
    w.armed = false;
    look(w, "after the step");
    mc::Hash h;
    h.add(s.name);
    for (auto& b : w.arena.held)
      h.add(b.p - g_mem).add(b.n);
    for (auto& l : w.live)
      h.add(s.host ? 0 : l.p - g_mem).add(l.n);
    c.state(h.h);
  }
  while (!w.live.empty()) {
    Live l = w.live.back();
    w.live.pop_back();
    w.freed.push_back({l.p, l.n});
    al.deallocate(l.p);
    look(w, "while everything is freed");
  }
  w.freed.clear();
  while (!w.strat.empty())
    w.strat.pop_back();
  end.done = true;
  if (!w.arena.wrong.empty())
    c.fail("after destruction: " + w.arena.wrong);
}

std::vector<Spec> g_specs;

void make_specs(bool th)
{
  auto q = [](std::size_t a, std::size_t b, std::size_t c, int h, bool hw = false) { return Layer{QP, a, b, c, h, hw}; };
  auto l = [](std::size_t a, std::size_t b, std::size_t c, int h, bool hw = false) { return Layer{DPL, a, b, c, h, hw}; };
  const int D = th ? 7 : 6;
  for (int which : {0, 1}) {
    std::string nm = which ? "list" : "quick";
    auto mk = [&](std::size_t a, std::size_t b, std::size_t c, int h, bool hw = false) { return which ? l(a, b, c, h, hw) : q(a, b, c, h, hw); };
    g_specs.push_back({nm + "-100hwm", {mk(64, 32, 16, 100, true)}, {1, 16, 40}, D});
    g_specs.push_back({nm + "-untracked", {mk(64, 32, 16, 100)}, {1, 16, 40}, D, 0, true, false, true});
    g_specs.push_back({nm + "-untracked-host", {mk(256, 128, 16, 0)}, {16, 100}, D, 0, true, true, true});
    g_specs.push_back({nm + "-50", {mk(64, 48, 16, 50)}, {8, 31, 60}, D});
    g_specs.push_back({nm + "-none", {mk(128, 64, 8, 0)}, {5, 24, 57}, D});
    g_specs.push_back({nm + "-2blocks", {mk(128, 64, 64, -2)}, {1, 64, 100}, D});
    g_specs.push_back({nm + "-a1", {mk(40, 24, 1, 100)}, {1, 7, 24}, D, 0, false});
    g_specs.push_back({nm + "-refused", {mk(64, 32, 16, 50)}, {16, 40}, D - 1, 1});
    g_specs.push_back({nm + "-host", {mk(256, 128, 16, 0)}, {16, 100}, D, 0, true, true});
    g_specs.push_back({nm + "-host-odd", {mk(256, 128, 16, 0)}, {3, 129}, D, 0, true, true});
    g_specs.push_back({nm + "-on-quick", {mk(48, 48, 16, 100), q(128, 64, 16, 50)}, {8, 40}, D});
    g_specs.push_back({nm + "-on-list", {mk(48, 48, 16, 100), l(128, 64, 16, 100)}, {8, 40}, D});
    g_specs.push_back({nm + "-on-slot", {mk(64, 64, 16, 100), Layer{SLOT, 4}}, {8, 40}, D, 0, false});
    g_specs.push_back({nm + "-on-limit", {mk(64, 64, 16, 100), Layer{LIMIT, 400}}, {8, 40, 100}, D});
    g_specs.push_back({"limit-on-" + nm, {Layer{LIMIT, 200}, mk(64, 64, 16, 100)}, {8, 40}, D});
    g_specs.push_back({"tsafe-on-" + nm, {Layer{TSAFE}, mk(64, 64, 16, 100)}, {8, 40}, D});
    g_specs.push_back({"named-on-" + nm, {Layer{NAMED}, mk(64, 64, 16, 100)}, {8, 40}, D});
    g_specs.push_back({"shim-on-" + nm, {Layer{SHIM}, mk(64, 64, 16, 100)}, {8, 40}, D});
    g_specs.push_back({"aligned-on-" + nm, {Layer{ALIGN, 0, 0, 32}, mk(128, 64, 16, 100)}, {8, 40}, D, 0, false});
    g_specs.push_back({"fixed-on-" + nm, {Layer{FIXED, 24, 2}, mk(128, 64, 16, 100)}, {24}, D + 1, 0, false});
    g_specs.push_back({"slot-on-" + nm, {Layer{SLOT, 3}, mk(64, 64, 16, 100)}, {8, 40}, D, 0, false});
    g_specs.push_back({"mono-on-" + nm, {Layer{MONO, 200}, mk(64, 64, 16, 100)}, {8, 40}, D, 0, false});
    g_specs.push_back({"mixed-on-" + nm, {Layer{MIXED, 16, 32, 64}, mk(256, 64, 16, 100)}, {16, 32, 100}, D - 1, 0, false});
  }
  g_specs.push_back({"mixed", {Layer{MIXED, 16, 64, 128}}, {9, 33, 300}, D, 0, false});
  g_specs.push_back({"aligned", {Layer{ALIGN, 0, 0, 64}}, {1, 64, 100}, D, 0, false});
  g_specs.push_back({"fixed", {Layer{FIXED, 24, 2}}, {24}, D, 0, false});
}
} // namespace

int main(int argc, char** argv)
{
  umpire::ResourceManager::getInstance();
  umpire::log().rdbuf(nullptr);
  umpire::error().rdbuf(nullptr);
  return mc::mc_main(argc, argv, [](const mc::Options& o) {
    make_specs(o.tier == "thorough");
    std::vector<mc::Config> v;
    for (auto& s : g_specs) {
      mc::Config cfg;
      cfg.name = s.name;
      const Spec* sp = &s;
      cfg.bounds = "all histories of " + S(s.depth) + " operations over " + S(s.sizes.size()) + " sizes, at most " + S(s.faults) + " refusals";
      cfg.body = [sp](mc::Ctx& c) { history(c, *sp); };
      cfg.split = 3;
      v.push_back(cfg);
    }
    return v;
  });
}
