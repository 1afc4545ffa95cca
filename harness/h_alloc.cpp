// Exhaustive exploration of operation histories on real allocator stacks
// (P01 P02 P04 P05 P06 P07 P08 P09 P27).
//
// A stack is a chain  top -> tap -> middle -> ... -> arena.  The arena is a
// user-defined allocation strategy over a canary-filled region; taps are
// pass-through strategies that record what each layer takes from the layer
// below.  Each bounded history of allocate / free / release / coalesce calls,
// combined with every placement of at most `faults` refusals by the arena, is
// executed on the real code and compared with a reference model after every
// operation.
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <vector>

#include "mc.hpp"
#include "umpire/util/io.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/TypedAllocator.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/NamingShim.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/Logger.hpp"
#include "umpire/util/error.hpp"

using umpire::strategy::AllocationStrategy;
namespace us = umpire::strategy;

namespace {

int g_prop = 0;

struct Fails {
  std::vector<std::pair<int, std::string>> v;
  bool hard{false};
  void add(int prop, const std::string& m, bool h = false)
  {
    if (v.size() < 16)
      v.emplace_back(prop, m);
    // memory corruption and unmatched frees: nothing afterwards can be judged
    if (h || prop == 1 || prop == 6)
      hard = true;
  }
  // Mine first. A failure of another property ends the history if the state
  // cannot be trusted any more, and is left to that property's check otherwise.
  void raise(mc::Ctx& c)
  {
    c.check();
    if (v.empty())
      return;
    for (auto& f : v)
      if (f.first == g_prop)
        c.fail(f.second);
    std::string why = v[0].second;
    v.clear();
    if (hard)
      c.prune(why);
  }
};

std::string hex(const void* p)
{
  char b[32];
  snprintf(b, sizeof b, "%p", p);
  return b;
}
std::string S(std::size_t n)
{
  return std::to_string(n);
}

struct Rec {
  char* p;
  std::size_t n;
};

struct Recorder {
  std::vector<Rec> live;
  std::size_t cur{0}, count{0}, hwm{0};
  // since the start of the current call into the layer above
  int calls{0}, refused{0}, freed{0};
  bool last_refused{false};
  bool last_oom{false};
  std::vector<Rec> got;
  std::vector<Rec> gave;
  void begin()
  {
    calls = refused = freed = 0;
    last_refused = last_oom = false;
    got.clear();
    gave.clear();
  }
  void add(char* p, std::size_t n)
  {
    live.push_back({p, n});
    got.push_back({p, n});
    cur += n;
    count++;
    hwm = std::max(hwm, cur);
  }
  int find(const char* p) const
  {
    for (std::size_t i = 0; i < live.size(); ++i)
      if (live[i].p == p)
        return (int)i;
    return -1;
  }
  void del(int i)
  {
    cur -= live[i].n;
    count--;
    freed++;
    gave.push_back(live[i]);
    live.erase(live.begin() + i);
  }
};

struct UserAlloc {
  char* p;
  std::size_t n;
  unsigned char pat;
};

enum Kind { QP, DPL, FIXED, MIXED, SLOT, MONO, LIMIT, ALIGN, TSAFE, NAMED, SHIM, TOPTAP };

struct Heur {
  enum T { PCT, PCT_HWM, BLK, BLK_HWM } t{PCT_HWM};
  int v{100};
};

struct LayerSpec {
  Kind kind;
  std::size_t a{0}, b{0}, c{16};
  Heur heur{};
  bool untracked{false};
};

LayerSpec quick(std::size_t first, std::size_t next, std::size_t al, Heur h = {})
{
  return {QP, first, next, al, h};
}
LayerSpec plist(std::size_t first, std::size_t next, std::size_t al, Heur h = {})
{
  return {DPL, first, next, al, h};
}
LayerSpec fixed(std::size_t obj, std::size_t per)
{
  return {FIXED, obj, per};
}
LayerSpec mixed(std::size_t smallest, std::size_t largest, std::size_t maxinit)
{
  return {MIXED, smallest, largest, maxinit};
}
LayerSpec slot(std::size_t n)
{
  return {SLOT, n};
}
LayerSpec mono(std::size_t cap)
{
  return {MONO, cap};
}
LayerSpec limit(std::size_t lim)
{
  return {LIMIT, lim};
}
LayerSpec alignd(std::size_t al)
{
  return {ALIGN, 0, 0, al};
}
LayerSpec tsafe()
{
  return {TSAFE};
}
LayerSpec named()
{
  return {NAMED};
}
LayerSpec shim()
{
  return {SHIM};
}
LayerSpec untr(LayerSpec s)
{
  s.untracked = true;
  return s;
}

struct Spec {
  std::string name;
  std::vector<LayerSpec> layers; // top first
  std::vector<std::size_t> sizes;
  int depth{5};
  int faults{0};
  int policy{0};
  std::size_t capacity{8192}; // bytes the arena will give out at most
  std::size_t arena{1 << 15}; // bytes it is laid out in
  // patterns: counts of allocations to fill the stack with (none: histories)
  std::vector<int> counts;
  int rules{10}, rules2{3}, refills{3};
  bool zero{false};
  bool release{true};
  bool coalesce{false};
  bool named_alloc{false};
  bool rm_free{false};
  int max_live{8};
  int max_blocks{0};   // offer only requests that need no more than so many blocks
  bool drain{false};   // end each history by filling the free space
  bool one_fault{false}; // refusals are out-of-memory errors only
  bool sparse{false};    // sizes of gigabytes: only the ends of each block are written and read
};

struct World;
World* g_world = nullptr;

struct Layer;

constexpr std::size_t ARENA_MAX = 1 << 23;
constexpr unsigned char CANARY = 0xC5;
char* g_arena_mem = nullptr;  // of the stack under test: one of the next two
char* g_dense_mem = nullptr;
char* g_sparse_mem = nullptr;
constexpr std::size_t SPARSE_MAX = std::size_t(1) << 38;

// The parts of a block that are written and read back.
void spans(const Spec& s, char* p, std::size_t n, const std::function<void(char*, std::size_t)>& f)
{
  if (!s.sparse || n <= 4096) {
    f(p, n);
    return;
  }
  f(p, 64);
  for (std::size_t at : {std::size_t(1) << 31, std::size_t(1) << 32})
    if (n > at + 128)
      f(p + at - 32, 64);
  f(p + n - 64, 64);
}

struct Layer {
  LayerSpec spec;
  std::unique_ptr<AllocationStrategy> strat;
  Recorder* below{nullptr}; // blocks this layer holds
  Recorder* above{nullptr}; // allocations it has handed out
  long slack{-1};           // pool: parent block bytes that are not counted in the actual size
  std::size_t actual_hwm{0}, aligned_hwm{0};
  std::size_t fixed_per_pool{0};
  std::size_t mono_used{0};
  std::map<std::size_t, std::size_t> class_peak; // mixed
  struct Slot {
    char* p;
    std::size_t n;
    bool used;
  };
  std::vector<Slot> slots;
  // state before the current call into this layer
  bool had_releasable{false};
  std::vector<Rec> before;
};

class Arena : public AllocationStrategy {
 public:
  Arena(const std::string& name, int id) : AllocationStrategy(name, id, nullptr, "Arena")
  {
  }
  umpire::Platform getPlatform() noexcept override
  {
    return umpire::Platform::host;
  }
  umpire::MemoryResourceTraits getTraits() const noexcept override
  {
    return umpire::MemoryResourceTraits{};
  }
  Recorder rec;

 private:
  void* allocate(std::size_t n) override;
  void deallocate(void* p, std::size_t n) override;
};

class Tap : public AllocationStrategy {
 public:
  Tap(const std::string& name, int id, Layer* under)
      : AllocationStrategy(name, id, under->strat.get(), "Tap"), m_under(under)
  {
  }
  umpire::Platform getPlatform() noexcept override
  {
    return umpire::Platform::host;
  }
  umpire::MemoryResourceTraits getTraits() const noexcept override
  {
    return umpire::MemoryResourceTraits{};
  }
  Recorder rec;

 private:
  Layer* m_under;
  void* allocate(std::size_t n) override;
  void deallocate(void* p, std::size_t n) override;
};

std::size_t round_up(std::size_t n, std::size_t a)
{
  return (n + a - 1) / a * a;
}

struct PoolView {
  std::size_t total{0}, releasable{0}, actual{0}, releasable_bytes{0}, largest{0}, aligned{0}, pieces{0};
  std::vector<Rec> releasable_blocks;
};

struct World {
  const Spec& spec;
  mc::Ctx& c;
  Fails fails;
  int faults_left;
  bool faults_on{true};
  std::unique_ptr<Arena> arena;
  std::vector<std::unique_ptr<Tap>> taps;
  std::vector<std::unique_ptr<Layer>> layers; // top first
  Recorder top;                               // user allocations (excluding zero-byte ones)
  std::vector<UserAlloc> user;
  std::vector<void*> zeros;
  unsigned seq{0};
  std::size_t place_seq{0};

  World(const Spec& s, mc::Ctx& ctx) : spec(s), c(ctx), faults_left(s.faults)
  {
  }

  // ---- reference view of a coalescing pool ---------------------------------
  PoolView view(Layer& l, bool with_slack)
  {
    PoolView v;
    const std::size_t A = l.spec.c;
    std::size_t slack = with_slack && l.slack > 0 ? l.slack : 0;
    std::vector<Rec> above = l.above->live;
    auto less = [](const Rec& x, const Rec& y) { return x.p < y.p; };
    std::sort(above.begin(), above.end(), less);
    for (auto& b : l.below->live) {
      v.total++;
      std::size_t len = b.n - slack;
      v.actual += len;
      char* start = reinterpret_cast<char*>(round_up(reinterpret_cast<std::size_t>(b.p), A));
      char* end = start + len;
      auto first = std::lower_bound(above.begin(), above.end(), Rec{b.p, 0}, less);
      auto last = std::lower_bound(first, above.end(), Rec{b.p + b.n, 0}, less);
      char* at = start;
      for (auto i = first; i != last; ++i) {
        const Rec& a = *i;
        if (a.p > at) {
          v.largest = std::max<std::size_t>(v.largest, a.p - at);
          v.pieces++;
        }
        at = a.p + round_up(a.n, A);
        v.aligned += round_up(a.n, A);
        v.pieces++;
      }
      if (end > at) {
        v.largest = std::max<std::size_t>(v.largest, end - at);
        v.pieces++;
      }
      if (first == last) {
        v.releasable++;
        v.releasable_bytes += len;
        v.releasable_blocks.push_back(b);
      }
    }
    return v;
  }

  bool coalescing(const Layer& l) const
  {
    return l.spec.kind == QP || l.spec.kind == DPL;
  }

  template <typename F>
  void with_pool(Layer& l, F f)
  {
    if (l.spec.kind == QP)
      f(*static_cast<us::QuickPool*>(l.strat.get()));
    else
      f(*static_cast<us::DynamicPoolList*>(l.strat.get()));
  }

  bool fixed_has_room(Layer& l)
  {
    return l.above->live.size() < l.below->live.size() * l.spec.b;
  }

  // does the model say that the layer itself must refuse?
  bool capacity_refuses(Layer& l, std::size_t n)
  {
    switch (l.spec.kind) {
      case LIMIT:
        return n > l.spec.a || l.above->cur > l.spec.a - n;
      case MONO:
        return n > l.spec.a || l.mono_used > l.spec.a - n;
      case SLOT: {
        for (auto& s : l.slots)
          if (!s.used && s.n == n)
            return false;
        return l.slots.size() >= l.spec.a || (int64_t)n < 0;
      }
      case FIXED:
        return n > l.spec.a;
      default:
        return false;
    }
  }

  void before_alloc(Layer& l, std::size_t)
  {
    l.below->begin();
    l.before = l.below->live;
    l.had_releasable = false;
    if (coalescing(l))
      l.had_releasable = view(l, true).releasable > 0;
  }

  bool overhead_overflow(Layer& l, std::size_t n)
  {
    // sizes whose rounding or overhead cannot be represented
    return n > SIZE_MAX - 2 * l.spec.c - 64 || n > PTRDIFF_MAX;
  }

  void alloc_ok(Layer& l, void* vp, std::size_t n, const PoolView& pre)
  {
    char* p = static_cast<char*>(vp);
    const char* who = l.strat->getStrategyName().c_str();
    if (!p) {
      fails.add(1, std::string(who) + " returned null for " + S(n));
      fails.add(l.spec.kind == SLOT || l.spec.kind == MONO || l.spec.kind == LIMIT ? 9 : 5,
                std::string(who) + " returned null instead of raising an error");
      if (capacity_refuses(l, n))
        fails.add(9, std::string(who) + " did not raise an error for a request that does not fit");
      return;
    }
    // inside one block obtained from below
    bool inside = false;
    for (auto& b : l.below->live)
      if (p >= b.p && n <= b.n && p + n <= b.p + b.n)
        inside = true;
    if (!inside) {
      for (int pr : {1, 2, 27})
        fails.add(pr, std::string(who) + ": " + S(n) + " bytes at " + hex(p) + " are not inside one parent block");
    }
    for (auto& a : l.above->live)
      if (p < a.p + a.n && a.p < p + n)
        fails.add(1, std::string(who) + ": new allocation overlaps a live one");
    if ((l.spec.kind == QP || l.spec.kind == DPL || l.spec.kind == ALIGN) && n > 0)
      if (reinterpret_cast<std::size_t>(p) % l.spec.c)
        fails.add(2, std::string(who) + ": address " + hex(p) + " is not a multiple of " + S(l.spec.c));
    if (capacity_refuses(l, n)) {
      fails.add(9, std::string(who) + ": request of " + S(n) + " exceeds the capacity but was granted");
      if (n > SIZE_MAX / 2)
        fails.add(27, std::string(who) + ": unsatisfiable request granted");
    }
    if (overhead_overflow(l, n))
      fails.add(27, std::string(who) + ": unsatisfiable request of " + S(n) + " bytes granted");
    switch (l.spec.kind) {
      case QP:
      case DPL: {
        std::size_t R = round_up(n, l.spec.c);
        if (l.slack >= 0 || pre.total == 0) {
          if (pre.largest >= R && l.below->calls)
            fails.add(7, std::string(who) + ": asked the parent although " + S(pre.largest) +
                             " contiguous bytes were free for a request of " + S(n));
        }
        if (l.below->got.size() > 1)
          fails.add(7, std::string(who) + ": took more than one block for one request");
        for (auto& g : l.below->got) {
          std::size_t min = pre.total == 0 ? l.spec.a : l.spec.b;
          if (g.n < min)
            fails.add(7, std::string(who) + ": new block of " + S(g.n) + " is smaller than the minimum " + S(min));
        }
        break;
      }
      case FIXED:
        if (l.above->live.size() < l.before.size() * l.spec.b && l.below->calls)
          fails.add(7, "FixedPool asked the parent although a slot was free");
        break;
      case MIXED: {
        std::size_t cls = n, live = 0;
        for (auto& a : l.above->live)
          if (a.n == n)
            live++;
        if (n <= l.spec.b && l.class_peak[cls] > live && l.below->calls)
          fails.add(7, "MixedPool asked the parent although it held a freed object of that size");
        l.class_peak[cls] = std::max(l.class_peak[cls], live + 1);
        break;
      }
      case SLOT: {
        bool reused = false;
        for (auto& s : l.slots)
          if (s.p == p) {
            if (s.used || s.n != n)
              fails.add(1, "SlotPool handed out a slot that is in use or of another size");
            s.used = true;
            reused = true;
            break;
          }
        if (!reused) {
          for (auto& s : l.slots)
            if (!s.used && s.n == n)
              fails.add(9, "SlotPool used another slot although a freed one of that size was there");
          l.slots.push_back({p, n, true});
        }
        if (l.below->live.size() > l.spec.a)
          fails.add(9, "SlotPool holds more blocks than it has slots");
        break;
      }
      case MONO:
        l.mono_used += n;
        break;
      default:
        break;
    }
    l.above->add(p, n);
  }

  void alloc_threw(Layer& l, std::size_t n)
  {
    std::string who = l.strat->getStrategyName();
    bool parent = l.below->calls > 0 && l.below->last_refused;
    if (!parent && !capacity_refuses(l, n) && !overhead_overflow(l, n)) {
      fails.add(5, who + ": request of " + S(n) + " bytes failed although the parent did not refuse it");
      if (l.spec.kind == LIMIT || l.spec.kind == MONO || l.spec.kind == SLOT)
        fails.add(9, who + ": request of " + S(n) + " bytes fits but was refused");
    }
    if (coalescing(l)) {
      if (parent) {
        if (l.had_releasable && l.below->calls < 2)
          fails.add(5, who + ": did not retry after giving back its unused blocks");
        if (view(l, true).releasable != 0)
          fails.add(5, who + ": refused a request while still holding unused blocks");
      }
      if (!l.below->got.empty())
        fails.add(5, who + ": a failed allocation left new blocks behind");
    } else if ((l.below->live.size() != l.before.size() && l.spec.kind != MIXED) || !l.below->got.empty()) {
      fails.add(5, who + ": a failed allocation changed the blocks held");
      if (l.spec.kind == LIMIT || l.spec.kind == MONO || l.spec.kind == SLOT)
        fails.add(9, who + ": a failed allocation changed the blocks held");
    }
    if (overhead_overflow(l, n) && l.below->count != l.before.size() && !coalescing(l) && l.spec.kind != MIXED)
      fails.add(27, who + ": refused unsatisfiable request changed the blocks held");
  }

  // heuristic asked for by the configuration: 0 no, 1 yes, 2 rounding decides
  int heuristic(Layer& l, const PoolView& v, std::size_t& suggested)
  {
    const Heur& h = l.spec.heur;
    bool hwm = h.t == Heur::PCT_HWM || h.t == Heur::BLK_HWM;
    suggested = hwm ? std::max(l.aligned_hwm, v.aligned) : v.actual;
    if (h.t == Heur::BLK || h.t == Heur::BLK_HWM)
      return v.releasable >= (std::size_t)h.v;
    if (h.v == 0)
      return 0;
    if (h.v == 100)
      return v.actual == v.releasable_bytes;
    double th = v.actual * (h.v / 100.0);
    if (v.releasable_bytes >= th)
      return 1;
    if (v.releasable_bytes + 1.01 < th)
      return 0;
    return 2;
  }

  // after a deallocate or coalesce on pool l; `v` is the state before any
  // coalescing (but after the free)
  void check_coalesce(Layer& l, const PoolView& v)
  {
    std::string who = l.strat->getStrategyName();
    std::size_t suggested = 0;
    int h = heuristic(l, v, suggested);
    bool moved = !l.below->gave.empty() || !l.below->got.empty() || l.below->calls;
    if (!moved) {
      if (h == 1 && v.releasable > 1 && suggested > 0)
        fails.add(7, who + ": heuristic asked for coalescing but " + S(v.releasable) + " releasable blocks were kept");
      return;
    }
    if (h == 0) {
      fails.add(7, who + ": blocks were exchanged with the parent although the heuristic did not ask for it");
      return;
    }
    if (l.below->got.size() > 1)
      fails.add(7, who + ": coalescing took more than one new block");
    for (auto& r : v.releasable_blocks) {
      bool kept = l.below->find(r.p) >= 0;
      for (auto& g : l.below->got)
        if (g.p == r.p)
          kept = false;
      if (kept)
        fails.add(7, who + ": coalescing kept a releasable block");
    }
    for (auto& g : l.below->gave) {
      bool was = false;
      for (auto& r : v.releasable_blocks)
        was |= r.p == g.p;
      if (!was)
        fails.add(7, who + ": coalescing gave back a block that was not releasable");
    }
    if (!l.below->last_refused) {
      // enough to restore the suggested size, unless free space covers it
      PoolView post = view(l, true);
      std::size_t kept = v.actual - v.releasable_bytes;
      std::size_t need = suggested > kept ? suggested - kept : 0;
      if (need && post.largest < need)
        fails.add(7, who + ": after coalescing only " + S(post.largest) + " contiguous bytes are free, " + S(need) +
                         " are needed to keep the pool's size");
      for (auto& g : l.below->got)
        if (g.n < (kept ? l.spec.b : l.spec.a))
          fails.add(7, who + ": new block of " + S(g.n) + " is smaller than the minimum");
    }
  }

  // ---- invariants of every layer after every operation ---------------------
  void check_layer(Layer& l, bool is_top)
  {
    std::string who = l.strat->getStrategyName();
    std::size_t zc = is_top ? zeros.size() : 0;
    bool counted = !(is_top && l.spec.untracked);
    if (counted) {
      if (l.spec.kind != MONO) {
        std::size_t cs = l.strat->getCurrentSize();
        if (cs != l.above->cur)
          fails.add(4, who + ": current size " + S(cs) + ", live bytes are " + S(l.above->cur));
        if (l.strat->getHighWatermark() != l.above->hwm)
          fails.add(4, who + ": high watermark " + S(l.strat->getHighWatermark()) + ", largest current size was " +
                           S(l.above->hwm));
      }
      std::size_t ac = l.strat->getAllocationCount();
      if (ac != l.above->live.size() + zc)
        fails.add(4, who + ": allocation count " + S(ac) + ", live allocations are " + S(l.above->live.size() + zc));
      if (fails.v.size())
        for (int pr : {5, 9, 27})
          if (l.below->calls || is_top)
            if (refused_op)
              fails.add(pr, who + ": a refused request changed the statistics");
    }
    switch (l.spec.kind) {
      case QP:
      case DPL:
        with_pool(l, [&](auto& p) {
          std::size_t sum = l.below->cur, nb = l.below->live.size(), act = p.getActualSize();
          if (nb == 0) {
            if (act)
              fails.add(8, who + ": actual size " + S(act) + " while no block is held");
          } else {
            if (act > sum || (sum - act) % nb || (sum - act) / nb > l.spec.c ||
                (l.slack >= 0 && (long)((sum - act) / nb) != l.slack)) {
              fails.add(8, who + ": actual size " + S(act) + " does not describe the " + S(nb) + " blocks of " +
                               S(sum) + " bytes it holds", true);
              return;
            }
            l.slack = (sum - act) / nb;
          }
          PoolView v = view(l, true);
          l.actual_hwm = std::max(l.actual_hwm, v.actual);
          l.aligned_hwm = std::max(l.aligned_hwm, v.aligned);
          auto eq = [&](const char* what, std::size_t got, std::size_t want) {
            if (got != want)
              fails.add(8, who + ": " + what + " " + S(got) + ", should be " + S(want));
          };
          eq("number of blocks", p.getTotalBlocks(), v.total);
          eq("releasable blocks", p.getReleasableBlocks(), v.releasable);
          eq("releasable size", p.getReleasableSize(), v.releasable_bytes);
          eq("largest available block", p.getLargestAvailableBlock(), v.largest);
          eq("aligned size", p.getAlignedSize(), v.aligned);
          eq("aligned high watermark", p.getAlignedHighwaterMark(), l.aligned_hwm);
          eq("blocks in pool", p.getBlocksInPool(), v.pieces);
          std::size_t ah = p.getActualHighwaterMark();
          // the actual size may peak inside one operation (take before give)
          if (ah < l.actual_hwm || ah > peak_allowed(l))
            fails.add(8, who + ": actual high watermark " + S(ah) + ", should be " + S(l.actual_hwm));
          else
            l.actual_hwm = ah;
        });
        break;
      case FIXED: {
        auto& p = *static_cast<us::FixedPool*>(l.strat.get());
        if (p.numPools() != l.below->live.size())
          fails.add(8, "FixedPool: number of pools " + S(p.numPools()) + ", blocks held " + S(l.below->live.size()));
        std::size_t act = p.getActualSize();
        if (l.below->live.empty()) {
          if (act)
            fails.add(8, "FixedPool: actual size " + S(act) + " while no block is held");
        } else {
          if (!l.fixed_per_pool)
            l.fixed_per_pool = act / l.below->live.size();
          if (act != l.fixed_per_pool * l.below->live.size() || act < l.below->cur)
            fails.add(8, "FixedPool: actual size " + S(act) + " for " + S(l.below->live.size()) + " blocks of " +
                             S(l.fixed_per_pool));
        }
        break;
      }
      case MONO:
        if (l.strat->getCurrentSize() > l.spec.a || l.strat->getCurrentSize() != l.mono_used) {
          fails.add(9, "Monotonic allocator: " + S(l.strat->getCurrentSize()) + " bytes used, " + S(l.mono_used) +
                           " were handed out, capacity " + S(l.spec.a));
          if (refused_op)
            fails.add(5, "Monotonic allocator: a refused request changed the remaining capacity");
        }
        break;
      case LIMIT:
        if (l.below->cur > l.spec.a)
          fails.add(9, "SizeLimiter: " + S(l.below->cur) + " bytes taken, limit " + S(l.spec.a));
        break;
      default:
        break;
    }
    // parents account exactly for what was requested from them
    AllocationStrategy* par = l.strat->getParent();
    if (par) {
      if (par->getCurrentSize() != l.below->cur || par->getAllocationCount() != l.below->live.size() ||
          par->getHighWatermark() != l.below->hwm) {
        fails.add(4, "parent of " + who + ": statistics " + S(par->getCurrentSize()) + "/" +
                         S(par->getAllocationCount()) + "/" + S(par->getHighWatermark()) + ", should be " +
                         S(l.below->cur) + "/" + S(l.below->live.size()) + "/" + S(l.below->hwm));
        if (refused_op)
          fails.add(5, "parent of " + who + ": a refused request changed the statistics");
      }
    }
  }
  bool refused_op{false};
  bool finishing{false};

  std::size_t peak_allowed(Layer& l)
  {
    std::size_t x = std::max(l.actual_hwm, view(l, true).actual);
    return x;
  }

  // The operation just executed was already executed, with the same choices,
  // by the previous history: its outcome has been judged.
  bool replayed() const
  {
    return !c.verbose && c.taken.size() < c.prefix.size();
  }

  void check_memory(bool whole)
  {
    if (spec.sparse) {
      for (auto& u : user)
        spans(spec, u.p, u.n, [&](char* p, std::size_t n) {
          for (std::size_t i = 0; i < n; ++i)
            if ((unsigned char)p[i] != u.pat) {
              fails.add(1, "contents of a live allocation changed (byte " + S(p + i - u.p) + " of " + S(u.n) + ")");
              break;
            }
        });
      return;
    }
    for (auto& u : user) {
      if (u.n > 64 && (unsigned char)u.p[0] == u.pat && memcmp(u.p, u.p + 1, u.n - 1) == 0)
        continue;
      for (std::size_t i = 0; i < u.n; ++i)
        if ((unsigned char)u.p[i] != u.pat) {
          fails.add(1, "contents of a live allocation changed (byte " + S(i) + " of " + S(u.n) + ")");
          if (refused_op)
            fails.add(5, "a refused request changed the contents of a live allocation");
          break;
        }
    }
    // everything outside the arena's blocks is untouched
    std::vector<Rec> b = arena->rec.live;
    std::sort(b.begin(), b.end(), [](const Rec& x, const Rec& y) { return x.p < y.p; });
    char* at = g_arena_mem;
    static unsigned char ref[ARENA_MAX];
    static bool init = false;
    if (!init) {
      memset(ref, CANARY, sizeof ref);
      init = true;
    }
    auto test = [&](char* from, char* to) {
      if (to > from && memcmp(from, ref, to - from))
        fails.add(1, "memory outside the blocks obtained from the parent was written");
    };
    for (auto& x : b) {
      test(whole ? at : std::max(at, x.p - 256), x.p);
      at = x.p + x.n;
      if (!whole)
        test(at, std::min(at + 256, &x == &b.back() ? g_arena_mem + spec.arena : (&x)[1].p));
    }
    if (whole)
      test(at, g_arena_mem + spec.arena);
  }

  void hash_state()
  {
    mc::Hash h;
    h.add(spec.name);
    for (auto& b : arena->rec.live)
      h.add(b.p - g_arena_mem).add(b.n);
    h.add(~0ull);
    for (auto& l : layers) {
      std::vector<Rec> v = l->above->live;
      std::sort(v.begin(), v.end(), [](const Rec& x, const Rec& y) { return x.p < y.p; });
      for (auto& b : v)
        h.add(b.p - g_arena_mem).add(b.n);
      h.add(~1ull).add(l->above->hwm);
    }
    h.add(zeros.size()).add(faults_left);
    c.state(h.h);
  }

  void check_all()
  {
    for (std::size_t i = 0; i < layers.size(); ++i)
      check_layer(*layers[i], i == 0);
    if (replayed()) {
      fails.v.clear();
      return;
    }
    check_memory(false);
    fails.raise(c);
    if (!finishing)
      hash_state();
  }

  // ---- construction ----------------------------------------------------------
  template <typename T>
  static T heuristic_of(const Heur&);

  static us::PoolCoalesceHeuristic<us::QuickPool> qh(const Heur& h)
  {
    switch (h.t) {
      case Heur::PCT:
        return us::QuickPool::percent_releasable(h.v);
      case Heur::PCT_HWM:
        return us::QuickPool::percent_releasable_hwm(h.v);
      case Heur::BLK:
        return us::QuickPool::blocks_releasable(h.v);
      default:
        return us::QuickPool::blocks_releasable_hwm(h.v);
    }
  }
  static us::PoolCoalesceHeuristic<us::DynamicPoolList> dh(const Heur& h)
  {
    switch (h.t) {
      case Heur::PCT:
        return us::DynamicPoolList::percent_releasable(h.v);
      case Heur::PCT_HWM:
        return us::DynamicPoolList::percent_releasable_hwm(h.v);
      case Heur::BLK:
        return us::DynamicPoolList::blocks_releasable(h.v);
      default:
        return us::DynamicPoolList::blocks_releasable_hwm(h.v);
    }
  }

  template <typename St>
  struct Untracked : St {
    template <typename... A>
    Untracked(A&&... a) : St(std::forward<A>(a)...)
    {
      this->setTracking(false);
    }
  };

  template <typename St, typename... A>
  std::unique_ptr<AllocationStrategy> mk(bool untracked, A&&... a)
  {
    if (untracked)
      return std::unique_ptr<AllocationStrategy>(new Untracked<St>(std::forward<A>(a)...));
    return std::unique_ptr<AllocationStrategy>(new St(std::forward<A>(a)...));
  }

  void make(Layer& l, AllocationStrategy* parent, int id)
  {
    umpire::Allocator par(parent);
    std::string nm = "layer" + std::to_string(id);
    auto& s = l.spec;
    switch (s.kind) {
      case QP:
        l.strat = mk<us::QuickPool>(s.untracked, nm, id, par, s.a, s.b, s.c, qh(s.heur));
        break;
      case DPL:
        l.strat = mk<us::DynamicPoolList>(s.untracked, nm, id, par, s.a, s.b, s.c, dh(s.heur));
        break;
      case FIXED:
        l.strat = mk<us::FixedPool>(s.untracked, nm, id, par, s.a, s.b);
        break;
      case MIXED:
        l.strat = mk<us::MixedPool>(s.untracked, nm, id, par, s.a, s.b, s.c, (std::size_t)2, (std::size_t)256,
                                    (std::size_t)128, (std::size_t)16, us::QuickPool::percent_releasable(100));
        break;
      case SLOT:
        l.strat = mk<us::SlotPool>(s.untracked, nm, id, par, s.a);
        break;
      case MONO:
        l.strat = mk<us::MonotonicAllocationStrategy>(s.untracked, nm, id, par, s.a);
        break;
      case LIMIT:
        l.strat = mk<us::SizeLimiter>(s.untracked, nm, id, par, s.a);
        break;
      case ALIGN:
        l.strat = mk<us::AlignedAllocator>(s.untracked, nm, id, par, s.c);
        break;
      case TSAFE:
        l.strat = mk<us::ThreadSafeAllocator>(s.untracked, nm, id, par);
        break;
      case NAMED:
        l.strat = mk<us::NamedAllocationStrategy>(s.untracked, nm, id, par);
        break;
      case SHIM:
        l.strat = mk<us::NamingShim>(s.untracked, nm, id, par);
        break;
      default:
        break;
    }
  }

  // Returns false if construction was refused.
  bool build()
  {
    arena.reset(new Arena("arena", 1000));
    g_arena_mem = spec.sparse ? g_sparse_mem : g_dense_mem;
    if (!spec.sparse)
      memset(g_arena_mem, CANARY, spec.arena);
    AllocationStrategy* below = arena.get();
    Recorder* rec = &arena->rec;
    std::vector<std::unique_ptr<Layer>> rev;
    for (int i = (int)spec.layers.size() - 1; i >= 0; --i) {
      auto l = std::unique_ptr<Layer>(new Layer);
      l->spec = spec.layers[i];
      l->below = rec;
      rec->begin();
      bool threw = false, oom = false;
      try {
        make(*l, below, 2000 + i);
      } catch (umpire::out_of_memory_error&) {
        threw = oom = true;
      } catch (umpire::runtime_error&) {
        threw = true;
      }
      if (threw) {
        if (!rec->last_refused)
          fails.add(5, "construction failed although the parent did not refuse");
        if (!rec->live.empty())
          fails.add(6, "a failed construction kept blocks of its parent");
        fails.raise(c);
        layers.clear();
        // destroy what exists
        while (!rev.empty())
          rev.pop_back();
        return false;
      }
      if (i > 0) {
        auto t = std::unique_ptr<Tap>(new Tap("tap" + std::to_string(i), 3000 + i, l.get()));
        l->above = &t->rec;
        below = t.get();
        rec = &t->rec;
        taps.push_back(std::move(t));
      } else {
        l->above = &top;
      }
      rev.push_back(std::move(l));
    }
    for (auto it = rev.rbegin(); it != rev.rend(); ++it)
      layers.push_back(std::move(*it));
    return true;
  }

  // ---- operations --------------------------------------------------------------
  void begin_op()
  {
    refused_op = false;
    for (auto& l : layers) {
      l->below->begin();
    }
  }

  void op_alloc(std::size_t n, bool with_name)
  {
    Layer& l = *layers[0];
    begin_op();
    umpire::Allocator a(l.strat.get());
    before_alloc(l, n);
    PoolView pre;
    if (coalescing(l))
      pre = view(l, true);
    if (c.verbose)
      c.log(std::string(with_name ? "allocate named " : "allocate ") + S(n));
    void* p = nullptr;
    int threw = 0;
    std::string what;
    std::size_t req = 0;
    int id = 0;
    try {
      p = with_name ? a.allocate("a name", n) : a.allocate(n);
    } catch (umpire::out_of_memory_error& e) {
      threw = 2;
      req = e.requested_size();
      id = e.get_allocator_id();
    } catch (umpire::runtime_error& e) {
      threw = 1;
    } catch (std::exception& e) {
      threw = 3;
      what = e.what();
    }
    if (threw) {
      refused_op = true;
      c.deviation();
      if (c.verbose)
        c.log(std::string("  refused") + (threw == 2 ? " (out of memory)" : ""));
      if (threw == 3)
        fails.add(5, "unexpected exception: " + what);
      alloc_threw(l, n);
      if (threw == 2 && !with_name && (req != n || id != l.strat->getId()))
        fails.add(5, "out-of-memory error names allocator " + std::to_string(id) + " and size " + S(req) +
                         " instead of " + std::to_string(l.strat->getId()) + " and " + S(n));
      if (threw == 2 && with_name && (req != n || id != l.strat->getId()))
        fails.add(5, "out-of-memory error of a named allocation does not name allocator and size");
      if (l.below->calls && l.below->last_refused && l.below->last_oom && threw != 2)
        fails.add(5, "out-of-memory error of the source was not passed on as one");
    } else {
      if (c.verbose)
        c.log("  -> " + hex(p));
      alloc_ok(l, p, n, pre);
      fails.raise(c);
      if (p) {
        UserAlloc u{static_cast<char*>(p), n, (unsigned char)(1 + (seq++ % 120))};
        spans(spec, u.p, u.n, [&](char* at, std::size_t len) { memset(at, u.pat, len); });
        user.push_back(u);
      }
    }
    check_all();
  }

  void op_zero()
  {
    Layer& l = *layers[0];
    begin_op();
    c.log("allocate 0");
    umpire::Allocator a(l.strat.get());
    void* p = nullptr;
    try {
      p = a.allocate(0);
    } catch (std::exception& e) {
      fails.add(5, "zero-byte allocation failed");
    }
    if (!p)
      fails.add(1, "zero-byte allocation returned null");
    for (void* z : zeros)
      if (z == p)
        fails.add(1, "zero-byte allocation is not distinct");
    for (auto& u : user)
      if (p >= u.p && p < u.p + u.n)
        fails.add(1, "zero-byte allocation lies in a live allocation");
    if (layers[0]->below->calls)
      fails.add(4, "zero-byte allocation took memory from the parent");
    if (p)
      zeros.push_back(p);
    check_all();
  }

  void op_free(std::size_t i, bool via_rm)
  {
    Layer& l = *layers[0];
    begin_op();
    UserAlloc u = user[i];
    user.erase(user.begin() + i);
    int k = top.find(u.p);
    top.del(k);
    on_freed(l, u.p);
    PoolView v;
    if (coalescing(l))
      v = view(l, true);
    if (c.verbose)
      c.log(std::string(via_rm ? "rm.deallocate " : "deallocate ") + hex(u.p) + " (" + S(u.n) + " bytes)");
    umpire::Allocator a(l.strat.get());
    try {
      if (via_rm)
        umpire::ResourceManager::getInstance().deallocate(u.p);
      else
        a.deallocate(u.p);
    } catch (mc::Prune&) {
      throw;
    } catch (std::exception& e) {
      fails.add(5, std::string("freeing memory failed: ") + std::string(e.what()).substr(0, 200));
    }
    if (coalescing(l))
      check_coalesce(l, v);
    else if (l.spec.kind == FIXED || l.spec.kind == SLOT || l.spec.kind == MONO) {
      if (l.below->calls || l.below->freed)
        fails.add(7, l.strat->getStrategyName() + ": blocks were exchanged with the parent on a free");
    }
    check_all();
  }

  void on_freed(Layer& l, char* p)
  {
    if (l.spec.kind == SLOT)
      for (auto& s : l.slots)
        if (s.p == p)
          s.used = false;
  }

  void op_free_zero(std::size_t i)
  {
    begin_op();
    c.log("deallocate zero-byte allocation");
    void* p = zeros[i];
    zeros.erase(zeros.begin() + i);
    umpire::Allocator a(layers[0]->strat.get());
    try {
      a.deallocate(p);
    } catch (std::exception& e) {
      fails.add(5, "freeing a zero-byte allocation failed");
    }
    if (layers[0]->below->calls || layers[0]->below->freed)
      fails.add(7, "freeing a zero-byte allocation exchanged blocks with the parent");
    check_all();
  }

  void op_release()
  {
    Layer& l = *layers[0];
    begin_op();
    c.log("release");
    std::vector<Rec> before = l.below->live;
    umpire::Allocator a(l.strat.get());
    try {
      a.release();
    } catch (std::exception& e) {
      fails.add(5, "release failed");
    }
    if (l.below->calls)
      fails.add(6, "release asked the parent for memory");
    bool releasing = l.spec.kind == QP || l.spec.kind == DPL || l.spec.kind == FIXED;
    for (auto& b : before) {
      bool used = false;
      for (auto& x : l.above->live)
        if (x.p >= b.p && x.p < b.p + b.n)
          used = true;
      bool kept = l.below->find(b.p) >= 0;
      if (used && !kept)
        fails.add(6, l.strat->getStrategyName() + ": release gave back a block with a live allocation");
      if (releasing && !used && kept)
        fails.add(6, l.strat->getStrategyName() + ": release kept a block that holds no live allocation");
    }
    check_all();
  }

  void op_coalesce()
  {
    Layer& l = *layers[0];
    begin_op();
    c.log("coalesce");
    PoolView v = view(l, true);
    with_pool(l, [&](auto& p) { p.coalesce(); });
    check_coalesce(l, v);
    check_all();
  }

  void finish()
  {
    faults_on = false;
    finishing = true;
    c.log("-- free everything, release, destroy");
    while (!user.empty())
      op_free(0, false);
    while (!zeros.empty())
      op_free_zero(0);
    op_release();
    begin_op();
    Layer& l = *layers[0];
    if (!l.spec.untracked && l.spec.kind != MONO &&
        (l.strat->getCurrentSize() || l.strat->getAllocationCount()))
      fails.add(4, "statistics are not zero although everything was freed");
    if (coalescing(l) && l.strat->getActualSize())
      fails.add(8, "actual size is not zero although everything was freed and released");
    fails.raise(c);
    while (!layers.empty()) {
      Recorder* below = layers[0]->below;
      std::string who = layers[0]->strat->getStrategyName();
      layers.erase(layers.begin());
      if (!below->live.empty())
        fails.add(6, "destroying " + who + " kept " + S(below->live.size()) + " blocks of its parent");
      fails.raise(c);
      if (!layers.empty() && !taps.empty())
        taps.pop_back();
    }
    check_memory(true);
    fails.raise(c);
  }
};

void* Arena::allocate(std::size_t n)
{
  World& w = *g_world;
  rec.calls++;
  int f = 0;
  if (w.faults_on && w.faults_left > 0) {
    f = w.c.choose(w.spec.one_fault ? 2 : 3);
    if (f)
      w.faults_left--;
  }
  char* p = nullptr;
  if (!f && n > 0 && n <= w.spec.capacity && rec.cur + n <= w.spec.capacity) {
    // placement
    static const std::size_t offs[] = {0, 1, 8, 15, 7, 0, 24, 3};
    std::vector<Rec> b = rec.live;
    std::sort(b.begin(), b.end(), [](const Rec& x, const Rec& y) { return x.p < y.p; });
    std::size_t off = 0;
    if (w.spec.policy & 2)
      off = offs[w.place_seq++ % 8];
    if (!(w.spec.policy & 1)) {
      // lowest address that fits
      char* at = g_arena_mem + 64 + off;
      for (auto& x : b) {
        if (at + n <= x.p)
          break;
        if (x.p + x.n + off > at)
          at = x.p + x.n + off;
      }
      if (at + n + 64 <= g_arena_mem + w.spec.arena)
        p = at;
    } else {
      char* end = g_arena_mem + w.spec.arena - 64 - off;
      for (auto it = b.rbegin(); it != b.rend(); ++it) {
        if (it->p + it->n <= end - n)
          break;
        if (it->p - off < end)
          end = it->p - off;
      }
      if (end - n >= g_arena_mem + 64)
        p = end - n;
      if (p && !(w.spec.policy & 2) && rec.live.empty())
        p = reinterpret_cast<char*>(reinterpret_cast<std::size_t>(p) & ~std::size_t(15));
    }
  }
  if (!p) {
    rec.refused++;
    rec.last_refused = true;
    rec.last_oom = f != 2;
    if (w.c.verbose)
      w.c.log("    arena refuses " + S(n) + (f ? " (injected)" : ""));
    if (f == 2)
      throw umpire::runtime_error("injected", "arena", 1);
    throw umpire::out_of_memory_error("arena is full", "arena", 1);
  }
  rec.last_refused = false;
  spans(w.spec, p, n, [&](char* at, std::size_t len) { memset(at, 0xDD, len); });
  rec.add(p, n);
  if (w.c.verbose)
    w.c.log("    arena gives " + S(n) + " at " + hex(p));
  return p;
}

bool touches_user(World& w, char* p, std::size_t n)
{
  for (auto& u : w.user)
    if (u.n && u.p < p + n && p < u.p + u.n)
      return true;
  return false;
}

void Arena::deallocate(void* vp, std::size_t n)
{
  World& w = *g_world;
  char* p = static_cast<char*>(vp);
  int i = rec.find(p);
  if (w.c.verbose)
    w.c.log("    arena takes back " + S(n) + " at " + hex(p));
  if (i < 0) {
    w.fails.add(6, "memory was given back to the parent that it does not hold: " + hex(p));
    return;
  }
  if (rec.live[i].n != n)
    w.fails.add(6, "a block of " + S(rec.live[i].n) + " bytes was given back as " + S(n) + " bytes");
  std::size_t real = rec.live[i].n;
  if (touches_user(w, p, real)) {
    w.fails.add(6, "a block was given back while part of it is handed out to a user");
    w.fails.add(1, "a block was given back while part of it is handed out to a user");
  }
  rec.del(i);
  spans(w.spec, p, real, [&](char* at, std::size_t len) { memset(at, CANARY, len); });
}

void* Tap::allocate(std::size_t n)
{
  World& w = *g_world;
  rec.calls++;
  w.before_alloc(*m_under, n);
  PoolView pre;
  if (w.coalescing(*m_under))
    pre = w.view(*m_under, true);
  void* p = nullptr;
  try {
    p = m_under->strat->allocate_internal(n);
  } catch (umpire::out_of_memory_error&) {
    rec.refused++;
    rec.last_refused = rec.last_oom = true;
    w.alloc_threw(*m_under, n);
    throw;
  } catch (...) {
    rec.refused++;
    rec.last_refused = true;
    rec.last_oom = false;
    w.alloc_threw(*m_under, n);
    throw;
  }
  rec.last_refused = false;
  w.alloc_ok(*m_under, p, n, pre);
  return p;
}

void Tap::deallocate(void* vp, std::size_t n)
{
  World& w = *g_world;
  char* p = static_cast<char*>(vp);
  int i = rec.find(p);
  if (i < 0) {
    w.fails.add(6, "memory was given back to " + m_under->strat->getStrategyName() + " that is not its own");
    return;
  }
  if (rec.live[i].n != n)
    w.fails.add(6, "a block of " + S(rec.live[i].n) + " bytes was given back as " + S(n) + " bytes");
  if (touches_user(w, p, rec.live[i].n))
    w.fails.add(6, "a block was given back while part of it is handed out to a user");
  rec.del(i);
  w.on_freed(*m_under, p);
  m_under->below->begin();
  PoolView v;
  if (w.coalescing(*m_under))
    v = w.view(*m_under, true);
  m_under->strat->deallocate_internal(p, n);
  if (w.coalescing(*m_under))
    w.check_coalesce(*m_under, v);
}

// Any exception leaving a history must not leave records of dead strategies in
// the resource manager.
struct Cleanup {
  World& w;
  bool done{false};
  ~Cleanup()
  {
    if (done)
      return;
    // The state of the library is not trusted any more: leave everything.
    for (auto& l : w.layers)
      l->strat.release();
    for (auto& t : w.taps)
      t.release();
    w.arena.release();
    w.c.fresh = true;
  }
};

void history(mc::Ctx& c, const Spec& s)
{
  World w(s, c);
  g_world = &w;
  Cleanup cl{w};
  if (!w.build()) {
    cl.done = true;
    return;
  }
  w.check_all();
  for (int d = 0; d < s.depth; ++d) {
    std::vector<std::size_t> sizes;
    if ((int)w.user.size() < s.max_live)
      sizes = s.sizes;
    if (s.max_blocks && w.layers[0]->below->live.size() >= (std::size_t)s.max_blocks) {
      PoolView v = w.view(*w.layers[0], true);
      sizes.erase(std::remove_if(sizes.begin(), sizes.end(),
                                 [&](std::size_t n) { return round_up(n, w.layers[0]->spec.c) > v.largest; }),
                  sizes.end());
    }
    int nsizes = (int)sizes.size();
    int n_alloc = nsizes * (s.named_alloc ? 2 : 1);
    int n_free = (int)w.user.size() * (s.rm_free ? 2 : 1);
    int n_zero = s.zero ? 1 : 0;
    int n_fz = s.zero ? (int)w.zeros.size() : 0;
    int n_rel = s.release ? 1 : 0;
    int n_co = s.coalesce && w.coalescing(*w.layers[0]) ? 1 : 0;
    int total = n_alloc + n_free + n_zero + n_fz + n_rel + n_co;
    if (total == 0)
      break;
    int k = c.choose(total);
    c.step();
    if (k < n_alloc) {
      w.op_alloc(sizes[k % nsizes], k >= nsizes);
      continue;
    }
    k -= n_alloc;
    if (k < n_free) {
      w.op_free(k % w.user.size(), k >= (int)w.user.size());
      continue;
    }
    k -= n_free;
    if (k < n_zero) {
      w.op_zero();
      continue;
    }
    k -= n_zero;
    if (k < n_fz) {
      w.op_free_zero(k);
      continue;
    }
    k -= n_fz;
    if (k < n_rel) {
      w.op_release();
      continue;
    }
    w.op_coalesce();
  }
  if (s.drain) {
    w.finishing = true;
    w.faults_on = false;
    c.log("-- fill the free space");
    for (int i = 0; i < 16; ++i) {
      PoolView v = w.view(*w.layers[0], true);
      if (v.largest < w.layers[0]->spec.c)
        break;
      w.op_alloc(v.largest, false);
    }
  }
  w.finish();
  cl.done = true;
}

// Many allocations: fill, free by a rule, release or coalesce, fill again, free
// by another rule. Every combination of counts, sizes and rules.
void pattern(mc::Ctx& c, const Spec& s)
{
  World w(s, c);
  g_world = &w;
  Cleanup cl{w};
  const int n = s.counts[c.choose((int)s.counts.size())];
  const int shape = c.choose(s.sizes.size() > 1 ? 3 : 1);
  const int ns = (int)s.sizes.size();
  if (!w.build()) {
    cl.done = true;
    return;
  }
  w.check_all();
  auto fill = [&](int count, int sh) {
    for (int i = 0; i < count; ++i) {
      w.op_alloc(s.sizes[sh == 0 ? 0 : sh == 1 ? i % ns : i * ns / count], false);
      c.step();
    }
  };
  auto release_some = [&](int rule) {
    const int m = (int)w.user.size();
    std::vector<int> order;
    for (int i = 0; i < m; ++i)
      order.push_back(i);
    auto keep = [&](std::function<bool(int)> f) {
      order.erase(std::remove_if(order.begin(), order.end(), [&](int i) { return !f(i); }), order.end());
    };
    switch (rule) {
      case 0: // all, forwards
        break;
      case 1: // every second
        keep([](int i) { return i % 2 == 0; });
        break;
      case 2: // all, backwards
        std::reverse(order.begin(), order.end());
        break;
      case 3: // all, the even ones first
        std::stable_sort(order.begin(), order.end(), [](int a, int b) { return a % 2 < b % 2; });
        break;
      case 4: // two of three, backwards
        keep([](int i) { return i % 3 != 1; });
        std::reverse(order.begin(), order.end());
        break;
      case 5: { // all, scattered
        std::vector<int> o;
        for (int i = 0, k = 0; i < m; ++i) {
          k = (k + 7) % (int)order.size();
          o.push_back(order[k]);
          order.erase(order.begin() + k);
        }
        order = o;
        break;
      }
      case 6:
        keep([&](int i) { return i < m / 2; });
        break;
      case 7:
        keep([&](int i) { return i >= m / 2; });
        break;
      case 8:
        keep([&](int i) { return i > 0; });
        break;
      default:
        keep([&](int i) { return i + 1 < m; });
        break;
    }
    std::vector<char*> ps;
    for (int i : order)
      ps.push_back(w.user[i].p);
    for (char* p : ps)
      for (std::size_t i = 0; i < w.user.size(); ++i)
        if (w.user[i].p == p) {
          w.op_free(i, false);
          c.step();
          break;
        }
  };
  fill(n, shape);
  release_some(c.choose(s.rules));
  int mid = c.choose(1 + (s.release ? 1 : 0) + (s.coalesce && w.coalescing(*w.layers[0]) ? 1 : 0));
  if (mid == 1 && s.release)
    w.op_release();
  else if (mid)
    w.op_coalesce();
  fill(n - (int)w.user.size() + 2, c.choose(ns > 1 ? s.refills : 1));
  release_some(c.choose(s.rules2));
  w.finish();
  cl.done = true;
}

// ---- configurations -----------------------------------------------------------

std::vector<Spec> g_specs;

void add(Spec s)
{
  g_specs.push_back(s);
}

Heur pct(int v)
{
  return {Heur::PCT, v};
}
Heur pcth(int v)
{
  return {Heur::PCT_HWM, v};
}
Heur blk(int v)
{
  return {Heur::BLK, v};
}
Heur blkh(int v)
{
  return {Heur::BLK_HWM, v};
}

#include "h_alloc_specs.inc"

} // namespace

int main(int argc, char** argv)
{
  g_sparse_mem = static_cast<char*>(mmap(reinterpret_cast<void*>(0x210000000000ull), SPARSE_MAX, PROT_READ | PROT_WRITE,
                                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0));
  if (g_sparse_mem == MAP_FAILED)
    g_sparse_mem = nullptr; // no address space: the stacks with gigabytes are left out
  g_dense_mem = static_cast<char*>(mmap(reinterpret_cast<void*>(0x200000000000ull), ARENA_MAX,
                                        PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1,
                                        0));
  if (g_dense_mem == MAP_FAILED) {
    perror("mmap");
    return 3;
  }
  setenv("UMPIRE_LOG_LEVEL", "ERROR", 1);
  umpire::ResourceManager::getInstance();
  umpire::log().rdbuf(nullptr); // not under test here
  umpire::error().rdbuf(nullptr);
  return mc::mc_main(argc, argv, [](const mc::Options& o) {
    g_prop = atoi(o.property.c_str() + 1);
    make_specs(g_prop, o.tier == "thorough");
    std::vector<mc::Config> v;
    for (auto& s : g_specs) {
      mc::Config cfg;
      cfg.name = s.name;
      std::ostringstream os;
      os << "all histories of " << s.depth << " operations over sizes {";
      for (std::size_t i = 0; i < s.sizes.size(); ++i)
        os << (i ? "," : "") << s.sizes[i];
      os << "}, at most " << s.faults << " refusals, placement policy " << s.policy;
      const Spec* sp = &s;
      if (!s.counts.empty()) {
        os.str("");
        os << "fill with ";
        for (std::size_t i = 0; i < s.counts.size(); ++i)
          os << (i ? " or " : "") << s.counts[i];
        os << " allocations, free by " << s.rules << " rules, release or coalesce or neither, refill, free by " << s.rules2
           << " rules; sizes {";
        for (std::size_t i = 0; i < s.sizes.size(); ++i)
          os << (i ? "," : "") << s.sizes[i];
        os << "} in " << (s.sizes.size() > 1 ? 3 : 1) << " x " << (s.sizes.size() > 1 ? s.refills : 1)
           << " arrangements, at most " << s.faults << " refusals, placement policy " << s.policy;
        cfg.bounds = os.str();
        cfg.body = [sp](mc::Ctx& c) { pattern(c, *sp); };
        cfg.split = 3;
        v.push_back(cfg);
        continue;
      }
      cfg.bounds = os.str();
      cfg.body = [sp](mc::Ctx& c) { history(c, *sp); };
      cfg.split = s.depth >= 8 ? 6 : s.depth >= 6 ? 5 : s.depth >= 5 ? 4 : std::min(3, s.depth);
      v.push_back(cfg);
    }
    return v;
  });
}
