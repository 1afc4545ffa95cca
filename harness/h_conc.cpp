// P18, P19: every schedule (within a preemption bound) of every small program
// of several threads, on the real library under the controlled scheduler of
// sched.cpp.  Data races, deadlocks and livelocks are found by the scheduler;
// results are compared with the same operations executed one at a time.
#include <malloc.h>

#include <cstdarg>
#include <map>
#include <memory>

#include "mc.hpp"
#include "sched.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/resource/FileMemoryResource.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/AllocationStrategy.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/NamingShim.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/io.hpp"

namespace {
// how many allocations are tracked, where that can be asked (-1: it cannot)
template <typename R>
auto tracked(R& rm, int) -> decltype((long)rm.m_allocations.size())
{
  return (long)rm.m_allocations.size();
}
template <typename R>
long tracked(R&, long)
{
  return -1;
}

namespace us = umpire::strategy;
namespace ur = umpire::resource;
using us::AllocationStrategy;
using umpire::Allocator;

std::string S(long long x)
{
  return std::to_string(x);
}

struct Ign {
  Ign()
  {
    sched::ignore_begin();
  }
  ~Ign()
  {
    sched::ignore_end();
  }
};

// A deliberately unsynchronised memory source: first fit over a small buffer.
class Arena : public AllocationStrategy {
 public:
  Arena(const std::string& n, int id, std::size_t cap_) : AllocationStrategy(n, id, nullptr, "Arena"), cap(cap_)
  {
    buf = static_cast<char*>(aligned_alloc(64, 8192));
    memset(used, 0, sizeof used);
    memset(buf, 0, 8192);
  }
  ~Arena()
  {
    free(buf);
  }
  umpire::Platform getPlatform() noexcept override
  {
    return umpire::Platform::host;
  }
  umpire::MemoryResourceTraits getTraits() const noexcept override
  {
    return umpire::MemoryResourceTraits{};
  }
  char* buf;
  std::size_t cap;
  std::size_t live{0};
  long calls{0};
  unsigned char used[512]; // units of 16 bytes; 1 first, 2 following

 private:
  void* allocate(std::size_t n) override
  {
    ++calls;
    std::size_t u = (n + 15) / 16 + 1;
    if (live + n <= cap)
      for (std::size_t i = 0; i + u <= 512; ++i) {
        std::size_t k = 0;
        while (k < u && !used[i + k])
          ++k;
        if (k < u)
          continue;
        for (k = 0; k < u; ++k)
          used[i + k] = k ? 2 : 1;
        live += n;
        return buf + 16 * i;
      }
    UMPIRE_ERROR(umpire::out_of_memory_error, "arena full");
  }
  void deallocate(void* p, std::size_t n) override
  {
    std::size_t i = (static_cast<char*>(p) - buf) / 16;
    used[i] = 0;
    for (++i; i < 512 && used[i] == 2; ++i)
      used[i] = 0;
    live -= n;
  }
};

enum Top { DIRECT, QUICK, LIST, FIXED, MIXED, LIMIT, SLOT, MONO, NAMED, SHIM, ALIGN, NTOP };
const char* top_name[] = {"direct", "quick", "list", "fixed", "mixed", "limit", "slot", "mono", "named", "shim", "aligned"};

std::unique_ptr<AllocationStrategy> make_pool(Top k, const std::string& nm, int id, Allocator par)
{
  switch (k) {
    case QUICK:
      return std::unique_ptr<AllocationStrategy>(
          new us::QuickPool(nm, id, par, 64, 32, 16, us::QuickPool::percent_releasable(100)));
    case LIST:
      return std::unique_ptr<AllocationStrategy>(
          new us::DynamicPoolList(nm, id, par, 64, 32, 16, us::DynamicPoolList::percent_releasable(100)));
    case FIXED:
      return std::unique_ptr<AllocationStrategy>(new us::FixedPool(nm, id, par, 32, 2));
    case MIXED:
      return std::unique_ptr<AllocationStrategy>(new us::MixedPool(nm, id, par, 16, 16, 64, 2, 64, 32, 16));
    case LIMIT:
      return std::unique_ptr<AllocationStrategy>(new us::SizeLimiter(nm, id, par, 40));
    case SLOT:
      return std::unique_ptr<AllocationStrategy>(new us::SlotPool(nm, id, par, 2));
    case MONO:
      return std::unique_ptr<AllocationStrategy>(new us::MonotonicAllocationStrategy(nm, id, par, 64));
    case NAMED:
      return std::unique_ptr<AllocationStrategy>(new us::NamedAllocationStrategy(nm, id, par));
    case SHIM:
      return std::unique_ptr<AllocationStrategy>(new us::NamingShim(nm, id, par));
    case ALIGN:
      return std::unique_ptr<AllocationStrategy>(new us::AlignedAllocator(nm, id, par, 32));
    default:
      return nullptr;
  }
}

// ------------------------------------------------------------------ programs
enum OpK { A8, A32, ZERO, NAME, FREE, RMFREE, STAT, // P19 and P18
           QUERY, COPY, REALLOC, CREATE, LOOKUP, LIST_, PEER, NOPK };
const char* op_name[] = {"allocate(8)", "allocate(32)", "allocate(0)", "allocate(name,24)", "free", "rm.free", "stat",
                         "query", "copy/memset", "reallocate", "create allocator", "look up allocators", "list records",
                         "look up another thread's allocator", "?"};

struct Op {
  int k;
  int target; // index of the live allocation (in order of allocation) a free refers to
};
using Prog = std::vector<std::vector<Op>>;

std::string show(const Prog& p)
{
  std::string s;
  for (std::size_t t = 0; t < p.size(); ++t) {
    s += "thread " + S(t + 1) + ":";
    for (auto& o : p[t])
      s += std::string(" ") + op_name[o.k] + (o.k == FREE || o.k == RMFREE ? "#" + S(o.target) : "") + ";";
    s += "  ";
  }
  return s;
}

struct Live {
  char* p;
  std::size_t n;
};

struct Outcome {
  std::vector<long> v; // one entry per operation, per thread
  std::vector<long> fin;
  bool operator<(const Outcome& o) const
  {
    return v != o.v ? v < o.v : fin < o.fin;
  }
  bool operator==(const Outcome& o) const
  {
    return v == o.v && fin == o.fin;
  }
};

std::vector<Op> draw_prog(mc::Ctx& c, int len, const std::vector<int>& alpha, bool symmetric_first)
{
  (void)symmetric_first;
  std::vector<Op> r;
  int live = 0;
  for (int i = 0; i < len; ++i) {
    std::vector<Op> o;
    for (int k : alpha) {
      if (k == FREE || k == RMFREE) {
        for (int j = 0; j < live; ++j)
          o.push_back({k, j});
      } else if (k == QUERY || k == COPY || k == REALLOC) {
        if (live)
          o.push_back({k, live - 1});
      } else {
        o.push_back({k, 0});
      }
    }
    Op x = o[c.choose((int)o.size())];
    if (x.k == A8 || x.k == A32 || x.k == ZERO || x.k == NAME)
      ++live;
    if (x.k == FREE || x.k == RMFREE)
      --live;
    r.push_back(x);
  }
  return r;
}

int choose_cb(void* a, int n)
{
  mc::Ctx* c = static_cast<mc::Ctx*>(a);
  try {
    return c->choose(n);
  } catch (mc::Diverged&) {
    return -1;
  }
}

int g_uid = 100000;

// ----------------------------------------------------------------------- P19
struct Shared19 {
  Top kind;
  std::size_t cap;
  std::unique_ptr<Arena> arena;
  std::unique_ptr<AllocationStrategy> pool;
  std::unique_ptr<us::ThreadSafeAllocator> tsa;
  std::unique_ptr<Allocator> alloc;
  std::vector<std::vector<Live>> live;
  const Prog* prog;
  std::vector<std::vector<long>> out;
  std::vector<std::vector<std::pair<int, int>>> when; // invocation, response
  int clock{0};
  std::string bad;

  Shared19(Top k, std::size_t cap_, const Prog& p) : kind(k), cap(cap_), prog(&p)
  {
    arena.reset(new Arena("arena", ++g_uid, cap));
    AllocationStrategy* par = arena.get();
    if (k != DIRECT) {
      pool = make_pool(k, "pool", ++g_uid, Allocator(par));
      par = pool.get();
    }
    tsa.reset(new us::ThreadSafeAllocator("tsa", ++g_uid, Allocator(par)));
    alloc.reset(new Allocator(tsa.get()));
    live.resize(p.size());
    out.resize(p.size());
    when.resize(p.size());
    for (std::size_t t = 0; t < p.size(); ++t)
      out[t].assign(p[t].size(), -99);
  }

  void fill(Live& l, int t)
  {
    memset(l.p, 0x10 * (t + 1) + (int)l.n % 13, l.n);
  }
  bool intact(const Live& l, int t)
  {
    for (std::size_t i = 0; i < l.n; ++i)
      if (l.p[i] != (char)(0x10 * (t + 1) + (int)l.n % 13))
        return false;
    return true;
  }

  void complain(int t, const std::string& m)
  {
    if (bad.empty())
      bad = "thread " + S(t + 1) + ": " + m;
  }

  void step(int t, int i)
  {
    const Op o = (*prog)[t][i];
    long r = -99;
    {
      Ign g;
      when[t].push_back({++clock, 0});
    }
    std::size_t n = o.k == A8 ? 8 : o.k == A32 ? 32 : o.k == ZERO ? 0 : 24;
    try {
      switch (o.k) {
        case A8:
        case A32:
        case ZERO:
        case NAME: {
          char* p = static_cast<char*>(o.k == NAME ? alloc->allocate("n" + S(t), n) : alloc->allocate(n));
          Live l{p, n};
          {
            Ign g;
            if (!p)
              complain(t, "allocation returned null");
            for (auto& v : live)
              for (auto& x : v)
                if (p == x.p || (p < x.p + x.n && x.p < p + n))
                  complain(t, "allocation overlaps a live one");
            live[t].push_back(l);
          }
          if (p)
            fill(l, t); // a data race if anyone else touches it
          {
            Ign g;
            r = o.k == ZERO ? 1 : p - arena->buf;
          }
          break;
        }
        case FREE:
        case RMFREE: {
          Live l{nullptr, 0};
          {
            Ign g;
            if (o.target < (int)live[t].size()) {
              l = live[t][o.target];
              live[t].erase(live[t].begin() + o.target);
            }
          }
          if (!l.p) { // its allocation was refused
            r = -3;
            break;
          }
          if (!intact(l, t)) {
            Ign g;
            complain(t, "contents of a live allocation changed");
          }
          if (o.k == FREE)
            alloc->deallocate(l.p);
          else
            umpire::ResourceManager::getInstance().deallocate(l.p);
          r = 0;
          break;
        }
        default:
          break;
      }
    } catch (umpire::out_of_memory_error&) {
      r = -1;
    } catch (std::exception& e) {
      r = -2;
    }
    Ign g;
    out[t][i] = r;
    when[t].back().second = ++clock;
  }

  Outcome outcome()
  {
    Outcome o;
    for (auto& v : out)
      for (long x : v)
        o.v.push_back(x);
    o.fin = {(long)alloc->getCurrentSize(), (long)alloc->getAllocationCount(), (long)alloc->getHighWatermark(),
             (long)(pool ? pool->getActualSize() : 0), (long)arena->live, (long)arena->getCurrentSize(),
             (long)arena->getAllocationCount(), (long)arena->getHighWatermark(), arena->calls};
    return o;
  }

  void teardown()
  {
    for (auto& v : live) {
      for (auto& l : v)
        alloc->deallocate(l.p);
      v.clear();
    }
  }
};

struct SeqCache {
  std::string key;
  // merge order (thread of each step) -> outcome
  std::map<std::vector<int>, Outcome> runs;
};
SeqCache g_seq;

void body19_thread(void* a, int t)
{
  Shared19* s = static_cast<Shared19*>(a);
  const int n = (int)(*s->prog)[t].size();
  for (int i = 0; i < n; ++i)
    s->step(t, i);
}

void body19(mc::Ctx& c, Top kind, std::size_t cap, int nthreads, int len, const std::vector<int>& alpha, int pb)
{
  Prog prog;
  for (int t = 0; t < nthreads; ++t)
    prog.push_back(draw_prog(c, len, alpha, t == 0));
  c.log(show(prog));
  // all ways to execute the operations one at a time
  std::string key = show(prog);
  if (g_seq.key != key) {
    g_seq.key = key;
    g_seq.runs.clear();
    std::vector<int> order;
    for (int t = 0; t < nthreads; ++t)
      order.insert(order.end(), len, t);
    do {
      Shared19 s(kind, cap, prog);
      std::vector<int> at(nthreads, 0);
      for (int t : order)
        s.step(t, at[t]++);
      Outcome o = s.outcome();
      if (!s.bad.empty())
        c.fail("executed one at a time: " + s.bad);
      s.teardown();
      g_seq.runs[order] = o;
    } while (std::next_permutation(order.begin(), order.end()));
  }
  const long tracked0 = tracked(umpire::ResourceManager::getInstance(), 0);
  {
    Shared19 s(kind, cap, prog);
    sched::trace = c.verbose;
    sched::Result r = sched::run(nthreads, body19_thread, &s, pb, choose_cb, &c);
    if (c.sh)
      c.sh->transitions += r.points;
    if (c.diverged)
      throw mc::Diverged{};
    if (r.error)
      c.fail(r.error);
    c.require(s.bad.empty(), s.bad.c_str());
    Outcome o = s.outcome();
    // linearizable: some order that respects real time explains the outcome
    bool found = false;
    for (auto& q : g_seq.runs) {
      if (!(q.second == o))
        continue;
      std::vector<int> at(nthreads, 0);
      int last = 0;
      bool rt = true;
      std::vector<std::pair<int, int>> seq;
      for (int t : q.first)
        seq.push_back(s.when[t][at[t]++]);
      for (std::size_t i = 0; i < seq.size() && rt; ++i)
        for (std::size_t j = i + 1; j < seq.size() && rt; ++j)
          if (seq[j].second < seq[i].first)
            rt = false;
      (void)last;
      if (rt) {
        found = true;
        break;
      }
    }
    std::string d;
    if (!found) {
      d = "no sequential order of the operations gives these results:";
      for (long x : o.v)
        d += " " + S(x);
      d += " /";
      for (long x : o.fin)
        d += " " + S(x);
    }
    c.require(found, d.c_str());
    std::size_t n = 0;
    for (auto& v : s.live)
      n += v.size();
    auto& rm = umpire::ResourceManager::getInstance();
    c.require(tracked(rm, 0) == -1 || tracked(rm, 0) == tracked0 + (long)n, "tracked allocations differ from the live ones");
    for (auto& v : s.live)
      for (auto& l : v) {
        c.require(rm.hasAllocator(l.p) && rm.getSize(l.p) == l.n, "a live allocation is not tracked with its size");
        c.require(rm.findAllocationRecord(l.p)->strategy == s.tsa.get(), "a live allocation is tracked under another allocator");
      }
    mc::Hash h;
    h.add(key);
    for (long x : o.v)
      h.add((uint64_t)x);
    for (long x : o.fin)
      h.add((uint64_t)x);
    c.state(h.h);
    s.teardown();
    c.require(tracked(rm, 0) == tracked0, "allocations remain tracked after everything was freed");
    c.require(s.alloc->getCurrentSize() == (kind == MONO ? s.alloc->getCurrentSize() : 0) &&
                  s.alloc->getAllocationCount() == 0,
              "statistics do not return to zero");
  }
}

// ----------------------------------------------------------------------- P18
struct Th18 {
  std::unique_ptr<AllocationStrategy> strat;
  std::unique_ptr<Allocator> alloc;
  std::vector<Live> live;
  std::size_t cur{0}, hwm{0}, cnt{0};
  std::string name;
};

struct Shared18 {
  std::vector<Th18> th;
  const Prog* prog;
  std::vector<Top> kinds;
  std::string bad;
  int uid;

  void complain(int t, const std::string& m)
  {
    if (bad.empty())
      bad = "thread " + S(t + 1) + ": " + m;
  }
  void need(bool ok, int t, const char* m)
  {
    if (!ok) {
      Ign g;
      complain(t, m);
    }
  }

  void check_stats(int t)
  {
    Th18& x = th[t];
    if (kinds[t] == MONO)
      return;
    std::size_t a = x.alloc->getCurrentSize(), b = x.alloc->getHighWatermark(), d = x.alloc->getAllocationCount();
    need(d == x.cnt, t, "allocation count differs from what the thread did alone");
    if (kinds[t] == FIXED)
      return; // counts whole objects
    need(a == x.cur, t, "current size differs from what the thread did alone");
    need(b == x.hwm, t, "high watermark differs from what the thread did alone");
  }

  void step(int t, int i)
  {
    const Op o = (*prog)[t][i];
    Th18& x = th[t];
    auto& rm = umpire::ResourceManager::getInstance();
    std::size_t n = o.k == A8 ? 8 : o.k == A32 ? 32 : o.k == ZERO ? 0 : 24;
    try {
      switch (o.k) {
        case A8:
        case A32:
        case ZERO:
        case NAME: {
          char* p = static_cast<char*>(o.k == NAME ? x.alloc->allocate("n" + S(t), n) : x.alloc->allocate(n));
          need(p != nullptr, t, "allocation returned null");
          {
            Ign g;
            for (auto& y : th)
              for (auto& l : y.live)
                if (p == l.p || (p < l.p + l.n && l.p < p + n))
                  complain(t, "allocation overlaps a live one");
            x.live.push_back({p, n});
            x.cur += n;
            x.cnt++;
            x.hwm = std::max(x.hwm, x.cur);
          }
          memset(p, 0x21 + t, n);
          break;
        }
        case FREE:
        case RMFREE: {
          Live l;
          {
            Ign g;
            l = x.live[o.target];
            x.live.erase(x.live.begin() + o.target);
            x.cur -= l.n;
            x.cnt--;
          }
          for (std::size_t j = 0; j < l.n; ++j)
            need(l.p[j] == (char)(0x21 + t), t, "contents of a live allocation changed");
          if (o.k == FREE)
            x.alloc->deallocate(l.p);
          else
            rm.deallocate(l.p);
          break;
        }
        case STAT:
          check_stats(t);
          break;
        case QUERY: {
          Live l = x.live.back();
          need(rm.hasAllocator(l.p), t, "own allocation is unknown");
          need(rm.getSize(l.p) == l.n, t, "own allocation has another size");
          need(rm.getAllocator(static_cast<void*>(l.p)).getAllocationStrategy() == x.strat.get(), t, "own allocation belongs to another allocator");
          need(rm.findAllocationRecord(l.p + (l.n ? l.n - 1 : 0))->ptr == l.p, t, "record of an own allocation is wrong");
          need(!rm.hasAllocator(reinterpret_cast<void*>(0x10)), t, "an unallocated address is known");
          break;
        }
        case COPY: {
          Live l = x.live.back();
          if (l.n >= 8) {
            rm.memset(l.p, 0x21 + t, l.n);
            rm.copy(l.p + 4, l.p, 4);
          }
          break;
        }
        case REALLOC: {
          Live l = x.live.back();
          const std::size_t m = 16;
          char* p = static_cast<char*>(rm.reallocate(l.p, m));
          need(p != nullptr, t, "reallocate returned null");
          for (std::size_t j = 0; j < std::min(l.n, m); ++j)
            need(p[j] == (char)(0x21 + t), t, "reallocate lost contents");
          memset(p, 0x21 + t, m);
          Ign g;
          x.live.back() = {p, m};
          // old and new may both be counted for a moment
          x.hwm = std::max(x.hwm, l.n ? x.cur + m : x.cur + m);
          x.cur = x.cur - l.n + m;
          break;
        }
        case CREATE: {
          std::string nm;
          {
            Ign g;
            nm = "made" + S(uid) + "_" + S(t) + "_" + S(i);
          }
          auto a = rm.makeAllocator<us::NamedAllocationStrategy>(nm, Allocator(x.strat.get()));
          need(a.getName() == nm, t, "created allocator has another name");
          need(rm.isAllocator(nm), t, "created allocator is not found");
          need(rm.getAllocator(nm).getId() == a.getId(), t, "created allocator is found under another id");
          need(rm.getAllocator(a.getId()).getAllocationStrategy() == a.getAllocationStrategy(), t, "lookup by id gives another allocator");
          void* p = a.allocate(8);
          need(rm.getAllocator(p).getId() == a.getId(), t, "allocation of the created allocator is not its own");
          a.deallocate(p);
          Ign g;
          if (kinds[t] != MONO)
            x.hwm = std::max(x.hwm, x.cur + 8);
          break;
        }
        case LOOKUP: {
          need(rm.getAllocator("HOST").getName() == "HOST", t, "HOST not found");
          need(rm.isAllocator("HOST"), t, "HOST is not an allocator");
          need(!rm.isAllocator("nobody"), t, "unknown name found");
          need(rm.getDefaultAllocator().getName() == "HOST", t, "default allocator is not HOST");
          break;
        }
        case LIST_: {
          auto v = umpire::get_allocator_records(*x.alloc);
          need(v.size() == x.live.size(), t, "listing the own records gives another number");
          for (auto& r : v) {
            bool in = false;
            for (auto& l : x.live)
              in = in || (l.p == r.ptr && l.n == r.size);
            need(in, t, "listing yields a record that is not an own live allocation");
          }
          break;
        }
        default:
          break;
      }
    } catch (std::exception& e) {
      Ign g;
      complain(t, std::string(op_name[o.k]) + " raised: " + std::string(e.what()).substr(0, 200));
    }
  }
};

void body18_thread(void* a, int t)
{
  Shared18* s = static_cast<Shared18*>(a);
  const int n = (int)(*s->prog)[t].size();
  for (int i = 0; i < n; ++i)
    s->step(t, i);
  s->check_stats(t);
}

enum Base { OVER_HOST, OVER_SAFE_ARENA, OVER_SAFE_QUICK, OVER_SAFE_FIXED, OVER_FILE };
const char* base_name[] = {"host", "threadsafe(arena)", "threadsafe(quick)", "threadsafe(fixed)", "file"};

// each thread has its own allocator; what they are built on is shared
void body18(mc::Ctx& c, const std::vector<Top>& kinds, int len, const std::vector<int>& alpha, int pb, Base base = OVER_HOST)
{
  const int nthreads = (int)kinds.size();
  Prog prog;
  for (int t = 0; t < nthreads; ++t)
    prog.push_back(draw_prog(c, len, alpha, t == 0));
  c.log(show(prog));
  auto& rm = umpire::ResourceManager::getInstance();
  auto host = rm.getAllocator("HOST");
  rm.getDefaultAllocator();
  const long tracked0 = tracked(rm, 0);
  const std::size_t hc0 = host.getCurrentSize(), hn0 = host.getAllocationCount();
  {
    // a new allocator, so that nothing of it depends on earlier histories
    std::unique_ptr<AllocationStrategy> below, parent;
    if (base == OVER_HOST) {
      parent.reset(new us::NamedAllocationStrategy("parent", ++g_uid, host));
    } else if (base == OVER_FILE) {
      below.reset(new ur::FileMemoryResource(umpire::Platform::host, "below", ++g_uid, umpire::MemoryResourceTraits{}));
      parent.reset(new us::NamedAllocationStrategy("parent", ++g_uid, Allocator(below.get())));
    } else {
      if (base == OVER_SAFE_ARENA)
        below.reset(new Arena("arena", ++g_uid, 8192));
      else if (base == OVER_SAFE_FIXED)
        below.reset(new us::FixedPool("below", ++g_uid, host, 256, 4));
      else
        below = make_pool(QUICK, "below", ++g_uid, host);
      parent.reset(new us::ThreadSafeAllocator("safe", ++g_uid, Allocator(below.get())));
    }
    Shared18 s;
    s.prog = &prog;
    s.kinds = kinds;
    s.uid = ++g_uid;
    s.th.resize(nthreads);
    for (int t = 0; t < nthreads; ++t) {
      s.th[t].strat = make_pool(kinds[t], "t" + S(t), ++g_uid, Allocator(parent.get()));
      s.th[t].alloc.reset(new Allocator(s.th[t].strat.get()));
      sched::private_add(t + 1, s.th[t].strat.get(), malloc_usable_size(s.th[t].strat.get()));
    }
    sched::trace = c.verbose;
    sched::Result r = sched::run(nthreads, body18_thread, &s, pb, choose_cb, &c);
    if (c.sh)
      c.sh->transitions += r.points;
    if (c.diverged)
      throw mc::Diverged{};
    if (r.error)
      c.fail(r.error);
    c.require(s.bad.empty(), s.bad.c_str());
    c.require(parent->getHighWatermark() >= parent->getCurrentSize(), "the watermark of the shared parent is too low");
    std::size_t n = 0;
    for (auto& x : s.th)
      n += x.live.size();
    c.require(tracked(rm, 0) == -1 || tracked(rm, 0) == tracked0 + (long)n, "tracked allocations differ from the live ones");
    for (int t = 0; t < nthreads; ++t)
      for (auto& l : s.th[t].live) {
        c.require(rm.hasAllocator(l.p) && rm.getSize(l.p) == l.n &&
                      rm.findAllocationRecord(l.p)->strategy == s.th[t].strat.get(),
                  "a live allocation is not tracked correctly");
        for (std::size_t j = 0; j < l.n; ++j)
          c.require(l.p[j] == (char)(0x21 + t), "contents of a live allocation changed");
        s.th[t].alloc->deallocate(l.p);
      }
    c.require(tracked(rm, 0) == tracked0, "allocations remain tracked after everything was freed");
    mc::Hash h;
    h.add(show(prog));
    h.add(r.points);
    c.state(h.h);
    for (auto& x : s.th) {
      x.strat->release();
      x.strat.reset();
    }
    c.require(parent->getCurrentSize() == 0 && parent->getAllocationCount() == 0,
              "statistics of the shared parent are wrong after all pools are gone");
  }
  // the pools are gone: the shared parent is as before
  c.require(host.getCurrentSize() == hc0 && host.getAllocationCount() == hn0,
            "statistics of the shared parent are wrong after all pools are gone");
}

// -------------------------------------------------------------------- configs
std::vector<mc::Config> make(const mc::Options& o)
{
  std::vector<mc::Config> out;
  const bool th = o.tier == "thorough";
  auto add = [&](std::string name, std::string bounds, std::function<void(mc::Ctx&)> f, uint64_t seg = 2000) {
    mc::Config c;
    c.name = name;
    c.bounds = bounds;
    c.body = f;
    c.split = 3;
    c.segment = seg;
    c.hang_s = 60;
    out.push_back(c);
  };
  if (o.property == "P19") {
    const int pb = th ? 3 : 2;
    for (int k = 0; k < NTOP; ++k) {
      Top kind = (Top)k;
      for (std::size_t cap : {(std::size_t)4096, (std::size_t)112}) {
        std::vector<int> al{A8, A32, ZERO, NAME, FREE, RMFREE};
        const std::string nm = std::string(top_name[k]) + "/cap" + S(cap);
        add(nm + "/2x2", "2 threads, 2 operations each, " + S(pb) + " preemptions",
            [=](mc::Ctx& c) { body19(c, kind, cap, 2, 2, al, pb); });
        if (th)
          add(nm + "/2x3", "2 threads, 3 operations each, 2 preemptions",
              [=](mc::Ctx& c) { body19(c, kind, cap, 2, 3, al, 2); });
        if (kind == QUICK || kind == FIXED || kind == LIMIT || th) {
          std::vector<int> a2{A32, FREE};
          add(nm + "/3x2", "3 threads, 2 operations each, " + S(th ? 3 : 2) + " preemptions",
              [=](mc::Ctx& c) { body19(c, kind, cap, 3, 2, a2, th ? 3 : 2); });
          add(nm + "/2x4", "2 threads, 4 operations each, 2 preemptions",
              [=](mc::Ctx& c) { body19(c, kind, cap, 2, 4, a2, 2); });
        }
      }
    }
    for (Base b : {OVER_SAFE_ARENA, OVER_SAFE_QUICK, OVER_SAFE_FIXED})
      for (Top k : {QUICK, LIST, FIXED, NAMED, SLOT, MONO}) {
        std::vector<int> al{A8, FREE, NAME};
        add(std::string("stacked/") + top_name[k] + "+named over " + base_name[b],
            "2 threads with their own allocators over one thread-safe allocator, " + S(th ? 3 : 2) + " operations each, 2 preemptions",
            [=](mc::Ctx& c) { body18(c, {k, NAMED}, th ? 3 : 2, al, 2, b); });
      }
  }
  if (o.property == "P18") {
    std::vector<Top> pools{QUICK, LIST, FIXED, MIXED, LIMIT, SLOT, MONO, NAMED, SHIM, ALIGN};
    std::vector<int> basic{A8, ZERO, FREE, QUERY, STAT};
    std::vector<int> more{A8, NAME, RMFREE, COPY, REALLOC, LIST_};
    std::vector<int> reg{A8, CREATE, LOOKUP};
    const int pb = th ? 4 : 3;
    for (Top k : pools) {
      add(std::string("basic/") + top_name[k] + "+quick", "2 threads, 2 operations each, " + S(pb) + " preemptions",
          [=](mc::Ctx& c) { body18(c, {k, QUICK}, 2, basic, pb); });
      if (th)
        add(std::string("long/") + top_name[k] + "+quick", "2 threads, 3 operations each, 2 preemptions",
            [=](mc::Ctx& c) { body18(c, {k, QUICK}, 3, basic, 2); });
    }
    for (Top k : {QUICK, NAMED, LIST}) {
      add(std::string("more/") + top_name[k] + "+named", "2 threads, 2 operations each, " + S(th ? 3 : 2) + " preemptions",
          [=](mc::Ctx& c) { body18(c, {k, NAMED}, 2, more, th ? 3 : 2); });
      if (th)
        add(std::string("morelong/") + top_name[k] + "+named", "2 threads, 3 operations each, 1 preemption",
            [=](mc::Ctx& c) { body18(c, {k, NAMED}, 3, more, 1); });
    }
    for (Top k : {NAMED, QUICK})
      add(std::string("file/") + top_name[k] + "+named", "2 threads, " + S(th ? 3 : 2) + " operations each, over file-backed memory, 2 preemptions",
          [=](mc::Ctx& c) { body18(c, {k, NAMED}, th ? 3 : 2, {A8, FREE, QUERY}, 2, OVER_FILE); });
    add("registry/named+quick", "2 threads, 2 operations each, 2 preemptions",
        [=](mc::Ctx& c) { body18(c, {NAMED, QUICK}, 2, reg, 2); }, 200);
    add("registry3/named+quick+named", "3 threads, 1 operation each, 2 preemptions",
        [=](mc::Ctx& c) { body18(c, {NAMED, QUICK, NAMED}, 1, reg, 2); }, 200);
    add("three/quick+list+named", "3 threads, " + S(th ? 2 : 1) + " operations each, 2 preemptions",
        [=](mc::Ctx& c) {
          body18(c, {QUICK, LIST, NAMED}, th ? 2 : 1, {A8, ZERO, STAT}, 2);
        }, 500);
  }
  return out;
}

} // namespace

int main(int argc, char** argv)
{
  setenv("UMPIRE_LOG_LEVEL", "ERROR", 1);
  auto& rm = umpire::ResourceManager::getInstance();
  umpire::log().rdbuf(nullptr);
  umpire::error().rdbuf(nullptr);
  auto h = rm.getAllocator("HOST");
  void* p = h.allocate(0);
  h.deallocate(p);
  p = h.allocate(1 << 22); // the watermark of HOST does not change any more
  h.deallocate(p);
  return mc::mc_main(argc, argv, make);
}
