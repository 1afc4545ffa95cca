// P28: what allocators say about themselves and the stack they stand on.
// P29: the end of the program.
//
// P28 builds every stack of up to three layers and asks each layer.  P29 runs
// every history as a program in a process of its own that ends with whatever
// is still live; recording strategies ("taps") between the layers note, in
// memory shared with the checker, what is taken, given back and destroyed, and
// the log the program leaves behind is compared with what was live.
#include "mc.hpp"

#include <dirent.h>
#include <sys/prctl.h>

#include <map>
#include <memory>

#include "camp/camp.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/resource/MemoryResource.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/NamingShim.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/wrap_allocator.hpp"

using umpire::Allocator;
using umpire::Platform;
using umpire::ResourceManager;
using umpire::strategy::AllocationStrategy;
namespace us = umpire::strategy;

#define REQ(cond, msg) c.require_f((cond), [&] { return std::string(msg); })

namespace {

template <typename T>
std::string S(const T& x)
{
  std::ostringstream s;
  s << x;
  return s.str();
}

enum Kind { QUICK, LIST, FIXED, MIXED, SLOT, MONO, LIMIT, ALIGN, TSAFE, NAMED, SHIM, NKINDS };
const char* kname[] = {"QuickPool", "DynamicPoolList", "FixedPool", "MixedPool", "SlotPool", "MonotonicAllocationStrategy",
                       "SizeLimiter", "AlignedAllocator", "ThreadSafeAllocator", "NamedAllocationStrategy", "NamingShim"};

std::size_t g_fixed = 320, g_mono = 4096, g_slots = 6;

Allocator make(int kind, const std::string& name, Allocator par, bool tracked = true)
{
  auto& rm = ResourceManager::getInstance();
  auto t = tracked ? umpire::Tracking::Tracked : umpire::Tracking::Untracked;
  switch (kind) {
    case QUICK:
      return rm.makeAllocator<us::QuickPool>(name, t, par, 512, 256, 16);
    case LIST:
      return rm.makeAllocator<us::DynamicPoolList>(name, t, par, 512, 256, 16);
    case FIXED:
      return rm.makeAllocator<us::FixedPool>(name, t, par, g_fixed, 3);
    case MIXED:
      return rm.makeAllocator<us::MixedPool>(name, t, par, 32, 128, 512, 2, 256, 128, 16);
    case SLOT:
      return rm.makeAllocator<us::SlotPool>(name, t, par, g_slots);
    case MONO:
      return rm.makeAllocator<us::MonotonicAllocationStrategy>(name, t, par, g_mono);
    case LIMIT:
      return rm.makeAllocator<us::SizeLimiter>(name, t, par, 1 << 28);
    case ALIGN:
      return rm.makeAllocator<us::AlignedAllocator>(name, t, par, 64);
    case TSAFE:
      return rm.makeAllocator<us::ThreadSafeAllocator>(name, t, par);
    case NAMED:
      return rm.makeAllocator<us::NamedAllocationStrategy>(name, t, par);
    default:
      return rm.makeAllocator<us::NamingShim>(name, t, par);
  }
}

// ------------------------------------------------------------------- P28

bool is_kind(int kind, Allocator a)
{
  AllocationStrategy* s = a.getAllocationStrategy();
  switch (kind) {
    case QUICK:
      return dynamic_cast<us::QuickPool*>(s);
    case LIST:
      return dynamic_cast<us::DynamicPoolList*>(s);
    case FIXED:
      return dynamic_cast<us::FixedPool*>(s);
    case MIXED:
      return dynamic_cast<us::MixedPool*>(s);
    case SLOT:
      return dynamic_cast<us::SlotPool*>(s);
    case MONO:
      return dynamic_cast<us::MonotonicAllocationStrategy*>(s);
    case LIMIT:
      return dynamic_cast<us::SizeLimiter*>(s);
    case ALIGN:
      return dynamic_cast<us::AlignedAllocator*>(s);
    case TSAFE:
      return dynamic_cast<us::ThreadSafeAllocator*>(s);
    case NAMED:
      return dynamic_cast<us::NamedAllocationStrategy*>(s);
    default:
      return dynamic_cast<us::NamingShim*>(s);
  }
}

template <typename T>
bool unwraps(Allocator a)
{
  try {
    return (void*)umpire::util::unwrap_allocator<T>(a) != nullptr;
  } catch (umpire::runtime_error&) {
    return false;
  }
}

bool unwraps_as(int kind, Allocator a)
{
  switch (kind) {
    case QUICK:
      return unwraps<us::QuickPool>(a);
    case LIST:
      return unwraps<us::DynamicPoolList>(a);
    case FIXED:
      return unwraps<us::FixedPool>(a);
    case MIXED:
      return unwraps<us::MixedPool>(a);
    case SLOT:
      return unwraps<us::SlotPool>(a);
    case MONO:
      return unwraps<us::MonotonicAllocationStrategy>(a);
    case LIMIT:
      return unwraps<us::SizeLimiter>(a);
    case ALIGN:
      return unwraps<us::AlignedAllocator>(a);
    case TSAFE:
      return unwraps<us::ThreadSafeAllocator>(a);
    case NAMED:
      return unwraps<us::NamedAllocationStrategy>(a);
    default:
      return unwraps<us::NamingShim>(a);
  }
}

std::string traits_text(const umpire::MemoryResourceTraits& t)
{
  return S(t.unified) + " " + S(t.ipc) + " " + S(t.size) + " " + S((int)t.vendor) + " " + S((int)t.kind) + " " + S((int)t.used_for) + " " +
         S((int)t.resource) + " " + S((int)t.scope) + " " + S((int)t.granularity) + " " + S(t.tracking);
}

const Platform plats[] = {Platform::undefined, Platform::host, Platform::cuda, Platform::omp_target, Platform::hip, Platform::sycl};

int g_serial;

void p28(mc::Ctx& c, std::vector<std::string> resources, int maxdepth)
{
  auto& rm = ResourceManager::getInstance();
  std::string res = resources[c.choose((int)resources.size())];
  int depth = c.choose(maxdepth + 1);
  Allocator root = rm.getAllocator(res);
  struct L {
    Allocator a;
    int kind;
    std::string name;
    bool tracked;
    int id;
    std::string text; // what it said when it was created
  };
  std::vector<L> st;
  st.push_back({root, -1, root.getName(), root.isTracked(), root.getId(), ""});
  const std::string tr = traits_text(root.getAllocationStrategy()->getTraits());
  const Platform pl = root.getPlatform();
  auto describe = [&](Allocator a) {
    std::string s = a.getName() + " " + a.getStrategyName() + " " + S(a.getId()) + " " + S(a.isTracked()) + " " + S((int)a.getPlatform()) + " " +
                    traits_text(a.getAllocationStrategy()->getTraits()) + " " + S((void*)a.getParent());
    for (auto p : plats)
      s += " " + S(umpire::is_accessible(p, a));
    return s;
  };
  REQ(root.getParent() == nullptr, "the resource " + res + " has a parent");
  {
    if (res == "HOST")
      REQ(pl == Platform::host, "the resource " + res + " is not on the host");
    REQ(umpire::is_accessible(Platform::host, root), "the resource " + res + " cannot be accessed from the host");
  }
  REQ(!umpire::is_accessible(Platform::undefined, root), "the resource " + res + " can be accessed from an undefined platform");
  {
    auto t = root.getAllocationStrategy()->getTraits().resource;
    using RT = umpire::MemoryResourceTraits::resource_type;
    REQ(t == (res == "FILE" ? RT::file : RT::host), "the resource " + res + " has traits of another kind of resource");
    REQ(traits_text(umpire::get_default_resource_traits(res)) == tr, "the default traits of " + res + " differ from those of the resource");
  }
  st[0].text = describe(root);
  for (int d = 0; d < depth; ++d) {
    int kind = c.choose(NKINDS);
    bool tracked = d + 1 < depth || !c.choose(2);
    c.step();
    std::string name = "s" + S(getpid()) + "_" + S(g_serial++);
    Allocator par = st.back().a;
    auto ids = rm.getAllocatorIds();
    auto names = rm.getAllocatorNames();
    g_fixed = std::size_t(1) << (22 - 3 * d);
    g_mono = std::size_t(1) << (23 - 3 * d);
    Allocator a;
    if (kind == ALIGN && pl != Platform::host) {
      bool refused = false;
      try {
        a = make(kind, name, par, tracked);
      } catch (umpire::runtime_error&) {
        refused = true;
      }
      REQ(refused && !rm.isAllocator(name), "an aligned allocator is created on memory that is not on the host");
      break;
    }
    a = make(kind, name, par, tracked);
    L l{a, kind, name, tracked, a.getId(), ""};
    std::string who = std::string("a ") + kname[kind] + " over " + st.back().a.getStrategyName() + " on " + res;
    REQ(a.getName() == name, who + " has another name");
    REQ(a.getStrategyName() == kname[kind], who + " says it is a " + a.getStrategyName());
    REQ(is_kind(kind, a), who + " is of another type");
    REQ(a.getParent() == par.getAllocationStrategy(), who + " has another parent");
    REQ(a.isTracked() == tracked, who + (tracked ? " is not tracked" : " is tracked"));
    REQ(a.getPlatform() == pl, who + " is on another platform than its resource");
    REQ(traits_text(a.getAllocationStrategy()->getTraits()) == tr, who + " has other traits than its resource");
    for (auto p : plats)
      REQ(umpire::is_accessible(p, a) == umpire::is_accessible(p, root), who + " differs from its resource in being accessible from platform " + S((int)p));
    REQ(a.getCurrentSize() == 0 && a.getHighWatermark() == (kind == MONO ? g_mono : 0u), who + " is new and has a current size or high watermark");
    REQ(a.getAllocationCount() == 0, who + " is new and has allocations");
    for (int k = 0; k < NKINDS; ++k)
      REQ(unwraps_as(k, a) == (k == kind), who + (k == kind ? " cannot be unwrapped" : std::string(" can be unwrapped as ") + kname[k]));
    REQ(!unwraps<umpire::resource::MemoryResource>(a), who + " can be unwrapped as a resource");
    bool pool = kind == QUICK || kind == LIST;
    REQ(umpire::try_coalesce(a) == pool, who + (pool ? " cannot be coalesced" : " can be coalesced"));
    bool threw = false;
    try {
      umpire::coalesce(a);
    } catch (umpire::runtime_error&) {
      threw = true;
    }
    REQ(threw == !pool, who + (pool ? " raises an error when coalesced" : " raises no error when coalesced"));
    REQ(rm.getAllocator(name).getAllocationStrategy() == a.getAllocationStrategy() && rm.getAllocator(a.getId()).getAllocationStrategy() == a.getAllocationStrategy(),
        who + " is not found by name and id");
    // the lists of names and ids gain exactly the new one (and internal pools of a mixed pool keep out of them, or come in as ids)
    auto ids2 = rm.getAllocatorIds();
    auto names2 = rm.getAllocatorNames();
    REQ(std::count(ids2.begin(), ids2.end(), a.getId()) == 1 && std::count(ids.begin(), ids.end(), a.getId()) == 0, "the list of ids does not gain the new id once");
    REQ(std::count(names2.begin(), names2.end(), name) == 1 && std::count(names.begin(), names.end(), name) == 0, "the list of names does not gain the new name once");
    std::sort(names.begin(), names.end());
    std::sort(names2.begin(), names2.end());
    std::sort(ids.begin(), ids.end());
    std::sort(ids2.begin(), ids2.end());
    REQ(std::includes(names2.begin(), names2.end(), names.begin(), names.end()) && std::includes(ids2.begin(), ids2.end(), ids.begin(), ids.end()), "a name or id is lost from the lists");
    l.text = describe(a);
    st.push_back(l);
  }
  // the same answers with something live, and afterwards
  Allocator top = st.back().a;
  for (int round = 0; round < 3; ++round) {
    void* p = nullptr;
    void* q = nullptr;
    if (round == 1) {
      c.step();
      p = top.allocate(round ? 48 : 16);
      q = top.allocate(0);
    }
    for (auto& l : st) {
      std::string now = describe(l.a);
      REQ(now == l.text, "after use of the stack, " + l.text + " became " + now);
    }
    for (std::size_t i = 0; i + 1 < st.size(); ++i)
      REQ(st[i + 1].a.getParent() == st[i].a.getAllocationStrategy(), "a parent changed");
    if (p) {
      top.deallocate(q);
      top.deallocate(p);
    }
  }
  mc::Hash h;
  for (auto& l : st)
    h.add(l.kind + 1).add(l.tracked);
  c.state(h.add(std::hash<std::string>()(res)).h);
}

// ------------------------------------------------------------------- P29

enum NK : int { N_TAKE, N_GIVE, N_GONE, N_LIVE, N_NAME };
struct Note {
  int k, who;
  uint64_t p, n;
};
struct Notes {
  int n;
  int phase; // 1: the program is about to end
  Note e[4000];
};
Notes* g_notes;
void note(int k, int who, const void* p, uint64_t n)
{
  if (g_notes->n < 4000)
    g_notes->e[g_notes->n++] = {k, who, (uint64_t)p, n};
}

// Passes everything on to its parent and notes it.  Its memory is never
// reused, so that a call after its destruction is noticed.
struct Tap : AllocationStrategy {
  AllocationStrategy* par;
  int who;
  Tap(const std::string& name, int id, Allocator a, int w) : AllocationStrategy(name, id, a.getAllocationStrategy(), "Tap"), par(a.getAllocationStrategy()), who(w)
  {
  }
  ~Tap() override
  {
    note(N_GONE, who, nullptr, 0);
  }
  void* allocate(std::size_t n) override
  {
    void* p = par->allocate_internal(n);
    note(N_TAKE, who, p, n);
    return p;
  }
  void deallocate(void* p, std::size_t n) override
  {
    note(N_GIVE, who, p, n);
    par->deallocate_internal(p, n);
  }
  Platform getPlatform() noexcept override
  {
    return par->getPlatform();
  }
  umpire::MemoryResourceTraits getTraits() const noexcept override
  {
    return par->getTraits();
  }
  static void operator delete(void*)
  {
  }
};

struct Stack {
  std::string label;
  std::string res;
  std::vector<int> kinds;
};

// one user of memory: the resource itself, or one of the layers
struct Step {
  int op; // 0 allocate, 1 allocate named, 2 zero bytes, 3 free
  int who;
  std::size_t n;
  int which;
};

std::string g_dir;
const std::string& dir_of()
{
  static pid_t owner = 0;
  if (owner != getpid()) {
    owner = getpid();
    const char* base = getenv("VERIF_SCRATCH");
    std::string t = std::string(base ? base : "/tmp") + "/hexit.XXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (!mkdtemp(b.data()))
      abort();
    g_dir = b.data();
  }
  return g_dir;
}
std::map<std::string, std::string> take_files(const std::string& dir)
{
  std::map<std::string, std::string> r;
  DIR* d = opendir(dir.c_str());
  if (!d)
    return r;
  std::vector<std::string> names;
  while (dirent* e = readdir(d))
    if (std::string(e->d_name) != "." && std::string(e->d_name) != "..")
      names.push_back(e->d_name);
  closedir(d);
  for (auto& n : names) {
    std::string f = dir + "/" + n, t;
    FILE* in = fopen(f.c_str(), "r");
    char b[4096];
    size_t k;
    while (in && (k = fread(b, 1, sizeof b, in)) > 0)
      t.append(b, k);
    if (in)
      fclose(in);
    unlink(f.c_str());
    r[n] = t;
  }
  return r;
}

[[noreturn]] void program(const Stack& s, const std::vector<Step>& steps, const std::string& dir, int ending)
{
  setenv("UMPIRE_LOG_LEVEL", "WARNING", 1);
  setenv("UMPIRE_OUTPUT_DIR", dir.c_str(), 1);
  setenv("UMPIRE_MEMORY_FILE_DIR", (dir + "/").c_str(), 1);
  auto& rm = ResourceManager::getInstance();
  std::vector<Allocator> users;
  Allocator a = rm.getAllocator(s.res);
  users.push_back(a);
  std::vector<bool> untr;
  for (std::size_t i = 0; i < s.kinds.size(); ++i) {
    a = rm.makeAllocator<Tap>("tap" + S(i), a, (int)i);
    a = make(s.kinds[i], "layer" + S(i), a);
    users.push_back(a);
  }
  struct B {
    void* p;
    int who;
    std::size_t n;
    std::string name;
  };
  std::vector<B> live;
  for (auto& t : steps) {
    Allocator u = users[t.who];
    switch (t.op) {
      case 0:
      case 2: {
        std::size_t n = t.op == 2 ? 0 : t.n;
        void* p = u.allocate(n);
        memset(p, 0x77, n);
        live.push_back({p, t.who, n, ""});
        break;
      }
      case 1: {
        void* p = u.allocate("some name", t.n);
        memset(p, 0x78, t.n);
        live.push_back({p, t.who, t.n, "some name"});
        break;
      }
      default:
        if (t.which % 2)
          rm.deallocate(live[t.which].p);
        else
          users[live[t.which].who].deallocate(live[t.which].p);
        live.erase(live.begin() + t.which);
    }
  }
  for (auto& b : live) {
    note(N_LIVE, b.who, b.p, b.n);
    note(N_NAME, b.name.empty() ? 0 : 1, b.p, b.n);
  }
  g_notes->phase = 1;
  if (ending == 1)
    for (auto& u : users)
      u.release();
  exit(0);
}

void p29(mc::Ctx& c, const Stack& s, int depth, std::vector<std::size_t> sizes)
{
  const int nu = (int)s.kinds.size() + 1;
  std::vector<Step> steps;
  std::vector<int> live; // who
  std::vector<int> slots(nu, 0);
  for (int d = 0; d < depth; ++d) {
    // 0: end here
    int total = 1 + nu * (int)(sizes.size() + 2) + (int)live.size();
    int k = c.choose(total);
    if (k == 0)
      break;
    --k;
    if (k < nu * (int)(sizes.size() + 2)) {
      int who = k % nu, form = k / nu;
      Step t{0, who, 0, 0};
      if (form < (int)sizes.size())
        t.n = sizes[form];
      else if (form == (int)sizes.size()) {
        t.op = 1;
        t.n = sizes[0];
      } else
        t.op = 2;
      steps.push_back(t);
      live.push_back(who);
    } else {
      k -= nu * (int)(sizes.size() + 2);
      steps.push_back({3, 0, 0, k});
      live.erase(live.begin() + k);
    }
  }
  int ending = c.choose(2);
  c.step();
  if (!g_notes)
    g_notes = (Notes*)mmap(nullptr, sizeof(Notes), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_notes->n = 0;
  g_notes->phase = 0;
  std::string dir = dir_of();
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0)
    c.prune("fork failed");
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    alarm(20);
    int fd = open("/dev/null", O_RDWR);
    dup2(fd, 1);
    dup2(fd, 2);
    try {
      program(s, steps, dir, ending);
    } catch (...) {
      _exit(9);
    }
  }
  int stt = 0;
  while (waitpid(pid, &stt, 0) < 0 && errno == EINTR) {
  }
  auto files = take_files(dir);
  std::string how;
  for (auto& t : steps)
    how += (t.op == 3 ? "free #" + S(t.which) : std::string(t.op == 0 ? "allocate " : t.op == 1 ? "allocate named " : "allocate zero ") + S(t.n) + " from level " + S(t.who)) + "; ";
  c.log(s.label + ": " + how + (ending ? "release all; " : "") + "exit");
  for (int i = 0; c.verbose && i < g_notes->n; ++i) {
    auto& e = g_notes->e[i];
    static const char* nm[] = {"taken through", "given back through", "destroyed", "live at level", "named"};
    c.log(std::string("  ") + nm[e.k] + " " + S(e.who) + " " + S((void*)e.p) + " " + S(e.n));
  }
  std::string at = g_notes->phase ? " at the end" : " before its end";
  REQ(!WIFSIGNALED(stt), "the program dies from signal " + S(WTERMSIG(stt)) + at);
  REQ(WIFEXITED(stt) && WEXITSTATUS(stt) == 0, "the program ends with status " + S(WEXITSTATUS(stt)) + at);

  // what the taps saw
  const int nt = (int)s.kinds.size();
  std::vector<std::map<uint64_t, uint64_t>> out(nt);
  std::vector<bool> gone(nt, false);
  struct U {
    int who;
    uint64_t p, n;
    bool named;
  };
  std::vector<U> users;
  for (int i = 0; i < g_notes->n; ++i) {
    auto& e = g_notes->e[i];
    if (e.k == N_LIVE) {
      users.push_back({e.who, e.p, e.n, g_notes->e[i + 1].who != 0});
      continue;
    }
    if (e.k == N_NAME)
      continue;
    REQ(!gone[e.who], "allocator layer" + S(e.who) + " uses its parent after the parent was destroyed");
    if (e.k == N_TAKE)
      out[e.who][e.p] = e.n;
    else if (e.k == N_GIVE) {
      auto it = out[e.who].find(e.p);
      REQ(it != out[e.who].end(), "layer" + S(e.who) + " gives back what it does not hold");
      REQ(it->second == e.n, "layer" + S(e.who) + " gives back " + S(e.n) + " bytes of a block of " + S(it->second));
      out[e.who].erase(it);
    } else {
      gone[e.who] = true;
      for (int k = e.who + 1; k < nt; ++k)
        REQ(gone[k], "layer" + S(e.who) + " is destroyed before an allocator that stands on it");
    }
  }
  for (int k = 0; k < nt; ++k)
    REQ(gone[k], "an allocator is not destroyed at the end of the program");
  // what each level holds at its end: live of the user and what the level above keeps
  auto held_in = [&](int level) {
    std::vector<std::pair<uint64_t, uint64_t>> r;
    for (auto& u : users)
      if (u.who == level && u.n)
        r.push_back({u.p, u.n});
    if (level < nt)
      for (auto& b : out[level])
        r.push_back(b);
    return r;
  };
  for (int k = 0; k < nt; ++k) {
    auto held = held_in(k + 1);
    REQ(!held.empty() || out[k].empty(), std::string(kname[s.kinds[k]]) + " without live allocations keeps " + S(out[k].size()) + " blocks of its parent");
    if (s.kinds[k] == QUICK || s.kinds[k] == LIST)
      for (auto& b : out[k]) {
        bool used = false;
        for (auto& h : held)
          used = used || (h.first >= b.first && h.first < b.first + b.second);
        REQ(used, std::string(kname[s.kinds[k]]) + " keeps a block of its parent that holds no live allocation");
      }
  }
  // the report
  std::string report;
  for (auto& f : files) {
    bool log = f.first.size() > 4 && f.first.substr(f.first.size() - 4) == ".log";
    bool err = f.first.size() > 6 && f.first.substr(f.first.size() - 6) == ".error";
    REQ(log || err, "the file " + f.first + " is left behind");
    if (log)
      report += f.second;
    else
      REQ(f.second.empty(), "errors are reported: " + f.second.substr(0, 200));
  }
  std::map<std::string, std::pair<uint64_t, std::map<std::string, int>>> said;
  std::map<std::string, int> times;
  {
    std::istringstream in(report);
    std::string line, cur;
    while (std::getline(in, line)) {
      c.log("  | " + line);
      auto q = line.find(" Allocator still has ");
      if (q != std::string::npos) {
        auto b = line.rfind(' ', q - 1);
        cur = line.substr(b + 1, q - b - 1);
        said[cur].first = strtoull(line.c_str() + q + 21, nullptr, 10);
        times[cur]++;
        continue;
      }
      if (line[0] == '[')
        cur.clear();
      auto z = line.find("  size: ");
      if (z == 0 && !cur.empty())
        said[cur].second[line.substr(0, line.rfind(", "))]++;
    }
  }
  for (auto& t : times)
    REQ(t.second == 1, "the report mentions " + t.first + " more than once");
  auto text = [](const U& u) {
    std::ostringstream o;
    o << "  size: " << u.n << ", range: " << (void*)u.p << " -- " << (void*)(u.p + u.n) << ", name: " << (u.named ? "some name" : "");
    return o.str();
  };
  std::set<std::string> expected;
  for (int lv = 0; lv <= nt; ++lv) {
    std::string name = lv == 0 ? s.res : "layer" + S(lv - 1);
    int kind = lv == 0 ? -1 : s.kinds[lv - 1];
    uint64_t sum = 0;
    std::map<std::string, int> recs;
    for (auto& h : held_in(lv))
      sum += kind == FIXED ? 320 : h.second;
    for (auto& u : users)
      if (u.who == lv)
        recs[text(u)]++;
    bool there = said.count(name);
    if (there)
      expected.insert(name);
    if (kind == MONO) {
      if (sum)
        REQ(there, "the report does not mention " + name);
    } else {
      REQ(there == (sum != 0), there ? "the report mentions " + name + ", which has nothing left" : "the report does not mention " + name + ", which has " + S(sum) + " bytes left");
      if (there)
        REQ(said[name].first == sum, "the report says " + S(said[name].first) + " bytes are left in " + name + " instead of " + S(sum));
    }
    if (there)
      REQ(said[name].second == recs, "the report does not list exactly the " + S(recs.size()) + " live allocations of " + name);
  }
  for (int k = 0; k < nt; ++k) {
    // the tap stands between two levels
    std::string name = "tap" + S(k);
    uint64_t sum = 0;
    for (auto& b : out[k])
      sum += b.second;
    bool there = said.count(name);
    REQ(there == (sum != 0) && (!there || said[name].first == sum), "the report on the parent of layer" + S(k) + " does not match what was not given back");
    if (there)
      expected.insert(name);
  }
  bool zero = std::any_of(users.begin(), users.end(), [](const U& u) { return u.n == 0; });
  for (auto& r : said)
    REQ((zero && r.first.substr(0, 16) == "__umpire_interna") || expected.count(r.first), "the report mentions " + r.first);
  mc::Hash h;
  for (auto& u : users)
    h.add(u.who).add(u.n).add(u.named);
  for (auto& o : out)
    h.add(o.size());
  c.state(h.add(std::hash<std::string>()(s.label)).h);
}

} // namespace

int main(int argc, char** argv)
{
  bool p28_run = false;
  for (int i = 1; i < argc; ++i)
    if (std::string(argv[i]) == "--property=P28")
      p28_run = true;
  if (p28_run) {
    g_slots = 64;
    setenv("UMPIRE_LOG_LEVEL", "ERROR", 1);
    const char* base = getenv("VERIF_SCRATCH");
    setenv("UMPIRE_OUTPUT_DIR", base ? base : "/tmp", 1);
    setenv("UMPIRE_MEMORY_FILE_DIR", (std::string(base ? base : "/tmp") + "/").c_str(), 1);
    unsetenv("UMPIRE_LOG_LEVEL");
    ResourceManager::getInstance();
    umpire::log().rdbuf(nullptr);
    umpire::error().rdbuf(nullptr);
  }
  return mc::mc_main(argc, argv, [](const mc::Options& o) {
    bool T = o.tier == "thorough";
    std::vector<mc::Config> v;
    auto add = [&](const std::string& name, std::function<void(mc::Ctx&)> f, const std::string& bounds, int split, uint64_t seg) {
      mc::Config cfg;
      cfg.name = name;
      cfg.body = f;
      cfg.bounds = bounds;
      cfg.split = split;
      cfg.segment = seg;
      v.push_back(cfg);
    };
    if (o.property == "P28") {
      int d = T ? 5 : 4;
      add("stacks/d" + S(d), [=](mc::Ctx& c) { p28(c, {"HOST", "FILE"}, d); },
          "every stack of up to " + S(d) + " strategies (11 kinds) on the host and file resources, the top tracked or not", 3, 150);
    } else {
      std::vector<Stack> ss;
      for (std::string r : {"HOST", "FILE"})
        for (int k = 0; k < NKINDS; ++k)
          if (r == "HOST" || k != ALIGN)
            ss.push_back({std::string(kname[k]) + "/" + r, r, {k}});
      for (int k = 0; k < NKINDS; ++k)
        for (int m : {(int)QUICK, (int)LIST, (int)TSAFE, (int)LIMIT, (int)FIXED, (int)ALIGN})
          if (m != k && !(m == FIXED && (k != TSAFE && k != NAMED && k != SHIM)))
            ss.push_back({std::string(kname[k]) + "/" + kname[m], "HOST", {m, k}});
      for (auto& s : ss) {
        int d = (s.kinds.size() == 1 ? (s.res == "HOST" && (s.kinds[0] <= SLOT && s.kinds[0] != MIXED) ? 4 : 3) : s.kinds[0] == QUICK || s.kinds[1] == QUICK ? 3 : 2) + (T ? 1 : 0);
        std::vector<std::size_t> sizes = {24, 300};
        add(s.label + "/d" + S(d), [=](mc::Ctx& c) { p29(c, s, d, sizes); },
            "programs of up to " + S(d) + " allocations and frees at every level of the stack, then the end", 2, 100000);
      }
    }
    return v;
  });
}
