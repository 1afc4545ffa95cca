// P30: the replay tool performs what a recorded program did.
//
// Every history is a program executed in a process of its own with recording
// on.  Its log is given to the real replay tool (main function included), in
// another process that also records.  The allocators that exist at the end,
// their statistics, and the two logs modulo addresses have to agree.
#include "mc.hpp"

#include <dirent.h>
#include <sys/stat.h>

#include <algorithm>
#include <map>
#include <set>
#include <typeinfo>

#include "camp/camp.hpp"
#include "camp/resource.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/event/event.hpp"
#include "umpire/event/json_file_store.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/SlotPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/wrap_allocator.hpp"

using umpire::Allocator;
using umpire::ResourceManager;
namespace st = umpire::strategy;

#define REQ(cond, msg) c.require_f((cond), [&] { return std::string(msg); })

int replay_main(int argc, char** argv);
int replaydiff_main(int argc, char** argv);

namespace {
template <typename T>
std::string S(const T& x)
{
  std::ostringstream s;
  s << x;
  return s.str();
}

enum Kind { QUICK, LIST, MONO, SLOT, LIMIT, TSAFE, FIXED, MIXED, NAMED, NKINDS };
const char* kname[] = {"QuickPool", "DynamicPoolList", "Monotonic", "SlotPool", "SizeLimiter", "ThreadSafe", "FixedPool", "MixedPool", "Named"};

enum K { MAKE, ALLOC, NALLOC, FREE, RMFREE, REALLOC, REALLOCA, REALLOCX, NULLREALLOC, RELEASE, COALESCE, DEFAULT, COPY, SET, MOVE, REGISTER, RMALLOC };
const char* opname[] = {"make", "allocate", "allocate named", "free", "free by the manager", "reallocate", "reallocate on", "reallocate async", "reallocate null", "release", "coalesce", "set default", "copy", "memset", "move", "register", "allocate by default"};

struct Op {
  K k;
  int h;      // allocator: 0 HOST, 1.. the ones made
  int b;      // block: 0 newest live, 1 oldest live
  size_t n;
  Kind kind;
  int nargs;
  bool tracked;
  std::string name;
  std::string text() const
  {
    std::string r = opname[k];
    r += " h" + S(h);
    if (k == MAKE)
      return r + " " + kname[kind] + " with " + S(nargs) + " arguments" + (tracked ? "" : ", untracked") + (name.empty() ? "" : ", named " + name.substr(0, 40));
    return r + " b" + S(b) + " n" + S(n);
  }
};
Op mk(Kind kind, int parent, int nargs, bool tracked = true, const std::string& name = "")
{
  return Op{MAKE, parent, 0, 0, kind, nargs, tracked, name};
}
Op op(K k, int h = 0, size_t n = 0, int b = 0)
{
  return Op{k, h, b, n, QUICK, 0, true, ""};
}

// Arguments by position; they differ from the defaults and from each other.
const std::vector<std::vector<size_t>> g_args = {
    {512, 256, 32},                        // QuickPool
    {640, 320, 64},                        // DynamicPoolList
    {8192},                                // Monotonic
    {5},                                   // SlotPool
    {2048},                                // SizeLimiter
    {},                                    // ThreadSafe
    {48, 96},                              // FixedPool
    {64, 1024, 4096, 2, 8192, 2048, 32},   // MixedPool
    {},                                    // Named
};
const int g_least[] = {0, 0, 1, 1, 1, 0, 1, 0, 0};

struct Program {
  std::vector<Allocator> h;
  std::vector<Kind> kinds;
  struct B {
    char* p;
    size_t n;
    int h;
    bool live;
  };
  std::vector<B> b;
  int made{0};
  char ext[64];

  template <typename T, bool t, size_t... I>
  void create(const std::string& n, Allocator p, const std::vector<size_t>& a, std::index_sequence<I...>)
  {
    h.push_back(ResourceManager::getInstance().makeAllocator<T, t>(n, p, a[I]...));
  }
  template <typename T, size_t N>
  void create_t(const Op& o, const std::string& n)
  {
    if (o.tracked)
      create<T, true>(n, h[o.h], g_args[o.kind], std::make_index_sequence<N>{});
    else
      create<T, false>(n, h[o.h], g_args[o.kind], std::make_index_sequence<N>{});
  }
  void make(const Op& o)
  {
    std::string n = o.name.empty() ? "A" + S(made) : o.name;
    ++made;
    switch (o.kind) {
      case QUICK:
        o.nargs == 0 ? create_t<st::QuickPool, 0>(o, n) : o.nargs == 1 ? create_t<st::QuickPool, 1>(o, n) : o.nargs == 2 ? create_t<st::QuickPool, 2>(o, n) : create_t<st::QuickPool, 3>(o, n);
        break;
      case LIST:
        o.nargs == 0 ? create_t<st::DynamicPoolList, 0>(o, n) : o.nargs == 1 ? create_t<st::DynamicPoolList, 1>(o, n) : o.nargs == 2 ? create_t<st::DynamicPoolList, 2>(o, n) : create_t<st::DynamicPoolList, 3>(o, n);
        break;
      case MONO:
        create_t<st::MonotonicAllocationStrategy, 1>(o, n);
        break;
      case SLOT:
        create_t<st::SlotPool, 1>(o, n);
        break;
      case LIMIT:
        create_t<st::SizeLimiter, 1>(o, n);
        break;
      case TSAFE:
        create_t<st::ThreadSafeAllocator, 0>(o, n);
        break;
      case FIXED:
        o.nargs == 1 ? create_t<st::FixedPool, 1>(o, n) : create_t<st::FixedPool, 2>(o, n);
        break;
      case MIXED:
        switch (o.nargs) {
          case 0: create_t<st::MixedPool, 0>(o, n); break;
          case 1: create_t<st::MixedPool, 1>(o, n); break;
          case 2: create_t<st::MixedPool, 2>(o, n); break;
          case 3: create_t<st::MixedPool, 3>(o, n); break;
          case 4: create_t<st::MixedPool, 4>(o, n); break;
          case 5: create_t<st::MixedPool, 5>(o, n); break;
          case 6: create_t<st::MixedPool, 6>(o, n); break;
          default: create_t<st::MixedPool, 7>(o, n); break;
        }
        break;
      default:
        create_t<st::NamedAllocationStrategy, 0>(o, n);
    }
    kinds.push_back(o.kind);
  }
  bool tracked(int i)
  {
    return h[i].isTracked();
  }
  B* block(int which)
  {
    if (which == 1) {
      for (auto& x : b)
        if (x.live)
          return &x;
    } else
      for (size_t i = b.size(); i-- > 0;)
        if (b[i].live)
          return &b[i];
    return nullptr;
  }
  void step(const Op& o)
  {
    auto& rm = ResourceManager::getInstance();
    if (o.h >= (int)h.size())
      return;
    try {
      B* x = block(o.b);
      switch (o.k) {
        case MAKE:
          make(o);
          break;
        case ALLOC:
          b.push_back({(char*)h[o.h].allocate(o.n), o.n, o.h, true});
          break;
        case NALLOC:
          b.push_back({(char*)h[o.h].allocate("blk", o.n), o.n, o.h, true});
          break;
        case RMALLOC: {
          Allocator d = rm.getDefaultAllocator();
          int i = -1;
          for (size_t k = 0; k < h.size(); ++k)
            if (h[k].getAllocationStrategy() == d.getAllocationStrategy())
              i = (int)k;
          b.push_back({(char*)d.allocate(o.n), o.n, i, true});
          break;
        }
        case FREE:
          if (!x)
            return;
          x->live = false;
          h[x->h].deallocate(x->p);
          break;
        case RMFREE:
          if (!x || !tracked(x->h))
            return;
          x->live = false;
          rm.deallocate(x->p);
          break;
        case REALLOC:
        case REALLOCA:
        case REALLOCX: {
          // a reallocation that fails is outside the property
          if (!x || !tracked(x->h) || x->h && (kinds[x->h - 1] == LIMIT || kinds[x->h - 1] == SLOT || kinds[x->h - 1] == FIXED || kinds[x->h - 1] == MONO))
            return;
          static camp::resources::Resource ctx{camp::resources::Host::get_default()};
          void* p = o.k == REALLOC ? rm.reallocate(x->p, o.n) : o.k == REALLOCA ? rm.reallocate(x->p, o.n, h[x->h]) : rm.reallocate(x->p, o.n, ctx);
          x->p = (char*)p;
          x->n = o.n;
          break;
        }
        case NULLREALLOC:
          b.push_back({(char*)rm.reallocate(nullptr, o.n, h[o.h]), o.n, o.h, true});
          break;
        case RELEASE:
          h[o.h].release();
          break;
        case COALESCE:
          if (o.h < 1)
            return;
          if (kinds[o.h - 1] == QUICK)
            umpire::util::unwrap_allocator<st::QuickPool>(h[o.h])->coalesce();
          else if (kinds[o.h - 1] == LIST)
            umpire::util::unwrap_allocator<st::DynamicPoolList>(h[o.h])->coalesce();
          break;
        case DEFAULT:
          rm.setDefaultAllocator(h[o.h]);
          break;
        case COPY: {
          B* y = block(!o.b);
          if (!x || !y || !tracked(x->h) || !tracked(y->h))
            return;
          rm.copy(x->p, y->p, std::min({x->n, y->n, (size_t)8}));
          break;
        }
        case SET:
          if (!x || !tracked(x->h) || !x->n)
            return;
          rm.memset(x->p, 7);
          break;
        case MOVE: {
          if (!x || !tracked(x->h) || !tracked(o.h) || !x->n)
            return;
          x->p = (char*)rm.move(x->p, h[o.h]);
          x->h = o.h;
          break;
        }
        case REGISTER:
          umpire::register_external_allocation(ext, umpire::util::AllocationRecord(ext, 32, h[0].getAllocationStrategy()));
          umpire::deregister_external_allocation(ext);
          break;
      }
    } catch (const std::exception&) {
    }
  }
  void run(const std::vector<Op>& prog)
  {
    h.push_back(ResourceManager::getInstance().getAllocator("HOST"));
    for (auto& o : prog)
      step(o);
  }
};

const size_t CAP = 1 << 20;
char* g_out = nullptr;
char g_self[4096];
std::string g_dir;

// What exists at the end.  A line for each allocator that was named by the program.
std::string facts(bool pools, const std::string& want = "")
{
  auto& rm = ResourceManager::getInstance();
  std::vector<std::string> v;
  std::set<std::string> seen;
  for (auto& n : rm.getAllocatorNames())
    seen.insert(n);
  for (auto& n : seen) {
    Allocator a = rm.getAllocator(n);
    auto* s = a.getAllocationStrategy();
    std::string r = "allocator " + n + ": ";
    std::string type = a.getStrategyName();
    bool pool = type == "QuickPool" || type == "DynamicPoolList";
    if (pool && !want.empty() && type != want)
      r += "not a " + want + " but a ";
    r += (pool && !pools ? "pool" : type) + ", parent " + (a.getParent() ? a.getParent()->getName() : std::string("none"));
    r += std::string(a.isTracked() ? ", tracked" : ", untracked");
    r += ", current " + S(a.getCurrentSize()) + ", count " + S(a.getAllocationCount()) + ", most " + S(a.getHighWatermark());
    if (pools) {
      r += ", actual " + S(a.getActualSize());
      if (auto* q = dynamic_cast<st::QuickPool*>(s))
        r += ", blocks " + S(q->getTotalBlocks()) + " releasable " + S(q->getReleasableBlocks());
      if (auto* q = dynamic_cast<st::DynamicPoolList*>(s))
        r += ", blocks " + S(q->getTotalBlocks()) + " releasable " + S(q->getReleasableBlocks());
    }
    v.push_back(r);
  }
  std::string out;
  for (auto& x : v)
    out += x + "\n";
  return out + "default " + rm.getDefaultAllocator().getName() + "\n";
}

void give(const std::string& text)
{
  if (text.size() + 8 < CAP) {
    memcpy(g_out, text.data(), text.size());
    memcpy(g_out + text.size(), "END\n", 5);
  }
}

std::string dir_of()
{
  static pid_t owner = 0;
  if (g_dir.empty() || owner != getpid()) {
    owner = getpid();
    const char* s = getenv("VERIF_SCRATCH");
    g_dir = std::string(s ? s : "/tmp") + "/rp-" + S(owner);
    mkdir(g_dir.c_str(), 0700);
  }
  return g_dir;
}

void clean(const std::string& dir)
{
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n != "." && n != "..")
        unlink((dir + "/" + n).c_str());
    }
    closedir(d);
  }
}

struct Ran {
  std::string end;
  std::string facts;
  std::string log;   // file name
  std::string said;
};

std::string read_file(const std::string& f)
{
  std::string r;
  int fd = open(f.c_str(), O_RDONLY);
  if (fd < 0)
    return r;
  char buf[65536];
  ssize_t n;
  while ((n = read(fd, buf, sizeof buf)) > 0)
    r.append(buf, (size_t)n);
  close(fd);
  return r;
}

template <typename F>
Ran in_child(mc::Ctx& c, const std::string& tag, F f)
{
  if (!g_out) {
    g_out = (char*)mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (g_out == MAP_FAILED)
      c.prune("no memory");
  }
  std::string dir = dir_of();
  Ran r;
  g_out[0] = 0;
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0)
    c.prune("fork failed");
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    alarm(30);
    int fd = open((dir + "/said").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
    dup2(fd, 1);
    dup2(fd, 2);
    if (chdir(dir.c_str()))
      _exit(9);
    setenv("UMPIRE_OUTPUT_DIR", dir.c_str(), 1);
    setenv("UMPIRE_OUTPUT_BASENAME", tag.c_str(), 1);
    int st = 8;
    try {
      st = f();
    } catch (const std::exception& e) {
      std::cerr << "exception: " << e.what() << std::endl;
      st = 77;
    }
    fflush(stdout);
    exit(st);
  }
  int stt = 0;
  while (waitpid(pid, &stt, 0) < 0 && errno == EINTR) {
  }
  if (WIFSIGNALED(stt))
    r.end = "signal " + S(WTERMSIG(stt));
  else if (WEXITSTATUS(stt))
    r.end = "status " + S(WEXITSTATUS(stt));
  r.facts = g_out;
  r.log = dir + "/" + tag + "." + S(pid) + ".0.stats";
  r.said = read_file(dir + "/said");
  return r;
}

// The operations of a log with the addresses replaced by numbers.
std::vector<std::string> operations(mc::Ctx& c, const std::string& file, bool types)
{
  std::vector<umpire::event::event> ev;
  try {
    umpire::event::json_file_store store(file, true);
    ev = store.get_events();
  } catch (const std::exception& e) {
    c.fail("the log cannot be read: " + std::string(e.what()));
  }
  std::vector<std::string> v;
  std::map<std::string, std::string> alloc;
  std::map<std::string, std::string> blk;
  int next = 0;
  auto ref = [&](umpire::event::event& e) { return alloc[e.string_args["allocator_ref"]]; };
  for (auto& e : ev) {
    if (e.cat != umpire::event::category::operation)
      continue;
    auto& n = e.name;
    if (n == "make_memory_resource") {
      alloc[e.string_args["allocator_ref"]] = e.tags["allocator_name"];
      v.push_back("resource " + e.tags["allocator_name"]);
    } else if (n == "make_allocator") {
      alloc[e.string_args["allocator_ref"]] = e.tags["allocator_name"];
      std::string r = "make " + e.tags["allocator_name"] + " on " + e.string_args["arg0"] + " introspection " + S(e.numeric_args["introspection"]);
      if (types) {
        r += " type " + e.string_args["type"];
        for (auto& a : e.numeric_args)
          if (a.first.compare(0, 3, "arg") == 0)
            r += " " + a.first + "=" + S(a.second);
      }
      v.push_back(r);
    } else if (n == "allocate" || n == "named_allocate") {
      blk[e.string_args["pointer"]] = "#" + S(next++);
      std::string r = "allocate " + S(e.numeric_args["size"]) + " from " + ref(e) + " is " + blk[e.string_args["pointer"]];
      v.push_back(r);
    } else if (n == "deallocate")
      v.push_back("deallocate " + blk[e.string_args["pointer"]] + " by " + ref(e));
    else if (n == "reallocate") {
      if (e.string_args.count("new_ptr")) {
        std::string& b = blk[e.string_args["new_ptr"]];
        b = "#" + S(next++);
        v.push_back("reallocated by " + ref(e) + " is " + b);
      } else
        v.push_back("reallocate " + blk[e.string_args["current_ptr"]] + " to " + S(e.numeric_args["size"]) + " by " + ref(e));
    } else if (n == "release")
      v.push_back("release " + ref(e));
    else if (n == "coalesce")
      v.push_back("coalesce " + e.tags["allocator_name"]);
    else if (n == "set_default_allocator")
      v.push_back("default " + ref(e));
  }
  return v;
}

struct How {
  std::string label;
  std::vector<std::string> args;
  bool same_pools; // the pools are the recorded ones
  std::string pool; // every pool is of this type, if not empty
};

int call(int (*f)(int, char**), std::vector<std::string> a)
{
  std::vector<char*> argv;
  for (auto& x : a)
    argv.push_back(&x[0]);
  argv.push_back(nullptr);
  return f((int)a.size(), argv.data());
}

std::string diff(const std::string& a, const std::string& b)
{
  std::istringstream x(a), y(b);
  std::string l, m;
  while (true) {
    bool i = (bool)std::getline(x, l), j = (bool)std::getline(y, m);
    if (!i && !j)
      return "";
    if (!i)
      l = "(nothing)";
    if (!j)
      m = "(nothing)";
    if (l != m)
      return "in the program \"" + l + "\", in the replay \"" + m + "\"";
  }
}

void check(mc::Ctx& c, const std::vector<Op>& prog, const How& how, int times)
{
  std::string dir = dir_of();
  clean(dir);
  for (auto& o : prog)
    c.log(o.text());
  Ran a = in_child(c, "a", [&] {
    Program* p = new Program;
    p->run(prog);
    give(facts(how.same_pools));
    return 0;
  });
  if (!a.end.empty() || a.facts.find("END\n") == std::string::npos)
    c.prune("the program itself did not end normally"); // the business of other properties
  const std::string log = read_file(a.log);
  auto oa = operations(c, a.log, how.same_pools);
  for (int t = 0; t < times; ++t) {
    Ran b = in_child(c, "b", [&] {
      std::vector<std::string> argv{"replay", "-i", a.log};
      for (auto& x : how.args)
        argv.push_back(x);
      int r = call(replay_main, argv);
      if (r == 0)
        give(facts(how.same_pools, how.pool));
      return r;
    });
    c.step();
    const std::string which = how.label + (t ? " (again)" : "") + ": ";
    REQ(b.end.empty(), which + "the replay of a normal program ended with " + b.end + ": " + b.said.substr(0, 400));
    REQ(a.facts == b.facts, which + "the replay ends with other allocators: " + diff(a.facts, b.facts));
    REQ(read_file(a.log) == log, which + "the replay changed the log");
    auto ob = operations(c, b.log, how.same_pools);
    const auto& na = oa;
    for (size_t i = 0; i < std::max(na.size(), ob.size()); ++i) {
      std::string x = i < na.size() ? na[i] : "(nothing)", y = i < ob.size() ? ob[i] : "(nothing)";
      REQ(x == y, which + "operation " + S(i) + " was \"" + x + "\" and is replayed as \"" + y + "\"");
    }
    if (how.args.empty() && t == 0) {
      // the log of the replay describes the same session
      Ran d = in_child(c, "d", [&] { return call(replaydiff_main, {"replaydiff", "-q", a.log, b.log}); });
      REQ(d.end.empty(), "replaydiff finds a difference between a session and its replay (" + d.end + "): " + d.said.substr(0, 400));
      unlink((b.log + ".bin").c_str());
    }
    unlink(b.log.c_str());
  }
  mc::Hash h;
  for (auto& x : oa)
    h.add(std::hash<std::string>()(x));
  c.state(h.h);
  clean(dir);
}

std::vector<mc::Config> make(const mc::Options& o)
{
  const bool T = o.tier == "thorough";
  std::vector<mc::Config> v;
  auto add = [&](const std::string& n, std::function<void(mc::Ctx&)> f, const std::string& b, int split = 2) {
    mc::Config c;
    c.name = n;
    c.body = f;
    c.bounds = b;
    c.split = split;
    c.segment = 100; // the reader leaves its file open
    v.push_back(c);
  };
  const How plain{"replay", {}, true, ""};
  static const std::vector<How> hows = {
      plain,
      {"replay -q", {"-q"}, true, ""},
      {"replay -r", {"-r"}, true, ""},
      {"replay -t -s", {"-t", "-s", "-q"}, true, ""},
      {"replay -d", {"-d"}, true, ""},
      {"replay -p List", {"-p", "List", "-q"}, false, "DynamicPoolList"},
      {"replay -p Quick", {"-p", "Quick", "-q"}, false, "QuickPool"},
      {"replay --use-heuristic Block", {"--use-heuristic", "Block", "--heuristic-parm", "3", "-q"}, false, ""},
      {"replay --use-heuristic FreePercentage_hwm", {"--use-heuristic", "FreePercentage_hwm", "--heuristic-parm", "50", "-q"}, false, ""},
  };
  add("creation", [=](mc::Ctx& c) {
    Kind k = (Kind)c.choose(NKINDS);
    int na = g_least[k] + c.choose((int)g_args[k].size() - g_least[k] + 1);
    bool tracked = c.choose(2) == 0;
    int parent = c.choose(3); // on HOST, on a pool, on a limiter
    const How& how = hows[c.choose((int)hows.size())];
    std::vector<Op> p;
    if (parent == 1)
      p.push_back(mk(LIST, 0, 3));
    else if (parent == 2)
      p.push_back(mk(TSAFE, 0, 0, false));
    p.push_back(mk(k, parent ? 1 : 0, na, tracked));
    int h = parent ? 2 : 1;
    if (k == FIXED)
      for (int i = 0; i < 3; ++i)
        p.push_back(op(ALLOC, h, 48));
    else if (k == MONO || k == SLOT || k == LIMIT)
      for (size_t n : {500, 100, 612, 1000, 8, 8})
        p.push_back(op(ALLOC, h, n));
    else if (k == MIXED)
      for (size_t n : {100, 40, 1500, 9000, 612, 3000})
        p.push_back(op(ALLOC, h, n));
    else
      for (size_t n : {500, 100, 612, 8})
        p.push_back(op(ALLOC, h, n));
    p.push_back(op(FREE, 0, 0, 1));
    p.push_back(op(FREE, 0, 0, 0));
    if (k == QUICK || k == LIST)
      p.push_back(op(COALESCE, h));
    check(c, p, how, c.choose(2) ? 2 : 1);
  }, "9 strategies, each number of arguments, tracked or not, on 3 parents, 9 ways to call the tool, once or twice", 3);
  add("names", [=](mc::Ctx& c) {
    static const std::vector<std::string> names = {"x_base", "_base", "x", "", " ", "a\"b", "a\\b", "HOST_base", "A0", "%s", "\xc3\xa9", "a,b", "arg0", std::string(511, 'n')};
    std::vector<Op> p;
    const std::string& n1 = names[c.choose((int)names.size())];
    const std::string& n2 = names[c.choose((int)names.size())];
    Kind k1 = (Kind)c.choose(2), k2 = (Kind)c.choose(2);
    p = {mk(k1, 0, 3, true, n1.empty() ? "e" : n1), mk(k2, 0, 3, true, n2.empty() ? "f" : n2), op(ALLOC, 1, 700), op(ALLOC, 1, 700), op(ALLOC, 2, 900), op(ALLOC, 2, 900),
         op(FREE), op(FREE), op(COALESCE, 2), op(FREE), op(COALESCE, 1), op(RELEASE, 2), op(DEFAULT, 1)};
    check(c, p, plain, 1);
  }, "all pairs of 14 names for two pools", 2);
  // programs
  struct St {
    std::string label;
    std::vector<Op> setup;
    size_t n1, n2;
  };
  std::vector<St> ss = {
      {"quick", {mk(QUICK, 0, 3)}, 24, 600},
      {"list", {mk(LIST, 0, 2)}, 24, 600},
      {"quick-untracked", {mk(QUICK, 0, 2, false)}, 24, 600},
      {"limit-quick", {mk(QUICK, 0, 3), mk(LIMIT, 1, 1)}, 24, 1100},
      {"tsafe-list", {mk(LIST, 0, 3), mk(TSAFE, 1, 0)}, 24, 600},
      {"mixed", {mk(MIXED, 0, 7)}, 60, 9000},
      {"fixed", {mk(FIXED, 0, 2)}, 48, 48},
      {"slot", {mk(SLOT, 0, 1)}, 24, 100},
      {"mono", {mk(MONO, 0, 1)}, 24, 5000},
      {"named-named", {mk(NAMED, 0, 0), mk(NAMED, 1, 0)}, 24, 100},
      {"two-pools", {mk(QUICK, 0, 3), mk(LIST, 0, 3)}, 24, 600},
  };
  for (auto& s : ss) {
    std::vector<Op> m;
    int nh = (int)s.setup.size();
    for (int h = 0; h <= nh; ++h) {
      m.push_back(op(ALLOC, h, s.n1));
      if (h)
        m.push_back(op(ALLOC, h, s.n2));
    }
    m.push_back(op(NALLOC, nh, s.n1));
    if (nh == 1)
      m.push_back(op(ALLOC, nh, 0));
    m.push_back(op(FREE, 0, 0, 0));
    m.push_back(op(FREE, 0, 0, 1));
    m.push_back(op(RMFREE, 0, 0, 0));
    m.push_back(op(REALLOC, 0, s.n1 + 8, 0));
    m.push_back(op(REALLOCA, 0, s.n2 + 50, 1));
    m.push_back(op(REALLOCX, 0, 8, 0));
    m.push_back(op(NULLREALLOC, nh, s.n1));
    m.push_back(op(RELEASE, nh));
    m.push_back(op(COALESCE, nh));
    m.push_back(op(DEFAULT, nh));
    m.push_back(op(RMALLOC, 0, s.n1));
    m.push_back(op(COPY));
    m.push_back(op(SET));
    m.push_back(op(MOVE, 0));
    m.push_back(op(MOVE, nh));
    m.push_back(op(REGISTER));
    m.push_back(mk(LIMIT, nh, 1));
    int d = T ? 4 : s.label == "quick" || s.label == "list" ? 3 : 2;
    std::vector<Op> pre = s.setup;
    pre.push_back(op(ALLOC, nh, s.n1));
    add("programs-" + s.label + "/d" + S(d), [=](mc::Ctx& c) {
      std::vector<Op> p = pre;
      for (int i = 0; i < d; ++i)
        p.push_back(m[c.choose((int)m.size())]);
      check(c, p, plain, 1);
    }, "all programs of " + S(d) + " out of " + S(m.size()) + " operations", 2);
  }
  // sessions that differ are told apart
  add("diff", [=](mc::Ctx& c) {
    std::vector<std::vector<Op>> ps;
    auto base = [](size_t n, Kind k, int args, K last) { return std::vector<Op>{mk(k, 0, args), op(ALLOC, 1, n), op(ALLOC, 0, 16), op(last, 1, 0, 0)}; };
    ps.push_back(base(24, QUICK, 3, FREE));
    ps.push_back(base(32, QUICK, 3, FREE));
    ps.push_back(base(24, LIST, 3, FREE));
    ps.push_back(base(24, QUICK, 2, FREE));
    ps.push_back(base(24, QUICK, 3, RELEASE));
    ps.push_back(base(24, QUICK, 3, COALESCE));
    ps.push_back(base(24, QUICK, 3, DEFAULT));
    auto q = base(24, QUICK, 3, FREE);
    q[3].b = 1;
    ps.push_back(q);
    q = base(24, QUICK, 3, FREE);
    q[0].tracked = false;
    ps.push_back(q);
    q = base(24, QUICK, 3, FREE);
    q[0].name = "other";
    ps.push_back(q);
    q = base(24, QUICK, 3, FREE);
    std::swap(q[1], q[2]);
    ps.push_back(q);
    // shorter and longer ones
    q = base(24, QUICK, 3, FREE);
    q.pop_back();
    ps.push_back(q);
    q.pop_back();
    ps.push_back(q);
    q = base(24, QUICK, 3, FREE);
    q.push_back(op(ALLOC, 0, 16));
    ps.push_back(q);
    q.back() = op(ALLOC, 1, 16);
    ps.push_back(q);
    q.back() = op(REALLOC, 0, 48, 0);
    ps.push_back(q);
    q.back() = op(REALLOC, 0, 56, 0);
    ps.push_back(q);
    q.back() = mk(LIST, 0, 3);
    ps.push_back(q);
    int i = c.choose((int)ps.size()), j = c.choose((int)ps.size());
    std::string dir = dir_of();
    clean(dir);
    auto rec = [&](int k) {
      return in_child(c, "p" + S(k), [&] {
        Program* p = new Program;
        p->run(ps[k]);
        give("");
        return 0;
      });
    };
    Ran a = rec(i), b = rec(j);
    if (!a.end.empty() || !b.end.empty())
      c.prune("the program itself did not end normally");
    Ran d = in_child(c, "d", [&] { return call(replaydiff_main, {"replaydiff", "-q", a.log, b.log}); });
    c.log("sessions " + S(i) + " and " + S(j));
    c.step();
    REQ((i == j) == d.end.empty(), "replaydiff says that sessions " + S(i) + " and " + S(j) + (i == j ? " differ: " + d.said.substr(0, 300) : " are the same"));
    REQ(d.end.empty() || d.end.compare(0, 6, "status") == 0, "replaydiff ended with " + d.end);
    c.state(mc::Hash().add(i).add(j).h);
    clean(dir);
  }, "all pairs of 18 sessions that differ in one thing or are prefixes of each other", 1);
  return v;
}
} // namespace

int main(int argc, char** argv)
{
  ssize_t n = readlink("/proc/self/exe", g_self, sizeof g_self - 1);
  if (n < 0)
    return 2;
  g_self[n] = 0;
  // the library looks at the environment before main
  if (!getenv("UMPIRE_EVENTS")) {
    setenv("UMPIRE_EVENTS", "On", 1);
    execv(g_self, argv);
    return 2;
  }
  umpire::error().rdbuf(nullptr);
  return mc::mc_main(argc, argv, make);
}
