// Bounded exhaustive explorer.
//
// A "body" is a deterministic function of the choices it draws with
// Ctx::choose(n).  The explorer runs the body once for every possible choice
// sequence (depth-first, lexicographic), i.e. for every bounded history, on
// the real code.  Nothing is sampled.
//
// The tree is sharded over worker processes by the first `split` choices; each
// worker runs its histories in short-lived segment processes so that a crash
// or a hang of the code under test costs one segment and is reported with the
// exact choice sequence that produced it.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#ifdef MC_NO_BACKTRACE
// linked with --wrap=backtrace: the backtraces in error messages are slow to
// obtain and of no interest here
extern "C" int __wrap_backtrace(void**, int)
{
  return 0;
}
#endif

namespace mc {

struct Violation {
  std::string msg;
};
struct Diverged {};
struct Prune {
};

static constexpr int MAX_CHOICES = 512;
static constexpr int MAX_SHARDS = 64;
static constexpr std::size_t STATE_BITS = 22;

struct Shard {
  // progress of the running segment, updated before each choice
  volatile uint64_t beat;
  volatile int n;
  volatile int32_t choice[MAX_CHOICES];
  volatile int32_t arity[MAX_CHOICES];
  int start_n;
  int32_t start[MAX_CHOICES];
  int32_t start_arity[MAX_CHOICES];
  // counters
  volatile uint64_t histories;
  volatile uint64_t transitions;
  volatile uint64_t checks;
  volatile uint64_t deviations;
  volatile uint64_t known;
  volatile uint64_t pruned;
  volatile uint64_t diverged;
  volatile uint64_t distinct;
  char msg[4000];
};

struct Shared {
  volatile uint64_t state_overflow;
  volatile uint64_t violations;
  volatile int stop;
  volatile uint64_t table[1u << STATE_BITS];
  Shard shard[MAX_SHARDS];
};

inline Shared*& shared()
{
  static Shared* s = nullptr;
  return s;
}

class Ctx {
 public:
  std::vector<int> prefix;
  std::vector<int> taken;
  std::vector<int> arity;
  int split{0};
  bool own_all{true};
  int shard_index{0};
  int shard_count{1};
  uint64_t* prefix_counter{nullptr};
  bool verbose{false};
  std::vector<std::string> trace;
  Shard* sh{nullptr};
  std::set<std::string>* known_keys{nullptr};
  std::set<std::string> known_hit;
  int tier{0};
  bool diverged{false};
  bool fresh{false}; // the process must not be reused for another history

  int choose(int n)
  {
    if (n <= 0) {
      fprintf(stderr, "mc: choose(%d)\n", n);
      abort();
    }
    const std::size_t i = taken.size();
    if (i >= MAX_CHOICES) {
      fprintf(stderr, "mc: too many choices\n");
      abort();
    }
    int c = i < prefix.size() ? prefix[i] : 0;
    if (c >= n) {
      // The code under test behaves differently from the history before, for
      // example because of state that outlives a history.  What is left of this
      // subtree is skipped and counted.
      diverged = true;
      throw Diverged{};
    }
    taken.push_back(c);
    arity.push_back(n);
    if (sh) {
      sh->choice[i] = c;
      sh->arity[i] = n;
      sh->n = (int)i + 1;
    }
    return c;
  }

  // What has been executed so far was executed, with the same choices, by the
  // previous history, which has judged it.
  bool replayed() const
  {
    return !verbose && taken.size() < prefix.size();
  }

  void log(const std::string& s)
  {
    if (!verbose)
      return;
    trace.push_back(s);
    if (trace_fd >= 0) {
      // written at once, so that a crash still leaves it
      std::string t = s + "\n";
      if (write(trace_fd, t.data(), t.size()) < 0) {
      }
    }
  }
  int trace_fd{-1};
  void step()
  {
    if (sh)
      sh->transitions++;
  }
  void check()
  {
    if (sh)
      sh->checks++;
  }
  void deviation()
  {
    if (sh)
      sh->deviations++;
  }
  // A violation identified by `key`; if the key is listed as a known finding,
  // the history ends quietly, otherwise it is a violation.
  [[noreturn]] void fail_keyed(const std::string& key, const std::string& msg)
  {
    if (known_keys && known_keys->count(key)) {
      if (sh)
        sh->known++;
      known_hit.insert(key);
      throw Prune{};
    }
    throw Violation{msg};
  }
  // The history cannot be judged any further (another property failed on it).
  [[noreturn]] void prune(const std::string& why)
  {
    if (sh) {
      sh->pruned++;
      if (getenv("MC_SHOW_PRUNED"))
        fprintf(stderr, "pruned: %s\n", why.c_str());
    }
    log("PRUNED: " + why);
    fresh = true;
    throw Prune{};
  }
  [[noreturn]] void fail(const std::string& msg)
  {
    throw Violation{msg};
  }
  void require(bool ok, const char* msg)
  {
    if (sh)
      sh->checks++;
    if (!ok)
      throw Violation{msg};
  }
  template <typename F>
  void require_f(bool ok, F&& f)
  {
    if (sh)
      sh->checks++;
    if (!ok)
      throw Violation{f()};
  }
  void state(uint64_t h)
  {
    Shared* s = shared();
    if (!s || !sh)
      return;
    if (h == 0)
      h = 1;
    h ^= h >> 33;
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    if (h == 0)
      h = 1;
    uint64_t mask = (1u << STATE_BITS) - 1;
    uint64_t p = h & mask;
    for (int k = 0; k < 64; ++k, p = (p + 1) & mask) {
      uint64_t v = s->table[p];
      if (v == h)
        return;
      if (v == 0) {
        uint64_t zero = 0;
        if (__atomic_compare_exchange_n(const_cast<uint64_t*>(&s->table[p]), &zero, h, false, __ATOMIC_RELAXED,
                                        __ATOMIC_RELAXED)) {
          sh->distinct++;
          return;
        }
        if (zero == h)
          return;
      }
    }
    __atomic_fetch_add(const_cast<uint64_t*>(&s->state_overflow), 1, __ATOMIC_RELAXED);
  }
};

struct Hash {
  uint64_t h{1469598103934665603ULL};
  Hash& add(uint64_t v)
  {
    for (int i = 0; i < 8; ++i) {
      h ^= (v >> (8 * i)) & 0xff;
      h *= 1099511628211ULL;
    }
    return *this;
  }
  Hash& add(const std::string& s)
  {
    for (char c : s) {
      h ^= (unsigned char)c;
      h *= 1099511628211ULL;
    }
    return add(s.size());
  }
};

struct Config {
  std::string name;
  std::function<void(Ctx&)> body;
  std::string bounds; // human readable
  int split{3};
  uint64_t segment{4000};
  double hang_s{20};
};

struct Options {
  std::string property;
  std::string tier{"quick"};
  std::string out;        // stats json
  std::string replay_dir; // where replay files go
  std::string replay;     // replay this file
  std::string only;       // run only configs whose name contains this
  std::set<std::string> known;
  int jobs{8};
  double budget_s{0}; // 0: none. Exceeding it ends the run early (recorded as not exhausted)
  bool list{false};
};

inline double now()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

inline std::string json_escape(const std::string& s)
{
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o;
}

// advance to the next choice sequence; false when exhausted
inline bool advance(std::vector<int>& choice, const std::vector<int>& arity)
{
  choice.resize(arity.size());
  while (!choice.empty()) {
    std::size_t i = choice.size() - 1;
    if (choice[i] + 1 < arity[i]) {
      ++choice[i];
      return true;
    }
    choice.pop_back();
  }
  return false;
}

enum ExitCode { EX_DONE = 0, EX_VIOLATION = 1, EX_CONTINUE = 2, EX_STOP = 3 };

// Shard ownership: histories are grouped by their first `split` choices.
inline bool owned(const std::vector<int>& taken, int split, int index, int count)
{
  if (count == 1)
    return true;
  uint64_t h = 1469598103934665603ULL;
  for (int i = 0; i < split && i < (int)taken.size(); ++i) {
    h ^= (uint64_t)taken[i] + 1;
    h *= 1099511628211ULL;
    h ^= h >> 29;
  }
  h ^= h >> 32;
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  return (int)(h % (uint64_t)count) == index;
}

class OwnedCtx : public Ctx {
};

// Runs one history. Returns true if it was executed to the end (not pruned).
inline bool run_one(const Config& cfg, Ctx& c)
{
  try {
    cfg.body(c);
    return true;
  } catch (Prune&) {
    return false;
  }
}

inline int segment_main(const Config& cfg, const Options& opt, int slot, int index, int count, std::vector<int> start,
                        uint64_t limit)
{
  Shard* sh = &shared()->shard[slot];
  std::vector<int> choice = start;
  uint64_t done = 0;
  std::set<std::string> known_hit;
  for (;;) {
    if (shared()->stop)
      return EX_STOP;
    bool fresh = false;
    Ctx c;
    c.prefix = choice;
    c.sh = sh;
    c.tier = opt.tier == "thorough" ? 1 : 0;
    c.known_keys = const_cast<std::set<std::string>*>(&opt.known);
    // Ownership is decided on the prefix; skip foreign prefixes cheaply when
    // the prefix already has `split` choices, otherwise run and see.
    sh->n = 0;
    sh->beat++;
    bool mine = true;
    if ((int)choice.size() >= cfg.split)
      mine = owned(choice, cfg.split, index, count);
    if (mine) {
      try {
        run_one(cfg, c);
      } catch (Diverged&) {
        sh->diverged++;
        c.fresh = true;
      } catch (Violation& v) {
        if (!owned(c.taken, cfg.split, index, count)) {
          // still a violation; report it, whoever owns it
        }
        snprintf(sh->msg, sizeof sh->msg, "%s", v.msg.c_str());
        return EX_VIOLATION;
      }
      if (owned(c.taken, cfg.split, index, count)) {
        sh->histories++;
        ++done;
      }
      for (auto& k : c.known_hit)
        known_hit.insert(k);
      std::vector<int> next = c.taken;
      if (!owned(c.taken, cfg.split, index, count) && (int)c.taken.size() > cfg.split) {
        // skip the rest of this foreign subtree
        std::vector<int> a(c.arity.begin(), c.arity.begin() + cfg.split);
        next.resize(cfg.split);
        if (!advance(next, a))
          break;
      } else if (!advance(next, c.arity)) {
        break;
      }
      choice = next;
      fresh = c.fresh;
    } else {
      // A foreign prefix of exactly `split` choices whose arities we know from
      // the run that produced it.
      std::vector<int> a(sh->arity, sh->arity + cfg.split);
      choice.resize(cfg.split);
      if (!advance(choice, a))
        break;
    }
    if (done >= limit || fresh) {
      sh->n = (int)choice.size();
      for (std::size_t i = 0; i < choice.size(); ++i)
        sh->choice[i] = choice[i];
      return EX_CONTINUE;
    }
  }
  return EX_DONE;
}

struct Found {
  std::string config;
  std::vector<int> start, at;
  std::string msg;
  bool crashed{false};
};

inline pid_t fork_child()
{
  fflush(stdout);
  fflush(stderr);
  pid_t ppid = getpid();
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != ppid)
      _exit(99);
  }
  return p;
}

// Run exactly the histories from `start` up to and including `at` (or only
// `at` when alone) in a fresh process. Returns true if it fails again.
inline bool reproduce(const Config& cfg, const Options& opt, const std::vector<int>& at, double limit_s,
                      std::string& msg, std::string* trace_file = nullptr)
{
  char tmpl[] = "/tmp/mcreplayXXXXXX";
  int fd = mkstemp(tmpl);
  pid_t p = fork_child();
  if (p == 0) {
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    dup2(nul, 2);
    Ctx c;
    c.prefix = at;
    c.verbose = true;
    c.tier = opt.tier == "thorough" ? 1 : 0;
    c.known_keys = const_cast<std::set<std::string>*>(&opt.known);
    int rc = 0;
    c.trace_fd = fd;
    try {
      run_one(cfg, c);
    } catch (Diverged&) {
    } catch (Violation& v) {
      c.log("FAILED: " + v.msg);
      rc = 1;
    }
    _exit(rc);
  }
  double t0 = now();
  int st = 0;
  bool hung = false;
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p)
      break;
    if (now() - t0 > limit_s) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      hung = true;
      break;
    }
    usleep(2000);
  }
  std::string text;
  {
    char b[4096];
    lseek(fd, 0, SEEK_SET);
    ssize_t k;
    while ((k = read(fd, b, sizeof b)) > 0)
      text.append(b, k);
  }
  close(fd);
  unlink(tmpl);
  if (trace_file)
    *trace_file = text;
  if (hung) {
    msg = "does not terminate";
    return true;
  }
  if (WIFSIGNALED(st)) {
    msg = std::string("crashed with signal ") + std::to_string(WTERMSIG(st));
    return true;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1) {
    std::size_t q = text.rfind("FAILED: ");
    msg = q == std::string::npos ? "failed" : text.substr(q + 8);
    while (!msg.empty() && msg.back() == '\n')
      msg.pop_back();
    return true;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) != 0) {
    msg = "exited with status " + std::to_string(WEXITSTATUS(st));
    return true;
  }
  return false;
}

inline bool reproduce_range(const Config& cfg, const Options& opt, int slot, int index, int count, const Found& f,
                            double limit_s, std::string& msg)
{
  // deterministic re-execution of the whole segment
  pid_t p = fork_child();
  if (p == 0) {
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    dup2(nul, 2);
    memcpy((void*)shared()->shard[slot].arity, (const void*)shared()->shard[slot].start_arity,
           sizeof shared()->shard[slot].arity);
    int rc = segment_main(cfg, opt, slot, index, count, f.start, cfg.segment);
    _exit(rc);
  }
  double t0 = now();
  int st = 0;
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p)
      break;
    if (now() - t0 > limit_s) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      msg = "does not terminate (in segment)";
      return true;
    }
    usleep(2000);
  }
  if (WIFSIGNALED(st)) {
    msg = std::string("crashed with signal ") + std::to_string(WTERMSIG(st)) + " (in segment)";
    return true;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == EX_VIOLATION) {
    msg = std::string(shared()->shard[slot].msg) + " (in segment)";
    return true;
  }
  return false;
}

struct ConfigStats {
  std::string name, bounds;
  uint64_t histories{0}, transitions{0}, checks{0}, deviations{0}, distinct{0}, pruned{0}, diverged{0};
  double wall{0};
  bool exhausted{true};
  std::vector<std::string> sample;
};

// Worker: owns shard `index` of config; runs it to the end.
// Exit: 0 done, 1 violation written to file.
inline int worker_main(const Config& cfg, const Options& opt, int slot, int index, int count, const std::string& vfile,
                       double deadline)
{
  Shard* sh = &shared()->shard[slot];
  std::vector<int> start;
  for (;;) {
    if (deadline > 0 && now() > deadline)
      return 4;
    for (std::size_t i = 0; i < start.size(); ++i)
      sh->start[i] = start[i];
    sh->start_n = (int)start.size();
    memcpy((void*)sh->start_arity, (const void*)sh->arity, sizeof sh->start_arity);
    pid_t p = fork_child();
    if (p == 0) {
      int rc = segment_main(cfg, opt, slot, index, count, start, cfg.segment);
      _exit(rc);
    }
    uint64_t last = sh->beat;
    double tl = now();
    int st = 0;
    bool hung = false;
    for (;;) {
      pid_t r = waitpid(p, &st, WNOHANG);
      if (r == p)
        break;
      if (sh->beat != last) {
        last = sh->beat;
        tl = now();
      } else if (now() - tl > cfg.hang_s) {
        kill(p, SIGKILL);
        waitpid(p, &st, 0);
        hung = true;
        break;
      }
      usleep(1000);
    }
    if (!hung && WIFEXITED(st)) {
      int rc = WEXITSTATUS(st);
      if (rc == EX_DONE)
        return 0;
      if (rc == EX_STOP)
        return 0;
      if (rc == EX_CONTINUE) {
        start.assign(sh->choice, sh->choice + sh->n);
        continue;
      }
    }
    // violation, crash, hang, or odd exit status
    Found f;
    f.config = cfg.name;
    f.start = start;
    f.at.assign(sh->choice, sh->choice + sh->n);
    std::vector<int> ar(sh->arity, sh->arity + sh->n);
    if (hung)
      f.msg = "history does not terminate within " + std::to_string((int)cfg.hang_s) + " s";
    else if (WIFSIGNALED(st))
      f.msg = "crashed with signal " + std::to_string(WTERMSIG(st));
    else if (WIFEXITED(st) && WEXITSTATUS(st) == EX_VIOLATION)
      f.msg = sh->msg;
    else
      f.msg = "process exited with status " + std::to_string(WEXITSTATUS(st));
    std::string m, trace;
    bool confirmed = reproduce(cfg, opt, f.at, std::max(60.0, 3 * cfg.hang_s), m, &trace);
    bool in_segment = false;
    if (!confirmed) {
      Found g = f;
      std::string save = f.msg;
      confirmed = reproduce_range(cfg, opt, slot, index, count, g, 300, m);
      in_segment = confirmed;
      f.msg = save;
    } else {
      f.msg = m;
    }
    if (!confirmed) {
      // Could not be reproduced: not believed. Skip this history.
      FILE* n = fopen((vfile + ".unconfirmed").c_str(), "a");
      if (n) {
        fprintf(n, "%s: %s\n", cfg.name.c_str(), f.msg.c_str());
        fclose(n);
      }
      std::vector<int> next = f.at;
      if (!advance(next, ar))
        return 0;
      start = next;
      continue;
    }
    if (!__atomic_exchange_n(const_cast<int*>(&shared()->stop), 1, __ATOMIC_SEQ_CST)) {
      FILE* o = fopen(vfile.c_str(), "w");
      if (o) {
        fprintf(o, "property: %s\nconfig: %s\ntier: %s\nmode: %s\nchoices:", opt.property.c_str(), cfg.name.c_str(),
                opt.tier.c_str(), in_segment ? "segment" : "single");
        for (int x : f.at)
          fprintf(o, " %d", x);
        fprintf(o, "\nsegment_start:");
        for (int x : f.start)
          fprintf(o, " %d", x);
        fprintf(o, "\nshard: %d %d\nmessage: %s\ntrace:\n%s", index, count, f.msg.c_str(), trace.c_str());
        fclose(o);
      }
    }
    return 1;
  }
}

inline int run_all(const std::vector<Config>& configs, const Options& opt)
{
  std::vector<ConfigStats> all;
  double t0 = now();
  std::string vfile = opt.replay_dir + "/" + opt.property + ".replay.txt";
  unlink(vfile.c_str());
  unlink((vfile + ".unconfirmed").c_str());
  bool violated = false;
  const int count = std::min(opt.jobs, 8);
  const int groups = MAX_SHARDS / count;
  const double deadline = opt.budget_s > 0 ? t0 + opt.budget_s : 0;
  struct Running {
    const Config* cfg;
    ConfigStats cs;
    double t0;
    int group, next, left;
  };
  std::vector<Running*> open;
  std::vector<std::pair<pid_t, Running*>> procs;
  std::vector<bool> used(groups, false);
  std::size_t at = 0;
  for (;;) {
    // start the next shard of an open configuration, or open another one
    while ((int)procs.size() < opt.jobs && !violated) {
      Running* r = nullptr;
      for (Running* x : open)
        if (x->next < count) {
          r = x;
          break;
        }
      if (!r) {
        while (at < configs.size() && !opt.only.empty() && configs[at].name.find(opt.only) == std::string::npos)
          ++at;
        int g = 0;
        while (g < groups && used[g])
          ++g;
        if (at == configs.size() || g == groups)
          break;
        r = new Running{&configs[at++], {}, now(), g, 0, count};
        used[g] = true;
        r->cs.name = r->cfg->name;
        r->cs.bounds = r->cfg->bounds;
        for (int i = 0; i < count; ++i)
          memset((void*)&shared()->shard[g * count + i], 0, sizeof(Shard));
        open.push_back(r);
      }
      int i = r->next++;
      pid_t p = fork_child();
      if (p == 0)
        _exit(worker_main(*r->cfg, opt, r->group * count + i, i, count, vfile, deadline));
      procs.emplace_back(p, r);
    }
    if (procs.empty())
      break;
    int st = 0;
    pid_t p = waitpid(-1, &st, 0);
    auto it = std::find_if(procs.begin(), procs.end(), [&](const std::pair<pid_t, Running*>& x) { return x.first == p; });
    if (it == procs.end())
      continue;
    Running* r = it->second;
    procs.erase(it);
    if (!WIFEXITED(st)) {
      fprintf(stderr, "mc: worker died\n");
      exit(3);
    }
    if (WEXITSTATUS(st) == 1)
      violated = true;
    if (WEXITSTATUS(st) == 4)
      r->cs.exhausted = false;
    --r->left;
    // finished, or stopped with no shard of it running any more
    bool running = false;
    for (auto& x : procs)
      running |= x.second == r;
    if (running || (r->next < count && !violated))
      continue;
    ConfigStats& cs = r->cs;
    const Config& cfg = *r->cfg;
    Shard* base = &shared()->shard[r->group * count];
    for (int i = 0; i < count; ++i) {
      Shard& s = base[i];
      cs.histories += s.histories;
      cs.transitions += s.transitions;
      cs.checks += s.checks;
      cs.deviations += s.deviations;
      cs.pruned += s.pruned;
      cs.diverged += s.diverged;
      cs.distinct += s.distinct;
    }
    cs.wall = now() - r->t0;
    if (violated)
      cs.exhausted = false;
    // samples: the first and a late history, re-run verbosely
    if (!violated) {
      std::string m, tr;
      reproduce(cfg, opt, {}, 60, m, &tr);
      cs.sample.push_back(tr);
      if (base[count - 1].n > 0) {
        std::vector<int> last(base[count - 1].choice, base[count - 1].choice + base[count - 1].n);
        tr.clear();
        reproduce(cfg, opt, last, 60, m, &tr);
        cs.sample.push_back(tr);
      }
    }
    fprintf(stderr, "  %-40s histories=%llu transitions=%llu checks=%llu states=%llu pruned=%llu%s %.1fs%s\n", cfg.name.c_str(),
            (unsigned long long)cs.histories, (unsigned long long)cs.transitions, (unsigned long long)cs.checks,
            (unsigned long long)cs.distinct, (unsigned long long)cs.pruned,
            cs.diverged ? (" diverged=" + std::to_string(cs.diverged)).c_str() : "", cs.wall, cs.exhausted ? "" : " (not exhausted)");
    all.push_back(cs);
    used[r->group] = false;
    open.erase(std::find(open.begin(), open.end(), r));
    delete r;
  }
  if (!opt.out.empty()) {
    FILE* o = fopen(opt.out.c_str(), "w");
    if (!o) {
      perror("mc: out");
      exit(3);
    }
    fprintf(o, "{\"configs\":[");
    for (std::size_t i = 0; i < all.size(); ++i) {
      auto& c = all[i];
      fprintf(o,
              "%s{\"name\":\"%s\",\"bounds\":\"%s\",\"histories\":%llu,\"transitions\":%llu,\"checks\":%llu,"
              "\"deviations\":%llu,\"diverged\":%llu,\"pruned\":%llu,\"states\":%llu,\"exhausted\":%s,\"wall_s\":%.2f,\"samples\":[",
              i ? ",\n" : "", json_escape(c.name).c_str(), json_escape(c.bounds).c_str(),
              (unsigned long long)c.histories, (unsigned long long)c.transitions, (unsigned long long)c.checks,
              (unsigned long long)c.deviations, (unsigned long long)c.diverged, (unsigned long long)c.pruned, (unsigned long long)c.distinct, c.exhausted ? "true" : "false", c.wall);
      for (std::size_t j = 0; j < c.sample.size(); ++j)
        fprintf(o, "%s\"%s\"", j ? "," : "", json_escape(c.sample[j].substr(0, 1500)).c_str());
      fprintf(o, "]}");
    }
    fprintf(o, "],\n\"violated\":%s,\"wall_s\":%.2f}\n", violated ? "true" : "false", now() - t0);
    fclose(o);
  }
  if (violated) {
    printf("violation: see %s\n", vfile.c_str());
    return 1;
  }
  return 0;
}

inline int replay_file(const std::vector<Config>& configs, Options opt)
{
  FILE* f = fopen(opt.replay.c_str(), "r");
  if (!f) {
    perror("replay");
    return 3;
  }
  char line[65536];
  std::string config, mode = "single";
  std::vector<int> at, start;
  int idx = 0, cnt = 1;
  auto ints = [](const char* s) {
    std::vector<int> v;
    std::istringstream is(s);
    int x;
    while (is >> x)
      v.push_back(x);
    return v;
  };
  while (fgets(line, sizeof line, f)) {
    std::string s = line;
    while (!s.empty() && s.back() == '\n')
      s.pop_back();
    if (s.rfind("config: ", 0) == 0)
      config = s.substr(8);
    if (s.rfind("tier: ", 0) == 0)
      opt.tier = s.substr(6);
    if (s.rfind("mode: ", 0) == 0)
      mode = s.substr(6);
    if (s.rfind("choices:", 0) == 0)
      at = ints(s.c_str() + 8);
    if (s.rfind("segment_start:", 0) == 0)
      start = ints(s.c_str() + 14);
    if (s.rfind("shard:", 0) == 0)
      sscanf(s.c_str(), "shard: %d %d", &idx, &cnt);
    if (s == "trace:")
      break;
  }
  fclose(f);
  for (auto& c : configs)
    if (c.name == config) {
      std::string m, tr;
      bool again;
      if (mode == "segment") {
        Found fd;
        fd.start = start;
        fd.at = at;
        again = reproduce_range(c, opt, idx, idx, cnt, fd, 300, m);
      } else {
        again = reproduce(c, opt, at, 120, m, &tr);
      }
      printf("%s", tr.c_str());
      printf("%s: %s\n", again ? "REPRODUCED" : "NOT REPRODUCED", m.c_str());
      return again ? 1 : 0;
    }
  fprintf(stderr, "no such config: %s\n", config.c_str());
  return 3;
}

inline int mc_main(int argc, char** argv, std::function<std::vector<Config>(const Options&)> make)
{
  Options opt;
  opt.replay_dir = "/tmp";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&](const char* k) -> const char* {
      std::size_t n = strlen(k);
      return a.compare(0, n, k) == 0 ? argv[i] + n : nullptr;
    };
    if (const char* v = val("--property="))
      opt.property = v;
    else if (const char* v = val("--tier="))
      opt.tier = v;
    else if (const char* v = val("--out="))
      opt.out = v;
    else if (const char* v = val("--replay-dir="))
      opt.replay_dir = v;
    else if (const char* v = val("--replay="))
      opt.replay = v;
    else if (const char* v = val("--only="))
      opt.only = v;
    else if (const char* v = val("--jobs="))
      opt.jobs = atoi(v);
    else if (const char* v = val("--budget="))
      opt.budget_s = atof(v);
    else if (const char* v = val("--known="))
      opt.known.insert(v);
    else if (a == "--list")
      opt.list = true;
    else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 3;
    }
  }
  void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) {
    perror("mmap");
    return 3;
  }
  shared() = static_cast<Shared*>(m);
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  auto configs = make(opt);
  if (opt.list) {
    for (auto& c : configs)
      printf("%s: %s\n", c.name.c_str(), c.bounds.c_str());
    return 0;
  }
  if (!opt.replay.empty())
    return replay_file(configs, opt);
  return run_all(configs, opt);
}

} // namespace mc
#endif
