ID="b35-replay-untracked-alignment"; PROPERTY="P30"
NEEDS="A recorded session with an untracked quick pool that was made with an explicit alignment."
BREAKS="The replay makes the pool with the default alignment, so its sizes differ from the recorded session."
EDITS=[("tools/replay/ReplayOperationManager.cpp","""          rm.makeAllocator<umpire::strategy::QuickPool, false>
            (   alloc->name
              , rm.getAllocator(alloc->base_name)
              , alloc->argv.pool.initial_alloc_size
              , alloc->argv.pool.min_alloc_size
              , alloc->argv.pool.alignment
            )
""","""          rm.makeAllocator<umpire::strategy::QuickPool, false>
            (   alloc->name
              , rm.getAllocator(alloc->base_name)
              , alloc->argv.pool.initial_alloc_size
              , alloc->argv.pool.min_alloc_size
            )
""")]
FLAGS='-I/repo/tools/replay'
DEMO=r'''
#include "ReplayInterpreter.hpp"
#include "ReplayOptions.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include "/repo/tools/replay/ReplayFile.cpp"
#include "/repo/tools/replay/ReplayInterpreter.cpp"
#include "/repo/tools/replay/ReplayOperationManager.cpp"
static std::size_t actual() { return umpire::ResourceManager::getInstance().getAllocator("pool").getActualSize(); }
int main(int argc, char** argv) {
  if (!getenv("UMPIRE_EVENTS")) { setenv("UMPIRE_EVENTS", "On", 1); execv("/proc/self/exe", argv); return 2; }
  char dir[] = "/tmp/b35XXXXXX";
  if (!mkdtemp(dir)) return 2;
  setenv("UMPIRE_OUTPUT_DIR", dir, 1);
  setenv("UMPIRE_OUTPUT_BASENAME", "r", 1);
  int fd[2]; if (pipe(fd)) return 2;
  pid_t p = fork();
  if (p == 0) {
    auto& rm = umpire::ResourceManager::getInstance();
    auto a = rm.makeAllocator<umpire::strategy::QuickPool, false>("pool", rm.getAllocator("HOST"), 512, 256, 64);
    a.allocate(500); a.allocate(612);
    std::size_t n = actual(); if (write(fd[1], &n, sizeof n) < 0) _exit(3);
    exit(0);
  }
  int st; waitpid(p, &st, 0);
  std::size_t want = 0, got = 1; if (read(fd[0], &want, sizeof want) < 0) return 2;
  std::string log = std::string(dir) + "/r." + std::to_string(p) + ".0.stats";
  pid_t q = fork();
  if (q == 0) {
    ReplayOptions o; o.input_file = log; o.quiet = true;
    ReplayInterpreter r(o); r.buildOperations(); r.runOperations();
    std::size_t n = actual(); if (write(fd[1], &n, sizeof n) < 0) _exit(3);
    exit(0);
  }
  waitpid(q, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) { puts("replay failed"); got = 0; }
  else if (read(fd[0], &got, sizeof got) < 0) return 2;
  unlink((log + ".bin").c_str()); unlink(log.c_str());
  unlink((std::string(dir) + "/r." + std::to_string(q) + ".0.stats").c_str());
  rmdir(dir);
  printf("%zu %zu\n", want, got);
  return want != got;
}
'''
