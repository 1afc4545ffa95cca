ID="b28-coalesce-event-in-worker"; PROPERTY="P23"
NEEDS="A pool whose heuristic asks for coalescing when a block is freed, with events recorded."
BREAKS="The coalesce event is recorded by the function that does the work: coalescing that the pool starts itself is logged as if the user had asked for it, and requests that do nothing are not logged."
EDITS=[("src/umpire/strategy/QuickPool.cpp","""  umpire::event::record([&](auto& event) {
    event.name("coalesce").category(event::category::operation).tag("allocator_name", getName()).tag("replay", "true");
  });

  std::size_t suggested_size{m_should_coalesce(*this)};
  if (0 != suggested_size) {
    UMPIRE_LOG(Debug, "coalesce heuristic true, performing coalesce, suggested size is " << suggested_size);
    do_coalesce(suggested_size);
  }
}
""","""  std::size_t suggested_size{m_should_coalesce(*this)};
  if (0 != suggested_size) {
    UMPIRE_LOG(Debug, "coalesce heuristic true, performing coalesce, suggested size is " << suggested_size);
    do_coalesce(suggested_size);
  }
}
"""),("src/umpire/strategy/QuickPool.cpp","""  if (m_releasable_blocks > 1) {
    UMPIRE_LOG(Debug, "()");
    release();
    std::size_t size_post""","""  if (m_releasable_blocks > 1) {
    UMPIRE_LOG(Debug, "()");
    umpire::event::record([&](auto& event) {
      event.name("coalesce").category(event::category::operation).tag("allocator_name", getName()).tag("replay", "true");
    });
    release();
    std::size_t size_post""")]
FLAGS=""
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <string>
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>
int main(int argc, char** argv) {
  if (argc == 1) {
    setenv("UMPIRE_EVENTS", "On", 1);
    pid_t pid = fork();
    if (pid == 0) { execl("/proc/self/exe", "demo", "child", (char*)nullptr); _exit(9); }
    int st; waitpid(pid, &st, 0);
    if (st) return 3;
    DIR* d = opendir("."); int n = 0, files = 0;
    while (dirent* e = readdir(d)) {
      std::string f = e->d_name;
      if (f.size() < 6 || f.substr(f.size() - 5) != "stats") continue;
      ++files;
      std::ifstream in(f); std::string l;
      while (std::getline(in, l)) if (l.find("\"coalesce\"") != std::string::npos) ++n;
    }
    if (!files) return 4;
    printf("%d coalesce events, 1 request\n", n);
    return n == 1 ? 0 : 1;
  }
  auto& rm = umpire::ResourceManager::getInstance();
  auto q = rm.makeAllocator<umpire::strategy::QuickPool>("q", rm.getAllocator("HOST"), 64, 64, 16, umpire::strategy::QuickPool::percent_releasable(50));
  void* p[6];
  for (auto& x : p) x = q.allocate(64);
  for (auto& x : p) q.deallocate(x);
  dynamic_cast<umpire::strategy::QuickPool*>(q.getAllocationStrategy())->coalesce();
  return 0;
}
'''
