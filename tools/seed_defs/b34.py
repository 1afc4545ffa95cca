ID="b34-leak-report-before-release"; PROPERTY="P29"
NEEDS="A pool that still holds a block of its parent, with nothing of it in use, when the program ends with logging on."
BREAKS="All leaks are reported before any allocator is destroyed, so the parent is reported to leak the memory its pools keep."
EDITS=[("src/umpire/ResourceManager.cpp","""                            << ss.str() << std::endl);
    }

    allocator.reset();
  }
}
""","""                            << ss.str() << std::endl);
    }
  }

  for (auto&& allocator : m_allocators) {
    allocator.reset();
  }
}
""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <fstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
int main() {
  char dir[] = "/tmp/b34XXXXXX";
  if (!mkdtemp(dir)) return 2;
  pid_t p = fork();
  if (p == 0) {
    setenv("UMPIRE_OUTPUT_DIR", dir, 1);
    setenv("UMPIRE_LOG_LEVEL", "Error", 1);
    auto& rm = umpire::ResourceManager::getInstance();
    auto a = rm.makeAllocator<umpire::strategy::QuickPool>("pool", rm.getAllocator("HOST"), 1024, 1024);
    a.deallocate(a.allocate(100));
    exit(0);
  }
  int st; waitpid(p, &st, 0);
  int bad = !WIFEXITED(st) || WEXITSTATUS(st);
  if (DIR* d = opendir(dir)) {
    while (dirent* e = readdir(d)) {
      std::string f = std::string(dir) + "/" + e->d_name;
      std::ifstream in(f); std::string l;
      while (std::getline(in, l)) if (l.find("still has") != std::string::npos) { printf("%s\n", l.c_str()); bad = 1; }
      if (e->d_name[0] != '.') unlink(f.c_str());
    }
    closedir(d);
  }
  rmdir(dir);
  return bad;
}
'''
