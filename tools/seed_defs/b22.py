ID="b22-file-left-on-map-failure"; PROPERTY="P20"
NEEDS="The mapping of a new file fails, and not for lack of memory (ENOMEM)."
BREAKS="The file of an allocation whose mapping failed is only removed when memory ran out, otherwise it stays behind."
EDITS=[("src/umpire/resource/FileMemoryResource.cpp","""    close(fd);
    remove(ss.str().c_str());
    UMPIRE_ERROR(runtime_error,
                 fmt::format("mmap of""","""    close(fd);
    if (errno_save == ENOMEM) {
      remove(ss.str().c_str());
    }
    UMPIRE_ERROR(runtime_error,
                 fmt::format("mmap of""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <sys/mman.h>
static bool fail = false;
extern "C" void* mmap(void* a, size_t n, int p, int f, int fd, off_t o) {
  static auto real = (void* (*)(void*, size_t, int, int, int, off_t))dlsym(RTLD_NEXT, "mmap");
  if (fail && fd >= 0) { errno = EAGAIN; return MAP_FAILED; } // locked memory limit
  return real(a, n, p, f, fd, o);
}
static int files() {
  int n = 0;
  DIR* d = opendir(".");
  while (dirent* e = readdir(d)) if (!strncmp(e->d_name, "umpire_mem", 10)) ++n;
  closedir(d);
  return n;
}
int main() {
  auto a = umpire::ResourceManager::getInstance().getAllocator("FILE");
  void* p = a.allocate(100);
  if (files() != 1) return 2;
  fail = true;
  try { a.allocate(5000); return 3; } catch (...) {}
  fail = false;
  if (files() != 1) return 1;
  a.deallocate(p);
  return files() != 0;
}
'''
