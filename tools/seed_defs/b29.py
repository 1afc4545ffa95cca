ID="b29-async-copy-event-base"; PROPERTY="P23"
NEEDS="An asynchronous copy to an address inside an allocation, with events recorded."
BREAKS="The event names the start of the destination allocation instead of the address that is written."
EDITS=[("src/umpire/ResourceManager.cpp","""        .arg("dst", dst_ptr)
        .arg("src_offset", src_offset)
        .arg("dst_offset", dst_offset)
        .arg("size", size)
        .arg("src_allocator_ref", (void*)src_alloc_record->strategy)
        .arg("dst_allocator_ref", (void*)dst_alloc_record->strategy)
        .tag("src_allocator_name", src_alloc_record->strategy->getName())
        .tag("dst_allocator_name", dst_alloc_record->strategy->getName())
        .tag("replay", "true")
        .tag("async", "true");""","""        .arg("dst", dst_alloc_record->ptr)
        .arg("src_offset", src_offset)
        .arg("dst_offset", dst_offset)
        .arg("size", size)
        .arg("src_allocator_ref", (void*)src_alloc_record->strategy)
        .arg("dst_allocator_ref", (void*)dst_alloc_record->strategy)
        .tag("src_allocator_name", src_alloc_record->strategy->getName())
        .tag("dst_allocator_name", dst_alloc_record->strategy->getName())
        .tag("replay", "true")
        .tag("async", "true");""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "camp/resource.hpp"
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <string>
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>
int main(int argc, char** argv) {
  if (argc == 1) {
    setenv("UMPIRE_EVENTS", "On", 1);
    pid_t pid = fork();
    if (pid == 0) { execl("/proc/self/exe", "demo", "child", (char*)nullptr); _exit(9); }
    int st; waitpid(pid, &st, 0);
    if (st) return 3;
    std::string want; { std::ifstream w("want"); w >> want; }
    DIR* d = opendir("."); int n = 0;
    while (dirent* e = readdir(d)) {
      std::string f = e->d_name;
      if (f.size() < 6 || f.substr(f.size() - 5) != "stats") continue;
      std::ifstream in(f); std::string l;
      while (std::getline(in, l)) if (l.find("\"copy\"") != std::string::npos && l.find("\"dst\":\"" + want + "\"") != std::string::npos) ++n;
    }
    printf("%d copy events to %s\n", n, want.c_str());
    return n == 1 ? 0 : 1;
  }
  auto& rm = umpire::ResourceManager::getInstance();
  auto h = rm.getAllocator("HOST");
  char *a = (char*)h.allocate(64), *b = (char*)h.allocate(64);
  camp::resources::Resource r{camp::resources::Host{}};
  rm.copy(b + 16, a, r, 8);
  FILE* f = fopen("want", "w"); fprintf(f, "%p\n", (void*)(b + 16)); fclose(f);
  return 0;
}
'''
