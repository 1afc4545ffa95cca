ID="b37-asan-poison-request-size"; PROPERTY="P31"
NEEDS="A sanitizer build and an untracked quick pool, whose deallocation is not told the size."
BREAKS="A freed block is made inaccessible only for the size passed to deallocate, which is zero when the pool is untracked: uses after free are not reported."
EDITS=[("src/umpire/strategy/QuickPool.cpp","""void QuickPool::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(size))
""","""void QuickPool::deallocate(void* ptr, std::size_t size)
"""),("src/umpire/strategy/QuickPool.cpp","""  UMPIRE_POISON_MEMORY_REGION(m_allocator, ptr, chunk->size);
""","""  if (size > 0) {
    UMPIRE_POISON_MEMORY_REGION(m_allocator, ptr, size);
  }
""")]
FLAGS="-fsanitize=address -DUMPIRE_ENABLE_ASAN"
DEMO=r'''
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include <cstdio>
#include <sanitizer/asan_interface.h>
extern "C" const char* __asan_default_options() { return "detect_leaks=0"; }
template <bool T> static int run(const char* name) {
  auto& rm = umpire::ResourceManager::getInstance();
  auto a = rm.makeAllocator<umpire::strategy::QuickPool, T>(name, rm.getAllocator("HOST"), 1024, 256, 16);
  char* p = static_cast<char*>(a.allocate(40));
  char* q = static_cast<char*>(a.allocate(40));
  int bad = 0;
  for (int i = 0; i < 40; ++i) bad += __asan_address_is_poisoned(p + i) || __asan_address_is_poisoned(q + i);
  a.deallocate(p);
  for (int i = 0; i < 40; ++i) bad += !__asan_address_is_poisoned(p + i) || __asan_address_is_poisoned(q + i);
  a.deallocate(q);
  return bad;
}
int main() {
  int t = run<true>("tracked"), u = run<false>("untracked");
  printf("%d %d\n", t, u);
  return t || u;
}
'''
