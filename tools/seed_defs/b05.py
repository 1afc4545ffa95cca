ID="b05-async-copy-dst-offset"; PROPERTY="P11"
NEEDS="The asynchronous copy with an interior destination and a length between the space left and the destination's full size."
BREAKS="An asynchronous copy to an interior address may write past the end of the destination allocation."
EDITS=[("src/umpire/ResourceManager.cpp","""    UMPIRE_ERROR(runtime_error, fmt::format("Not enough resource in destination for copy: {} -> {}", size, dst_size));""",
"""    if (size > dst_alloc_record->size)
      UMPIRE_ERROR(runtime_error, fmt::format("Not enough resource in destination for copy: {} -> {}", size, dst_size));""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include <cstdio>
#include <cstring>
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("demo_pool", rm.getAllocator("HOST"), 4096, 4096);
  char* src = static_cast<char*>(pool.allocate(64));
  char* dst = static_cast<char*>(pool.allocate(64));
  char* next = static_cast<char*>(pool.allocate(64));
  std::memset(src, 1, 64); std::memset(dst, 2, 64); std::memset(next, 3, 64);
  camp::resources::Resource ctx{camp::resources::Host{}};
  bool threw = false;
  try { rm.copy(dst + 32, src, ctx, 48); } catch (...) { threw = true; }
  for (int i = 0; i < 64; ++i) if (next[i] != 3) { std::puts("wrote past the destination"); return 1; }
  return threw ? 0 : 1;
}
'''
