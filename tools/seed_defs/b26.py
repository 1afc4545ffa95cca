ID="b26-aligned-block-size"; PROPERTY="P04"
NEEDS="A pool gets a block from its parent that is not aligned as the pool wants, and later gives it back."
BREAKS="The pool remembers only the part of the block after alignment, so the parent's current size never returns to zero."
EDITS=[("src/umpire/strategy/mixins/AlignedAllocation.inl","""    reinterpret_cast<void*>(ptr), total_bytes);
""","""    reinterpret_cast<void*>(ptr), ptr + total_bytes - reinterpret_cast<uintptr_t>(aligned_ptr));
""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  auto lim = rm.getAllocator("HOST");
  const std::size_t before = lim.getCurrentSize();
  for (int i = 0; i < 8; ++i) {
    umpire::strategy::QuickPool pool("p", 900 + i, lim, 4096, 4096, 4096);
    void* p = pool.allocate(64);
    pool.deallocate(p, 64);
    pool.release();
    if (lim.getCurrentSize() != before) return 1;
  }
  return 0;
}
'''
