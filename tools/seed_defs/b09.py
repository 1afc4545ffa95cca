ID='b09-aligned-overhead'; PROPERTY='P02'
NEEDS='The parent returns an address that is not a multiple of the pointer size (for example a pool with alignment 1).'
BREAKS="The aligned allocator asks for a little less than the worst case padding, so the end of the allocation can lie outside the parent's block."
EDITS=[('src/umpire/strategy/AlignedAllocator.cpp',
r"""  std::size_t total_bytes = bytes + sizeof(void*) + m_alignment - 1;""",
r"""  std::size_t total_bytes = bytes + m_alignment;"""),
('src/umpire/strategy/AlignedAllocator.cpp',
r"""  std::size_t total_bytes = size + sizeof(void*) + m_alignment - 1;""",
r"""  std::size_t total_bytes = size + m_alignment;""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/Umpire.hpp"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/QuickPool.hpp"
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("p", rm.getAllocator("HOST"), 8192, 8192, 1);
  auto al = rm.makeAllocator<umpire::strategy::AlignedAllocator>("a", pool, 64);
  int bad = 0;
  for (int shift = 0; shift < 64; ++shift) {
    void* pad = pool.allocate(shift ? shift : 64);
    char* x = static_cast<char*>(al.allocate(40));
    char* y = static_cast<char*>(pool.allocate(32));
    std::memset(y, 5, 32);
    std::memset(x, 6, 40);
    for (int i = 0; i < 32; ++i) if (y[i] != 5) bad = 1;
    (void)pad;
  }
  if (bad) std::puts("allocation does not fit its parent block");
  return bad;
}
'''
