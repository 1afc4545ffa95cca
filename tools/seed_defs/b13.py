ID='b13-zero-byte-first-pool'; PROPERTY='P13'
NEEDS='More zero-byte allocations are live than fit in the first block of the zero-byte pool (2048).'
BREAKS='Only the first block of the zero-byte pool is recognised, so freeing a later zero-byte allocation is passed to the memory resource.'
EDITS=[('src/umpire/strategy/FixedPool.cpp',
r"""  for (auto& p : m_pool) {
    const char* t_ptr = reinterpret_cast<char*>(ptr);
    const ptrdiff_t offset = t_ptr - p.data;
    if ((offset >= 0) && (offset < static_cast<ptrdiff_t>(m_data_bytes))) {
      return true;
    }
  }

  return false;""",
r"""  if (m_pool.empty()) {
    return false;
  }
  const ptrdiff_t offset = reinterpret_cast<char*>(ptr) - m_pool.front().data;
  return (offset >= 0) && (offset < static_cast<ptrdiff_t>(m_data_bytes));""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/Umpire.hpp"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

#include "umpire/strategy/QuickPool.hpp"
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("p", rm.getAllocator("HOST"), 4096, 4096);
  std::vector<void*> v;
  for (int i = 0; i < 2200; ++i) v.push_back(pool.allocate(0));
  for (void* p : v) pool.deallocate(p);  // crashes when taken for a pool allocation
  return pool.getAllocationCount() == 0 ? 0 : 1;
}
'''
