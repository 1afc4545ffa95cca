ID='b16-listpool-one-merge'; PROPERTY='P07'
NEEDS='A piece is freed while both its neighbours in the block are already free.'
BREAKS='The list pool merges a freed piece with its predecessor or its successor but not both, so free space stays fragmented and the parent is asked again.'
EDITS=[('src/umpire/strategy/DynamicSizePool.hpp',
r"""      blockPool.deallocate(curr); // keep data
      curr = prev;
    } else if (prev) {
      prev->next = curr;
    } else {
      freeBlocks = curr;
    }
""",
r"""      blockPool.deallocate(curr); // keep data
      if (prev->size == prev->blockSize)
        m_releasable_blocks++;
      return;
    } else if (prev) {
      prev->next = curr;
    } else {
      freeBlocks = curr;
    }
""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/Umpire.hpp"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

#include "umpire/strategy/DynamicPoolList.hpp"
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  umpire::strategy::DynamicPoolList pool("p", 901, rm.getAllocator("HOST"), 1024, 1024, 16, umpire::strategy::DynamicPoolList::percent_releasable(0));
  void* a = pool.allocate(256); void* b = pool.allocate(256); void* c = pool.allocate(256);
  pool.deallocate(a, 256); pool.deallocate(c, 256); pool.deallocate(b, 256);
  pool.allocate(1024);
  return pool.getActualSize() == 1024 ? 0 : 1;
}
'''
