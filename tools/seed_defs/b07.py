ID="b07-pool-retry-skips-release"; PROPERTY="P05"
NEEDS="The parent refuses a block although the pool holds releasable blocks whose return would make it succeed, several blocks at once."
BREAKS="The recovery of the list pool only gives back the first unused block before retrying."
EDITS=[("src/umpire/strategy/DynamicSizePool.hpp","""        blockPool.deallocate(curr);
      } else {
        prev = curr;
      }
      curr = next;
    }
""","""        blockPool.deallocate(curr);
        if (!next || next->blockSize == 0)
          break;
      } else {
        prev = curr;
      }
      curr = next;
    }
""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/AllocationStrategy.hpp"
#include <cstdio>
#include <cstdlib>
static char arena[1 << 16] __attribute__((aligned(64)));
struct Limited : umpire::strategy::AllocationStrategy {
  std::size_t live{0}, next{0};
  Limited(const std::string& n, int id) : AllocationStrategy{n, id, nullptr, "Limited"} {}
  void* allocate(std::size_t b) override { if (live + b > 700) throw std::bad_alloc(); live += b; void* p = arena + next; next += b + 64; return p; }
  void deallocate(void*, std::size_t b) override { live -= b; }
  umpire::Platform getPlatform() noexcept override { return umpire::Platform::host; }
};
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  auto parent = rm.makeAllocator<Limited>("limited");
  auto pool = rm.makeAllocator<umpire::strategy::DynamicPoolList>("demo_pool", parent, 160, 160, 16, umpire::strategy::DynamicPoolList::percent_releasable(0));
  void* a = pool.allocate(128);
  void* b = pool.allocate(64); // own block, partly used
  void* c = pool.allocate(128);
  void* keep = b;
  pool.deallocate(a);
  pool.deallocate(c);
  try {
    void* d = pool.allocate(400); // needs both unused blocks back
    (void)d;
  } catch (...) { std::puts("refused although unused blocks could have been given back"); return 1; }
  (void)keep;
  return 0;
}
'''
