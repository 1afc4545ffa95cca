ID="b36-chunk-size-32bit"; PROPERTY="P01"
NEEDS="A quick pool block larger than 4 GiB that is split, so that the size of a chunk does not fit in 32 bits."
BREAKS="The size of a chunk and of its block are stored in 32 bits, so that what remains of a block of several GiB is miscounted and pieces overlap."
EDITS=[("src/umpire/strategy/QuickPool.hpp","""    std::size_t size{0};
    std::size_t chunk_size{0};""","""    unsigned int size{0};
    unsigned int chunk_size{0};""")]
DEMO=r'''
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include <cstdio>
#include <sys/mman.h>
// a parent that reserves address space only
struct Sparse : umpire::strategy::AllocationStrategy {
  Sparse() : AllocationStrategy("sparse", 777, nullptr, "Sparse") {}
  umpire::Platform getPlatform() noexcept override { return umpire::Platform::host; }
  umpire::MemoryResourceTraits getTraits() const noexcept override { return {}; }
  int calls{0};
  void* allocate(std::size_t n) override {
    ++calls;
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return p == MAP_FAILED ? nullptr : p;
  }
  void deallocate(void* p, std::size_t n) override { munmap(p, n); }
};
int main() {
  const std::size_t G = std::size_t(1) << 30;
  Sparse s;
  umpire::Allocator a(&s);
  umpire::strategy::QuickPool q("q", 778, a, 12 * G, 64, 16);
  umpire::Allocator al(&q);
  void* x = al.allocate(4 * G + 16);
  void* y = al.allocate(4 * G + 16);
  bool ok = s.calls == 1 && q.getActualSize() == 12 * G && q.getLargestAvailableBlock() == 4 * G - 32;
  if (!ok) printf("calls %d largest %zu\n", s.calls, q.getLargestAvailableBlock());
  al.deallocate(x);
  al.deallocate(y);
  return !ok;
}
'''
FLAGS="-fno-access-control"
