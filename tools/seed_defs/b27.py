ID="b27-aligned-total-rounded"; PROPERTY="P27"
NEEDS="A request just below the largest size that passes the check, from an aligned allocator."
BREAKS="The total is rounded up to the alignment and wraps around, so a tiny block is obtained for a huge request."
EDITS=[("src/umpire/strategy/AlignedAllocator.cpp","""  std::size_t total_bytes = bytes + sizeof(void*) + m_alignment - 1;
  UMPIRE_LOG(Debug, "requested""","""  std::size_t total_bytes = (bytes + sizeof(void*) + 2 * (m_alignment - 1)) & m_mask;
  UMPIRE_LOG(Debug, "requested"""),("src/umpire/strategy/AlignedAllocator.cpp","""  std::size_t total_bytes = size + sizeof(void*) + m_alignment - 1;
  return""","""  std::size_t total_bytes = (size + sizeof(void*) + 2 * (m_alignment - 1)) & m_mask;
  return""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include <limits>
#include <cstdio>
struct Parent : umpire::strategy::AllocationStrategy {
  std::size_t asked{~std::size_t(0)};
  Parent(const std::string& n, int id) : AllocationStrategy(n, id, nullptr, "Parent") {}
  umpire::Platform getPlatform() noexcept override { return umpire::Platform::host; }
  umpire::MemoryResourceTraits getTraits() const noexcept override { return {}; }
  void* allocate(std::size_t n) override { asked = n; throw 1; }
  void deallocate(void*, std::size_t) override {}
};
int main() {
  auto pa = umpire::ResourceManager::getInstance().makeAllocator<Parent>("parent");
  auto& par = *dynamic_cast<Parent*>(pa.getAllocationStrategy());
  umpire::strategy::AlignedAllocator a("a", 901, pa, 64);
  for (std::size_t k = 0; k < 300; ++k) {
    const std::size_t n = std::numeric_limits<std::size_t>::max() - k;
    par.asked = ~std::size_t(0);
    try { a.allocate(n); } catch (...) {}
    if (par.asked < n) { printf("asked for %zu for a request of %zu\n", par.asked, n); return 1; }
  }
  return 0;
}
'''
