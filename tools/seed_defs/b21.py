ID="b21-free-before-forget"; PROPERTY="P18"
NEEDS="Thread A frees; before it has dropped the record, thread B obtains the same memory through its own allocator."
BREAKS="Memory is given back before its record is removed, so A removes the record of B's new allocation."
EDITS=[("src/umpire/Allocator.inl","""      auto record = deregisterAllocation(ptr, m_allocator);
      if (!deallocateNull(ptr)) {
        m_allocator->deallocate(ptr, record.size);
      }
""","""      const bool known{m_allocator->getAllocationCount() > 0 && owns(ptr)};
      if (known) {
        const std::size_t size{getSize(ptr)};
        if (!deallocateNull(ptr)) {
          m_allocator->deallocate(ptr, size);
        }
      }
      deregisterAllocation(ptr, m_allocator);
"""),("src/umpire/Allocator.hpp","  inline void do_deallocate(void* ptr);\n","  inline void do_deallocate(void* ptr);\n  bool owns(void* ptr) const;\n"),
("src/umpire/Allocator.cpp","""std::size_t Allocator::getSize(void* ptr) const
""","""bool Allocator::owns(void* ptr) const
{
  auto& rm = ResourceManager::getInstance();
  if (!rm.hasAllocator(ptr)) {
    return false;
  }
  const util::AllocationRecord* record{rm.findAllocationRecord(ptr)};
  return record->ptr == ptr && record->strategy == m_allocator;
}

std::size_t Allocator::getSize(void* ptr) const
""")]
FLAGS="-pthread"
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/strategy/AllocationStrategy.hpp"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include <new>
// two sources that share one block of memory, like two pools over one resource
static char block[64];
static std::atomic<int> stage{0}; // 1: block is free again, 2: B has it
struct Source : umpire::strategy::AllocationStrategy {
  Source(const std::string& n, int id) : AllocationStrategy(n, id, nullptr, "Source") {}
  umpire::Platform getPlatform() noexcept override { return umpire::Platform::host; }
  umpire::MemoryResourceTraits getTraits() const noexcept override { return {}; }
  void* allocate(std::size_t) override { return block; }
  void deallocate(void*, std::size_t) override {
    if (stage == 0) {
      stage = 1;
      for (int i = 0; i < 3000 && stage != 2; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
  }
};
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  auto a = rm.makeAllocator<Source>("a");
  auto b = rm.makeAllocator<Source>("b");
  void* p = a.allocate(16);
  std::thread t([&] {
    while (stage != 1) std::this_thread::yield();
    b.allocate(32);
    stage = 2;
  });
  bool threw = false;
  try { a.deallocate(p); } catch (...) { threw = true; }
  t.join();
  if (threw || !rm.hasAllocator(block) || rm.findAllocationRecord(block)->strategy != b.getAllocationStrategy() || rm.getSize(block) != 32) {
    std::puts("allocation of the other thread is not tracked correctly");
    return 1;
  }
  b.deallocate(block);
  return 0;
}
'''
