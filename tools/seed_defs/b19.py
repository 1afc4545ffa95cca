ID="b19-contains-unlocked"; PROPERTY="P18"
NEEDS="One thread asks whether a pointer is known (hasAllocator) while another one allocates or frees through its own allocator."
BREAKS="The query walks the allocation map without its lock: crashes or wrong answers."
EDITS=[("src/umpire/util/AllocationMap.cpp","  return (findRecord(ptr) != nullptr);","  return (doFindRecord(ptr) != nullptr);")]
FLAGS="-pthread"
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  auto host = rm.getAllocator("HOST");
  auto a = rm.makeAllocator<umpire::strategy::QuickPool>("pool_a", host);
  auto b = rm.makeAllocator<umpire::strategy::QuickPool>("pool_b", host);
  std::atomic<bool> stop{false};
  std::atomic<int> wrong{0};
  const auto end = std::chrono::steady_clock::now() + std::chrono::seconds(6);
  void* mine = a.allocate(64);
  std::thread q([&] {
    while (!stop) {
      if (!rm.hasAllocator(mine)) { ++wrong; stop = true; }
    }
  });
  while (!stop && std::chrono::steady_clock::now() < end) {
    void* p[64];
    for (auto& x : p) x = b.allocate(32);
    for (auto& x : p) b.deallocate(x);
  }
  stop = true;
  q.join();
  if (wrong) { std::puts("a live allocation was unknown"); return 1; }
  return 0;
}
'''
