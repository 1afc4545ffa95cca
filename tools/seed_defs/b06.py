ID="b06-deregister-drops-name"; PROPERTY="P10"
NEEDS="A named allocation is freed through the wrong allocator and inspected afterwards."
BREAKS="A rejected free loses the name of the allocation."
EDITS=[("src/umpire/strategy/mixins/Inspector.cpp","ResourceManager::getInstance().registerAllocation(ptr, {ptr, record.size, record.strategy, record.name});","ResourceManager::getInstance().registerAllocation(ptr, {ptr, record.size, record.strategy});")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include <cstdio>
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  auto host = rm.getAllocator("HOST");
  auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("demo_pool", host);
  void* p = host.allocate("precious", 64);
  bool threw = false;
  try { pool.deallocate(p); } catch (...) { threw = true; }
  if (!threw) return 1;
  if (rm.findAllocationRecord(p)->name != "precious") { std::puts("name lost"); return 1; }
  return 0;
}
'''
