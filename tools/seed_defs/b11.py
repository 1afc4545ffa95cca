ID='b11-realloc-same-size-shortcut'; PROPERTY='P12'
NEEDS='An interior pointer is reallocated to exactly the size of the enclosing allocation.'
BREAKS="The shortcut for an unchanged size accepts interior pointers and keeps the allocation's name."
EDITS=[('src/umpire/ResourceManager.cpp',
r"""      auto& op_registry = op::MemoryOperationRegistry::getInstance();

      if (current_ptr != alloc_record->ptr) {
        UMPIRE_ERROR(runtime_error,
                     fmt::format("Cannot reallocate an offset ptr (ptr={}, base={})", current_ptr, alloc_record->ptr));
      }

      std::shared_ptr<umpire::op::MemoryOperation> op;
      if (alloc_record->strategy->getPlatform() == Platform::host &&
          getAllocator("HOST").getId() != alloc_record->strategy->getId()) {
        op = op_registry.find("REALLOCATE", std::make_pair(Platform::undefined, Platform::undefined));
      } else {""",
r"""      auto& op_registry = op::MemoryOperationRegistry::getInstance();

      if (new_size == alloc_record->size) {
        return current_ptr;
      }

      if (current_ptr != alloc_record->ptr) {
        UMPIRE_ERROR(runtime_error,
                     fmt::format("Cannot reallocate an offset ptr (ptr={}, base={})", current_ptr, alloc_record->ptr));
      }

      std::shared_ptr<umpire::op::MemoryOperation> op;
      if (alloc_record->strategy->getPlatform() == Platform::host &&
          getAllocator("HOST").getId() != alloc_record->strategy->getId()) {
        op = op_registry.find("REALLOCATE", std::make_pair(Platform::undefined, Platform::undefined));
      } else {""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/Umpire.hpp"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  auto h = rm.getAllocator("HOST");
  char* p = static_cast<char*>(h.allocate(64));
  bool threw = false;
  try { rm.reallocate(p + 8, 64); } catch (...) { threw = true; }
  return threw ? 0 : 1;
}
'''
