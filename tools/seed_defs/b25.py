ID="b25-lookup-memo"; PROPERTY="P03"
NEEDS="An interior address is looked up, its allocation is freed, and the same interior address is looked up again."
BREAKS="The memo of the last lookup is only dropped when the looked-up address itself is removed, so a freed interior address is still reported as live."
EDITS=[("src/umpire/util/AllocationMap.cpp","""  // Call method
  return doFindRecord(ptr);
""","""  if (ptr != m_last_ptr || !m_last_record) {
    m_last_record = doFindRecord(ptr);
    m_last_ptr = ptr;
  }
  return m_last_record;
"""),("src/umpire/util/AllocationMap.cpp","""  UMPIRE_LOG(Debug, "Removing " << ptr);
""","""  UMPIRE_LOG(Debug, "Removing " << ptr);

  if (ptr == m_last_ptr) {
    m_last_record = nullptr;
  }
"""),("src/umpire/util/AllocationMap.cpp","""  UMPIRE_LOG(Debug, "Inserting " << ptr);
""","""  UMPIRE_LOG(Debug, "Inserting " << ptr);

  if (ptr == m_last_ptr) {
    m_last_record = nullptr;
  }
"""),("src/umpire/util/AllocationMap.cpp","""  UMPIRE_LOG(Debug, "Clearing");
""","""  UMPIRE_LOG(Debug, "Clearing");

  m_last_record = nullptr;
"""),("src/umpire/util/AllocationMap.hpp","""  mutable std::recursive_mutex m_mutex;
""","""  // The last lookup
  mutable void* m_last_ptr{nullptr};
  mutable const AllocationRecord* m_last_record{nullptr};
  mutable std::recursive_mutex m_mutex;
""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  auto a = rm.getAllocator("HOST");
  char* p = (char*)a.allocate(64);
  if (!rm.hasAllocator(p + 8)) return 2;
  a.deallocate(p);
  return rm.hasAllocator(p + 8) ? 1 : 0;
}
'''
