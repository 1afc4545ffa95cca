ID='b03-remove-interior'; PROPERTY='P16'
NEEDS='An address inside a live allocation, not its start, is removed.'
BREAKS='Removing an interior address takes the record of the enclosing allocation instead of being reported as unknown.'
EDITS=[('src/umpire/util/AllocationMap.cpp',
r"""  auto iter = m_map.find(ptr);

  if (iter->second) {
    // faster""",
r"""  auto iter = m_map.findOrBefore(ptr);

  if (iter->second) {
    // faster""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/Umpire.hpp"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

#include "umpire/util/AllocationMap.hpp"
int main() {
  umpire::util::AllocationMap m;
  static char buf[256];
  m.insert(buf, umpire::util::AllocationRecord{buf, 128, nullptr});
  bool threw = false;
  try { m.remove(buf + 16); } catch (...) { threw = true; }
  return threw && m.size() == 1 && m.contains(buf) ? 0 : 1;
}
'''
