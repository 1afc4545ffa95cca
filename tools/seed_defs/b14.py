ID='b14-find-keeps-iterator'; PROPERTY='P15'
NEEDS='A lookup happens between two increments of one iterator.'
BREAKS='A constant lookup does not mark the shared position as moved, so an iteration in progress continues from the looked-up key.'
EDITS=[('src/umpire/util/MemoryMap.inl',
r"""  m_last = judy_slot(m_array, reinterpret_cast<unsigned char*>(&ptr), judy_max);
  m_oper = reinterpret_cast<uintptr_t>(this);
  return m_last ? ConstIterator{this, ptr} : ConstIterator{this, iterator_end{}};""",
r"""  m_last = judy_slot(m_array, reinterpret_cast<unsigned char*>(&ptr), judy_max);
  return m_last ? ConstIterator{this, ptr} : ConstIterator{this, iterator_end{}};""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/Umpire.hpp"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

#include "umpire/util/MemoryMap.hpp"
int main() {
  umpire::util::MemoryMap<int> m;
  for (long i = 1; i <= 6; ++i) m.insert(reinterpret_cast<void*>(i * 4096), int(i));
  const auto& cm = m;
  int n = 0;
  auto it = cm.begin(); ++it; ++n;
  cm.find(reinterpret_cast<void*>(5 * 4096L));
  while (it != cm.end()) { ++n; ++it; if (n > 20) break; }
  return n == 6 ? 0 : 1;
}
'''
