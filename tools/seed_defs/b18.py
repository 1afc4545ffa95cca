ID='b18-slotpool-empty-first'; PROPERTY='P09'
NEEDS='A freed slot of the right size exists and another slot is still empty.'
BREAKS='The slot allocator fills empty slots before reusing a freed one of the same size, so capacity is lost.'
EDITS=[('src/umpire/strategy/SlotPool.cpp',
r"""  for (std::size_t i = 0; i < m_slots; ++i) {
    if (m_lengths[i] == int_bytes) {
      m_lengths[i] = -m_lengths[i];
      ptr = m_pointers[i];
      break;
    } else if (m_lengths[i] == 0) {""",
r"""  for (std::size_t i = m_slots; i-- > 0;) {
    if (m_lengths[i] == int_bytes) {
      m_lengths[i] = -m_lengths[i];
      ptr = m_pointers[i];
      break;
    } else if (m_lengths[i] == 0 && (i == 0 || m_lengths[i - 1] != 0)) {""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/Umpire.hpp"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

#include "umpire/strategy/SlotPool.hpp"
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  auto s = rm.makeAllocator<umpire::strategy::SlotPool>("s", rm.getAllocator("HOST"), 2);
  void* a = s.allocate(64);
  s.deallocate(a);
  void* b = s.allocate(64);
  void* c = s.allocate(128);
  (void)b; (void)c;
  return 0; // throws when the freed slot was not reused
}
'''
