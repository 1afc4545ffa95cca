ID="b04-fixedmallocpool-last-free"; PROPERTY="P17"; LIB="util"
NEEDS="A pool block is completely used, freed down in some order and refilled."
BREAKS="The link of the object freed into a completely used block points at the first object, so a live slot is handed out again."
EDITS=[("src/umpire/util/FixedMallocPool.cpp","""    if ((offset >= 0) && (offset < static_cast<ptrdiff_t>(m_data_bytes))) {
      if (p.next != nullptr) {""","""    if ((offset >= 0) && (offset < static_cast<ptrdiff_t>(m_data_bytes))) {
      if (p.num_free > 1 || p.next != nullptr) {"""),
("src/umpire/util/FixedMallocPool.cpp","p.next = (p.num_free != 0) ? addr_from_index(p, *reinterpret_cast<unsigned int*>(p.next)) : nullptr;",
"p.next = (p.num_free > 1 || p.num_initialized < m_obj_per_pool) ? addr_from_index(p, *reinterpret_cast<unsigned int*>(p.next)) : nullptr;")]
DEMO=r'''
#include "umpire/util/FixedMallocPool.hpp"
#include <cstdio>
#include <set>
int main() {
  umpire::util::FixedMallocPool pool{16, 4};
  void* a[4];
  for (auto& x : a) x = pool.allocate();
  for (auto x : a) pool.deallocate(x);
  std::set<void*> live;
  for (int i = 0; i < 4; ++i) { void* p = pool.allocate(); if (!p || !live.insert(p).second) { std::puts("slot handed out twice"); return 1; } }
  if (pool.numPools() != 1) { std::puts("free slots not reused"); return 1; }
  return 0;
}
'''
