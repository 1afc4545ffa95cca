ID='b10-releasable-before-merge'; PROPERTY='P08'
NEEDS='A block becomes completely free by a free that merges with the piece behind it (pieces of one block freed in reverse or mixed order).'
BREAKS='Releasable blocks and bytes are counted before merging with the following free piece, so a block that becomes whole that way is never counted.'
EDITS=[('src/umpire/strategy/QuickPool.cpp',
r"""  if (chunk->next && chunk->next->free == true) {
    auto next = chunk->next;
    chunk->size += next->size;""",
r"""  const bool whole{chunk->size == chunk->chunk_size || (chunk->next && chunk->next->free && !chunk->next->next)};
  if (chunk->next && chunk->next->free == true) {
    auto next = chunk->next;
    chunk->size += next->size;"""),
('src/umpire/strategy/QuickPool.cpp',
r"""  if (chunk->size == chunk->chunk_size) {
    m_releasable_blocks++;""",
r"""  if (whole) {
    m_releasable_blocks++;""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/Umpire.hpp"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

#include "umpire/strategy/QuickPool.hpp"
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  umpire::strategy::QuickPool pool("p", 900, rm.getAllocator("HOST"), 1024, 1024, 16, umpire::strategy::QuickPool::percent_releasable(0));
  void* a = pool.allocate(64);
  void* b = pool.allocate(64);
  pool.deallocate(b, 64);  // only the tail of the block is free
  int bad = pool.getReleasableBlocks() != 0 || pool.getReleasableSize() != 0;
  pool.deallocate(a, 64);
  bad |= pool.getReleasableBlocks() != 1 || pool.getReleasableSize() != 1024;
  return bad;
}
'''
