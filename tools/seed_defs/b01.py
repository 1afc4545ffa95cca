ID="b01-quickpool-split-link"; PROPERTY="P01"
NEEDS="A chunk obtained by merging two neighbours is carved again while the piece after it is still live, and pieces are then freed in one particular order."
BREAKS="The piece following a re-carved chunk keeps a stale back link, so a later free merges it with the wrong neighbour and the pool hands out memory that is still in use."
EDITS=[("src/umpire/strategy/QuickPool.cpp","""    if (split_chunk->next)
      split_chunk->next->prev = split_chunk;

    chunk->size = rounded_bytes;
    split_chunk->size_map_it""","""    chunk->size = rounded_bytes;
    split_chunk->size_map_it""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include <cstdio>
#include <cstring>
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  auto pool = rm.makeAllocator<umpire::strategy::QuickPool>("demo_pool", rm.getAllocator("HOST"), 1024, 1024);
  void* a = pool.allocate(128);
  void* b = pool.allocate(64);
  void* keep = pool.allocate(832); // uses up the block
  pool.deallocate(a);
  void* c = pool.allocate(64); // front of a
  void* d = pool.allocate(64); // rest of a
  pool.deallocate(c);
  std::memset(d, 7, 64);
  pool.deallocate(b); // must not merge with c: d lies between them
  void* e = pool.allocate(128);
  std::memset(e, 9, 128);
  for (int i = 0; i < 64; ++i)
    if (static_cast<char*>(d)[i] != 7) { std::puts("live allocation overwritten"); return 1; }
  (void)keep;
  return 0;
}
'''
