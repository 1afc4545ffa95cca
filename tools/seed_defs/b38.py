exec(open("/verif/tools/seed_defs/b23.py").read())
ID="b38-shm-sliver"; PROPERTY="P21"
NEEDS="A named allocation fills a hole between two others but for exactly 32 bytes."
BREAKS="The remainder becomes a free block whose description reaches into the next block and overwrites it: that allocation is lost."
EDITS=[("src/umpire/resource/HostSharedMemoryResourceImpl.hpp","""    if (curr->block_size == size || remaining < sizeof(SharedMemoryBlock)) {""","""    if (curr->block_size == size || remaining < 2 * m_alignment) {""")]
DEMO=SHM+r'''
#include <cstdio>
int main() {
  int bad = 0;
  for (std::size_t less = 0; less <= 96; less += 16) {
    Shm s(umpire::Platform::host, "SHARED::demo" + std::to_string(less), 1000, traits(8192));
    const std::size_t used0 = s.getActualSize();
    void* x = s.allocate_named("x", 320); void* a = s.allocate_named("a", 320); void* b = s.allocate_named("b", 320);
    s.deallocate(a, 320);
    void* c = s.allocate_named("c", 320 - less);
    if (s.find_pointer_from_name("x") != x || s.find_pointer_from_name("b") != b || s.find_pointer_from_name("c") != c) { printf("lost %zu\n", less); ++bad; continue; }
    s.deallocate(b, 320); s.deallocate(c, 320 - less); s.deallocate(x, 320);
    if (s.getActualSize() != used0) { printf("size %zu\n", less); ++bad; }
  }
  return bad;
}
'''
