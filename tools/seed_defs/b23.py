ID="b23-shm-merge-offset"; PROPERTY="P21"
NEEDS="A named allocation is freed while both its neighbours are already free."
BREAKS="The block is merged with its predecessor only, so freed space stays fragmented and a request that fits is refused."
EDITS=[("src/umpire/resource/HostSharedMemoryResourceImpl.hpp","""      prev->block_size = prev->block_size + curr->block_size;
      curr = prev;
      pointer_to_offset(curr, curr_offset);
""","""      prev->block_size = prev->block_size + curr->block_size;
      curr = prev;
""")]
SHM=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/resource/HostSharedMemoryResource.hpp"
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
// segments are files in the working directory (a scratch directory)
static std::string file(const char* n) { std::string s = n; for (auto& c : s) if (c == '/') c = '_'; return "./shm" + s; }
extern "C" int shm_open(const char* n, int f, mode_t m) { return open(file(n).c_str(), f | O_CLOEXEC, m); }
extern "C" int shm_unlink(const char* n) { return unlink(file(n).c_str()); }
using Shm = umpire::resource::HostSharedMemoryResource;
static umpire::MemoryResourceTraits traits(std::size_t n) { umpire::MemoryResourceTraits t; t.size = n; return t; }
'''
DEMO=SHM+r'''
int main() {
  Shm s(umpire::Platform::host, "SHARED::demo", 1000, traits(4096));
  const std::size_t used0 = s.getActualSize();
  void* a = s.allocate_named("a", 800); void* b = s.allocate_named("b", 800); void* c = s.allocate_named("c", 800);
  s.deallocate(a, 800); s.deallocate(c, 800); s.deallocate(b, 800);
  if (s.getActualSize() != used0) return 2;
  try { s.deallocate(s.allocate_named("big", 3500), 3500); } catch (...) { return 1; }
  return 0;
}
'''
