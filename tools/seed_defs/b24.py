exec(open("/verif/tools/seed_defs/b23.py").read())
ID="b24-shm-refcount-unlocked"; PROPERTY="P22"
NEEDS="Two attached processes free their reference to the same name at the same time."
BREAKS="The reference is dropped before the segment is locked, so both see the count at zero and both release the block."
EDITS=[("src/umpire/resource/HostSharedMemoryResourceImpl.hpp","""    offset_to_pointer(block_off, block_ptr);

    int err{0};
""","""    offset_to_pointer(block_off, block_ptr);
    block_ptr->reference_count--;

    int err{0};
"""),("src/umpire/resource/HostSharedMemoryResourceImpl.hpp","""    block_ptr->reference_count--;

    if (block_ptr""","""    if (block_ptr""")]
FLAGS="-pthread"
DEMO=SHM+r'''
#include <atomic>
#include <dlfcn.h>
#include <pthread.h>
#include <thread>
#include <chrono>
static thread_local bool pause_at_lock = false;
static std::atomic<int> arrived{0};
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  if (pause_at_lock) {
    pause_at_lock = false;
    ++arrived;
    for (int i = 0; i < 3000 && arrived < 2; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  }
  return real(m);
}
int main() {
  Shm s(umpire::Platform::host, "SHARED::demo", 1000, traits(4096)), t(umpire::Platform::host, "SHARED::demo", 1001, traits(4096));
  const std::size_t used0 = s.getActualSize();
  void* a = s.allocate_named("a", 800); void* b = t.allocate_named("a", 800);
  void* c = s.allocate_named("c", 800);
  (void)c;
  const std::size_t used = s.getActualSize() ;
  std::thread x([&] { pause_at_lock = true; s.deallocate(a, 800); }), y([&] { pause_at_lock = true; t.deallocate(b, 800); });
  x.join(); y.join();
  if (s.getActualSize() >= used || s.getActualSize() != used0 + (used - used0) / 2) return 1;
  return 0;
}
'''
