exec(open("/verif/tools/seed_defs/b23.py").read())
ID="b40-shm-gone-between-opens"; PROPERTY="P22"
NEEDS="The name of a segment is removed by a detaching process between the attempts to create and to open it."
BREAKS="The attaching process gives up with an error instead of trying again."
EDITS=[("src/umpire/resource/HostSharedMemoryResourceImpl.hpp","        } else if (err != ENOENT) {","        } else if (err != EINTR) {")]
DEMO=SHM.replace('''extern "C" int shm_open(const char* n, int f, mode_t m) { return''','''static int gone = 0;
extern "C" int shm_open(const char* n, int f, mode_t m) { if (gone && !(f & O_CREAT)) { gone = 0; unlink(file(n).c_str()); } return''')+r'''
#include <cstdio>
int main() {
  Shm* a = new Shm(umpire::Platform::host, "SHARED::demo", 1000, traits(4096));
  gone = 1; // the first process detaches just now
  try {
    Shm b(umpire::Platform::host, "SHARED::demo", 1001, traits(4096));
    void* p = b.allocate_named("x", 100);
    return !(p && b.find_pointer_from_name("x") == p);
  } catch (...) { puts("cannot attach"); return 1; }
}
'''
