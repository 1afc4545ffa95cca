// P20: every short history of allocations and frees of file-backed memory, with
// every system call failing at every point, on the real code and real files in
// a scratch directory.
//
// The calls that obtain a file or a mapping are intercepted (link-time
// wrapping), so that the explorer decides whether each one fails, and whether a
// file of the chosen name was left behind there by somebody else.  What is
// judged is read from the operating system: directory listings, /proc/self/maps
// and /proc/self/fd, and the bytes.
#include <dirent.h>
#include <errno.h>
#include <stdarg.h>

#include <map>
#include <memory>

#include "mc.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/resource/FileMemoryResource.hpp"
#include "umpire/util/AllocationRecord.hpp"

namespace {
mc::Ctx* g_c = nullptr; // armed while the code under test allocates
int g_faults_left = 0;
bool g_faulted = false;
std::string g_root;
std::vector<std::string> g_foreign; // files somebody else left behind

std::string S(unsigned long long x)
{
  return std::to_string(x);
}

// 0: carry on, otherwise which kind of failure
int fault(const char* what, int kinds)
{
  if (!g_c || g_faults_left <= 0)
    return 0;
  int k = g_c->choose(kinds + 1);
  if (k) {
    --g_faults_left;
    g_faulted = true;
    g_c->deviation();
    g_c->log(std::string("    [") + what + " fails, kind " + S(k) + "]");
  }
  return k;
}

void leave_behind(const char* path)
{
  mc::Ctx* c = g_c;
  g_c = nullptr;
  FILE* f = fopen(path, "wx");
  if (f) {
    std::string junk(3 * 4096, '\xee');
    fwrite(junk.data(), 1, junk.size(), f);
    fclose(f);
    char* r = realpath(path, nullptr);
    if (r) {
      g_foreign.push_back(r);
      free(r);
    }
  }
  g_c = c;
}

// returns true if the call fails
bool open_fault(const char* path, int flags)
{
  bool creat = flags & O_CREAT;
  switch (fault("open", creat ? 3 : 2)) {
    case 1:
      errno = EACCES;
      return true;
    case 2:
      errno = EMFILE;
      return true;
    case 3:
      leave_behind(path);
      return false;
  }
  return false;
}
} // namespace

extern "C" {
int __real_open(const char*, int, ...);
int __real_open64(const char*, int, ...);
int __real_creat(const char*, mode_t);
int __real_ftruncate(int, off_t);
int __real_ftruncate64(int, off64_t);
int __real_fallocate(int, int, off_t, off_t);
int __real_posix_fallocate(int, off_t, off_t);
void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __real_mmap64(void*, size_t, int, int, int, off64_t);

int __wrap_open(const char* p, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (open_fault(p, flags))
    return -1;
  return __real_open(p, flags, mode);
}
int __wrap_open64(const char* p, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (open_fault(p, flags))
    return -1;
  return __real_open64(p, flags, mode);
}
int __wrap_creat(const char* p, mode_t mode)
{
  if (open_fault(p, O_CREAT))
    return -1;
  return __real_creat(p, mode);
}
int __wrap_ftruncate(int fd, off_t n)
{
  if (fault("ftruncate", 1)) {
    errno = ENOSPC;
    return -1;
  }
  return __real_ftruncate(fd, n);
}
int __wrap_ftruncate64(int fd, off64_t n)
{
  if (fault("ftruncate64", 1)) {
    errno = ENOSPC;
    return -1;
  }
  return __real_ftruncate64(fd, n);
}
int __wrap_fallocate(int fd, int m, off_t o, off_t n)
{
  if (fault("fallocate", 1)) {
    errno = ENOSPC;
    return -1;
  }
  return __real_fallocate(fd, m, o, n);
}
int __wrap_posix_fallocate(int fd, off_t o, off_t n)
{
  if (fault("posix_fallocate", 1))
    return ENOSPC;
  return __real_posix_fallocate(fd, o, n);
}
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o)
{
  if (fault("mmap", 1)) {
    errno = ENOMEM;
    return MAP_FAILED;
  }
  return __real_mmap(a, n, p, f, fd, o);
}
void* __wrap_mmap64(void* a, size_t n, int p, int f, int fd, off64_t o)
{
  if (fault("mmap", 1)) {
    errno = ENOMEM;
    return MAP_FAILED;
  }
  return __real_mmap64(a, n, p, f, fd, o);
}
}

namespace {
namespace ur = umpire::resource;

struct Arm {
  Arm(mc::Ctx& c)
  {
    g_faulted = false;
    g_c = &c;
  }
  ~Arm()
  {
    g_c = nullptr;
  }
};

struct File {
  std::string path;
  ino_t ino;
  off_t size;
};
struct Map {
  uintptr_t b, e;
  ino_t ino;
  bool deleted;
};

void list_dir(const std::string& d, std::vector<File>& out)
{
  DIR* D = opendir(d.c_str());
  if (!D)
    return;
  while (dirent* e = readdir(D)) {
    std::string n = e->d_name;
    if (n == "." || n == "..")
      continue;
    std::string p = d + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st))
      continue;
    if (S_ISDIR(st.st_mode))
      list_dir(p, out);
    else
      out.push_back({p, st.st_ino, st.st_size});
  }
  closedir(D);
}

std::string slurp_proc(const char* path)
{
  static char buf[1 << 18];
  int fd = __real_open(path, O_RDONLY, 0);
  std::size_t n = 0;
  ssize_t k;
  while (n < sizeof buf && (k = read(fd, buf + n, sizeof buf - n)) > 0)
    n += k;
  close(fd);
  return std::string(buf, n);
}

std::vector<Map> maps()
{
  std::vector<Map> out;
  std::string t = slurp_proc("/proc/self/maps");
  std::size_t i = 0;
  while (i < t.size()) {
    std::size_t e = t.find('\n', i);
    if (e == std::string::npos)
      e = t.size();
    std::string l = t.substr(i, e - i);
    i = e + 1;
    if (l.find(g_root + "/") == std::string::npos)
      continue;
    unsigned long b, en, ino;
    char perm[8], dev[16];
    unsigned long off;
    if (sscanf(l.c_str(), "%lx-%lx %7s %lx %15s %lu", &b, &en, perm, &off, dev, &ino) != 6)
      continue;
    out.push_back({b, en, (ino_t)ino, l.find("(deleted)") != std::string::npos});
  }
  return out;
}

int count_fds()
{
  int n = 0;
  DIR* D = opendir("/proc/self/fd");
  while (readdir(D))
    ++n;
  closedir(D);
  return n;
}

struct Live {
  unsigned char* p;
  std::size_t n;
  int src;
  int pat;
  ino_t ino;
};

struct Params {
  bool own{false}; // two resource objects instead of the registered one
  std::vector<std::size_t> sizes;
  int depth{3};
  int faults{0};
  bool dirs{false};
};

unsigned char pat(const Live& l, std::size_t k)
{
  return (unsigned char)(l.pat * 37 + k % 251 + 1);
}

void purge(const std::string& d)
{
  // only ever below the scratch directory this process made
  std::vector<File> f;
  list_dir(d, f);
  for (auto& x : f)
    unlink(x.path.c_str());
}

void prepare_root()
{
  static pid_t made = 0;
  if (made == getpid())
    return;
  made = getpid();
  const char* s = getenv("VERIF_SCRATCH");
  std::string base = s ? s : ".";
  char* r = realpath(base.c_str(), nullptr);
  g_root = std::string(r ? r : "/nonexistent") + "/file" + S(made);
  free(r);
  mkdir(g_root.c_str(), 0700);
  for (const char* n : {"/A", "/B", "/cwd", "/cwd2"})
    if (mkdir((g_root + n).c_str(), 0700) && errno != EEXIST) {
      perror("scratch");
      _exit(3);
    }
}

void body(mc::Ctx& c, const Params& P)
{
  prepare_root();
  purge(g_root);
  g_foreign.clear();
  g_faults_left = P.faults;
  auto& rm = umpire::ResourceManager::getInstance();
  umpire::Allocator al = rm.getAllocator("FILE");
  if (chdir((g_root + "/cwd").c_str()))
    _exit(3);
  setenv("UMPIRE_MEMORY_FILE_DIR", (g_root + "/A/").c_str(), 1);
  std::string dir = g_root + "/A";

  std::unique_ptr<ur::FileMemoryResource> res[2];
  if (P.own)
    for (int i = 0; i < 2; ++i)
      res[i].reset(new ur::FileMemoryResource(umpire::Platform::host, "F" + S(i), 900 + i, umpire::MemoryResourceTraits{}));
  const int base_fds = count_fds();
  const std::size_t base_maps = maps().size();
  if (base_maps)
    c.prune("mappings of an earlier history");
  std::vector<Live> live;
  int serial = 0;

  auto observe = [&](const char* when, bool failed, int fds_before) {
    if (c.replayed())
      return;
    auto fs = std::vector<File>();
    list_dir(g_root, fs);
    auto ms = maps();
    std::map<ino_t, const File*> by;
    for (auto& f : fs)
      by[f.ino] = &f;
    std::set<ino_t> used;
    for (auto& l : live) {
      auto f = by.find(l.ino);
      c.require_f(f != by.end(), [&] { return std::string(when) + ": the file of a live allocation is gone"; });
      c.require_f(f->second->size >= (off_t)l.n, [&] { return std::string(when) + ": file of " + S(f->second->size) + " bytes for an allocation of " + S(l.n); });
      c.require_f(used.insert(l.ino).second, [&] { return std::string(when) + ": two allocations share a file"; });
      uintptr_t at = (uintptr_t)l.p, end = at + l.n;
      bool moved = true;
      while (at < end && moved) {
        moved = false;
        for (auto& m : ms)
          if (m.ino == l.ino && m.b <= at && at < m.e) {
            at = m.e;
            moved = true;
          }
      }
      c.require_f(at >= end, [&] { return std::string(when) + ": part of an allocation is not a mapping of its file"; });
      for (std::size_t k = 0; k < l.n; ++k)
        if (l.p[k] != pat(l, k))
          c.fail(std::string(when) + ": contents of a live allocation changed at byte " + S(k));
      int fd = __real_open(f->second->path.c_str(), O_RDONLY, 0);
      std::vector<unsigned char> b(l.n);
      bool same = fd >= 0 && pread(fd, b.data(), l.n, 0) == (ssize_t)l.n && !memcmp(b.data(), l.p, l.n);
      close(fd);
      c.require_f(same, [&] { return std::string(when) + ": the file does not hold the contents of its allocation"; });
    }
    std::size_t other = 0;
    for (auto& f : fs) {
      bool foreign = std::find(g_foreign.begin(), g_foreign.end(), f.path) != g_foreign.end();
      if (!used.count(f.ino) && !foreign) {
        ++other;
        c.fail(std::string(when) + ": file " + f.path.substr(g_root.size()) + " is left behind");
      }
      c.require_f(!(foreign && used.count(f.ino)), [&] { return std::string(when) + ": a file that already existed is used for an allocation"; });
    }
    c.check();
    for (auto& m : ms)
      c.require_f(used.count(m.ino) && !m.deleted, [&] { return std::string(when) + ": a mapping is left behind"; });
    int fds = count_fds();
    if (failed)
      c.require_f(fds == fds_before, [&] { return std::string(when) + ": a failed allocation leaves a descriptor open"; });
    c.require_f(fds <= base_fds + (int)live.size(), [&] { return std::string(when) + ": descriptors are left open"; });
    if (!P.own) {
      std::size_t sum = 0;
      for (auto& l : live)
        sum += l.n;
      c.require_f(al.getCurrentSize() == sum && al.getAllocationCount() == live.size(), [&] {
        return std::string(when) + ": statistics say " + S(al.getCurrentSize()) + " bytes in " + S(al.getAllocationCount()) + " allocations, live are " +
               S(sum) + " in " + S(live.size());
      });
      c.require_f(umpire::get_allocator_records(al).size() == live.size(), [&] { return std::string(when) + ": wrong number of records"; });
    }
    mc::Hash h;
    for (auto& l : live)
      h.add(l.n).add(l.src);
    h.add(fs.size()).add(g_foreign.size()).add(dir);
    c.state(h.h);
  };

  auto do_free = [&](std::size_t i) {
    Live l = live[i];
    c.log("free allocation " + S(l.pat) + " of " + S(l.n));
    live.erase(live.begin() + i);
    try {
      if (P.own)
        res[l.src]->deallocate(l.p, l.n);
      else
        al.deallocate(l.p);
    } catch (std::exception& e) {
      c.fail(std::string("free raises an error: ") + e.what());
    }
    observe("after free", false, 0);
  };

  enum { NDIR = 5 };
  for (int s = 0; s < P.depth; ++s) {
    const int nsrc = P.own ? 2 : 1;
    const int na = (int)P.sizes.size() * nsrc;
    const int nd = P.dirs ? NDIR : 0;
    int k = c.choose(1 + na + (int)live.size() + nd);
    if (k == 0)
      break;
    --k;
    c.step();
    if (k < na) {
      std::size_t n = P.sizes[k % P.sizes.size()];
      int src = k / (int)P.sizes.size();
      const int before = count_fds();
      c.log("allocate " + S(n) + (P.own ? " from object " + S(src) : ""));
      unsigned char* p = nullptr;
      bool failed = false;
      {
        std::string what;
        try {
          Arm a(c);
          p = static_cast<unsigned char*>(P.own ? res[src]->allocate(n) : al.allocate(n));
        } catch (mc::Diverged&) {
          throw;
        } catch (std::exception& e) {
          failed = true;
        }
      }
      c.log(failed ? "  -> error" : "  -> ok");
      if (failed) {
        c.require_f(g_faulted || n > (std::size_t(1) << 40), [&] { return "allocation of " + S(n) + " fails although every system call succeeds"; });
        observe("after a failed allocation", true, before);
      } else {
        c.require_f(p != nullptr && (uintptr_t)p + n > (uintptr_t)p, [&] { return "allocation of " + S(n) + " returns an impossible block"; });
        Live l{p, n, src, ++serial, 0};
        for (auto& m : maps())
          if (m.b <= (uintptr_t)p && (uintptr_t)p < m.e)
            l.ino = m.ino;
        c.require(l.ino != 0, "allocation is not a mapping of a file below the scratch directory");
        if (n < (1u << 20)) {
          std::vector<File> fs;
          list_dir(dir, fs);
          bool in = false;
          for (auto& f : fs)
            in |= f.ino == l.ino && f.size >= (off_t)n;
          c.require(in, "the file of a new allocation is not in the configured directory or too small");
          for (auto& o : live)
            c.require(o.ino != l.ino, "two allocations share a file");
          for (std::size_t i = 0; i < n; ++i)
            if (p[i])
              c.fail("new allocation is not zero filled at byte " + S(i));
          for (std::size_t i = 0; i < n; ++i)
            p[i] = pat(l, i);
          live.push_back(l);
          observe("after allocate", false, 0);
        } else {
          // huge: only its extent can be judged
          uintptr_t at = (uintptr_t)p;
          for (auto& m : maps())
            if (m.ino == l.ino && m.b <= at)
              at = m.e;
          c.require_f(at - (uintptr_t)p >= n, [&] { return "allocation of " + S(n) + " maps only " + S(at - (uintptr_t)p) + " bytes"; });
          // ... and its two ends (the file stays sparse)
          std::vector<File> fs;
          list_dir(dir, fs);
          std::string path;
          for (auto& f : fs)
            if (f.ino == l.ino) {
              path = f.path;
              c.require_f((std::size_t)f.size >= n, [&] { return "file of " + S(f.size) + " bytes for an allocation of " + S(n); });
            }
          c.require(!path.empty(), "the file of a new allocation is not in the configured directory");
          if (n <= (std::size_t(1) << 40)) {
            c.require(!p[0] && !p[n - 1], "new allocation is not zero filled");
            p[0] = 17;
            p[n - 1] = 34;
            int fd = __real_open(path.c_str(), O_RDONLY, 0);
            unsigned char b0 = 0, b1 = 0;
            bool same = fd >= 0 && pread(fd, &b0, 1, 0) == 1 && pread(fd, &b1, 1, (off_t)n - 1) == 1 && b0 == 17 && b1 == 34;
            close(fd);
            c.require(same, "the file does not hold the contents of its allocation");
          }
          if (P.own)
            res[src]->deallocate(p, n);
          else
            al.deallocate(p);
          observe("after huge", false, 0);
        }
      }
    } else if (k < na + (int)live.size()) {
      do_free(k - na);
    } else {
      switch (k - na - (int)live.size()) {
        case 0:
          c.log("directory := B/");
          setenv("UMPIRE_MEMORY_FILE_DIR", (g_root + "/B/").c_str(), 1);
          dir = g_root + "/B";
          break;
        case 1:
          c.log("directory := B (no trailing slash)");
          setenv("UMPIRE_MEMORY_FILE_DIR", (g_root + "/B").c_str(), 1);
          dir = g_root + "/B";
          break;
        case 2:
          c.log("directory not configured");
          unsetenv("UMPIRE_MEMORY_FILE_DIR");
          {
            char b[4096];
            dir = getcwd(b, sizeof b) ? b : "";
          }
          break;
        case 3:
          c.log("directory := ../A/");
          setenv("UMPIRE_MEMORY_FILE_DIR", "../A/", 1);
          dir = g_root + "/A";
          break;
        case 4: {
          char b[4096];
          std::string here = getcwd(b, sizeof b) ? b : "";
          bool second = here == g_root + "/cwd2";
          std::string to = g_root + (second ? "/cwd" : "/cwd2");
          c.log("chdir " + to.substr(g_root.size()));
          if (chdir(to.c_str()))
            _exit(3);
          if (dir == here)
            dir = to;
          break;
        }
      }
    }
  }
  if (P.own) {
    // destruction of a resource returns what is still allocated from it
    for (int i = 0; i < 2; ++i) {
      c.log("destroy object " + S(i));
      res[i].reset();
      std::vector<Live> rest;
      for (auto& l : live)
        if (l.src != i)
          rest.push_back(l);
      live.swap(rest);
      observe("after destruction", false, 0);
    }
  } else {
    while (!live.empty())
      do_free(0);
  }
  if (!c.replayed()) {
    c.require(count_fds() == base_fds, "descriptors remain open after everything was freed");
    c.require(maps().empty(), "mappings remain after everything was freed");
  }
}

// P04 for the memory resources themselves, through the public interface
void body_stats(mc::Ctx& c, const std::string& name, int depth)
{
  prepare_root();
  setenv("UMPIRE_MEMORY_FILE_DIR", (g_root + "/A/").c_str(), 1);
  auto& rm = umpire::ResourceManager::getInstance();
  umpire::Allocator al = rm.getAllocator(name);
  std::size_t cur = al.getCurrentSize(), cnt = al.getAllocationCount(), hwm = al.getHighWatermark();
  c.require(cur == 0 && cnt == 0, "statistics of an unused resource are not zero");
  struct L {
    void* p;
    std::size_t n;
  };
  std::vector<L> live;
  const std::size_t sizes[] = {1, 100, 4097, 0};
  auto judge = [&](const char* when) {
    if (c.replayed())
      return;
    c.require_f(al.getCurrentSize() == cur && al.getAllocationCount() == cnt && al.getHighWatermark() == hwm && al.getActualSize() == cur, [&] {
      return std::string(when) + ": current size, count, watermark, actual size are " + S(al.getCurrentSize()) + ", " + S(al.getAllocationCount()) + ", " +
             S(al.getHighWatermark()) + ", " + S(al.getActualSize()) + " instead of " + S(cur) + ", " + S(cnt) + ", " + S(hwm) + ", " + S(cur);
    });
    mc::Hash h;
    h.add(cur).add(cnt).add(hwm);
    c.state(h.h);
  };
  for (int s = 0; s < depth; ++s) {
    int k = c.choose(6 + (int)live.size());
    if (k == 0)
      break;
    c.step();
    if (k <= 5) {
      std::size_t n = k <= 4 ? sizes[k - 1] : ~std::size_t(0) - 4096;
      c.log("allocate " + S(n));
      try {
        void* p = k == 2 && name != "FILE" ? al.allocate("named", n) : al.allocate(n);
        live.push_back({p, n});
        cur += n;
        ++cnt;
        hwm = std::max(hwm, cur);
      } catch (std::exception&) {
        c.require(k == 5, "an allocation fails");
      }
      judge("after allocate");
    } else {
      L l = live[k - 6];
      live.erase(live.begin() + (k - 6));
      c.log("free " + S(l.n));
      al.deallocate(l.p);
      cur -= l.n;
      --cnt;
      judge("after free");
    }
  }
  for (auto& l : live)
    al.deallocate(l.p);
  cur = cnt = 0;
  judge("after everything was freed");
}

std::vector<mc::Config> make(const mc::Options& o)
{
  bool th = o.tier == "thorough";
  std::vector<mc::Config> v;
  if (o.property == "P04") {
    for (const char* n : {"HOST", "FILE"}) {
      mc::Config c;
      const int depth = th ? 7 : 5;
      c.name = std::string("resource/") + n;
      c.body = [=](mc::Ctx& x) { body_stats(x, n, depth); };
      c.bounds = "resource " + std::string(n) + " directly, sizes 0, 1, 100, 4097 and an unsatisfiable one, " + S(depth) + " steps";
      c.split = 2;
      v.push_back(c);
    }
    return v;
  }
  const std::size_t M = ~std::size_t(0);
  auto add = [&](const std::string& n, Params p, const std::string& b) {
    mc::Config c;
    c.name = n;
    c.body = [p](mc::Ctx& x) { body(x, p); };
    c.bounds = b + ", " + S(p.depth) + " steps, at most " + S(p.faults) + " failing system calls per history";
    c.split = 2;
    c.segment = 2000;
    v.push_back(c);
  };
  Params p;
  p.sizes = {1, 4096, 4097};
  p.depth = th ? 6 : 5;
  p.faults = th ? 2 : 1;
  add("allocator", p, "sizes 1, 4096, 4097 through the FILE allocator");
  p.depth = th ? 5 : 4;
  p.faults = th ? 4 : 3;
  p.sizes = {4095, 12288};
  add("allocator-faults", p, "sizes 4095, 12288 through the FILE allocator");
  p.own = true;
  p.sizes = {100, 8192};
  p.depth = th ? 5 : 4;
  p.faults = 2;
  add("two-objects", p, "sizes 100, 8192 from two resource objects that are destroyed at the end");
  Params d;
  d.dirs = true;
  d.sizes = {5000};
  d.depth = th ? 6 : 5;
  add("directories", d, "size 5000, changes of the configured and of the working directory");
  Params h;
  h.depth = 2;
  h.faults = 1;
  h.sizes = {1, 4095, 4096, 4097};
  for (std::size_t e : {0, 1, 2, 15, 16, 4094, 4095, 4096, 4097, 8191, 8192})
    h.sizes.push_back(M - e);
  for (int b : {31, 32, 33, 62, 63})
    for (int e : {-1, 0, 1})
      h.sizes.push_back((std::size_t(1) << b) + e);
  add("sizes", h, "page boundaries and " + S(h.sizes.size() - 4) + " sizes near the largest and powers of two");
  return v;
}
} // namespace

int main(int argc, char** argv)
{
  return mc::mc_main(argc, argv, make);
}
