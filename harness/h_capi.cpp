// P25: the C interface against the C++ interface.
//
// A history is a program of operations.  It is executed twice, each time in a
// process forked from the same state: once through the C functions, once
// through the C++ calls they stand for.  The host resource hands out addresses
// from an arena that never reuses one, so that everything either program can
// observe - results, which block it got, contents, statistics, names, errors -
// has to be the same, and is compared step by step.
#include "mc.hpp"

#include <map>
#include <memory>

#include "umpire/Allocator.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/interface/c_fortran/umpire.h"
#include "umpire/strategy/AllocationAdvisor.hpp"
#include "umpire/strategy/AllocationPrefetcher.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"

using umpire::Allocator;
using umpire::ResourceManager;
namespace st = umpire::strategy;

// ------------------------------------------------------ the host's memory

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t);
void __wrap_free(void*);
void* __wrap_realloc(void*, size_t);
}

namespace {
constexpr size_t ARENA = (size_t)4 << 30;
unsigned char* g_arena = nullptr;
size_t g_top = 0;
bool g_on = false;

bool in_arena(const void* p)
{
  return g_arena && (unsigned char*)p >= g_arena && (unsigned char*)p < g_arena + ARENA;
}
} // namespace

extern "C" void* __wrap_malloc(size_t n)
{
  if (!g_on)
    return __real_malloc(n);
  if (n > ARENA - g_top - 64)
    return nullptr;
  size_t need = ((n + 16 + 15) / 16) * 16;
  unsigned char* p = g_arena + g_top;
  *(size_t*)p = n;
  g_top += need + 16;
  return p + 16;
}
extern "C" void __wrap_free(void* p)
{
  if (!in_arena(p))
    __real_free(p);
}
extern "C" void* __wrap_realloc(void* p, size_t n)
{
  if (!g_on || (p && !in_arena(p)))
    return __real_realloc(p, n);
  void* q = __wrap_malloc(n);
  if (p && q) {
    size_t o = *(size_t*)((unsigned char*)p - 16);
    memcpy(q, p, o < n ? o : n);
  }
  return q;
}

namespace {

template <typename T>
std::string S(const T& x)
{
  std::ostringstream s;
  s << x;
  return s.str();
}

std::string show(const std::string& s)
{
  std::string r;
  char b[8];
  for (unsigned char c : s) {
    if (c >= 32 && c < 127 && c != '\\')
      r += (char)c;
    else {
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    }
  }
  return "\"" + r + "\"";
}

// A region for register_allocation, outside of every allocator.
alignas(64) unsigned char g_region[64];

enum Kind { LIST, QUICK, ADVISOR, NAMED, TS, FIXED, PREFETCH };
const char* const kind_name[] = {"list_pool", "quick_pool", "advisor", "named", "thread_safe", "fixed_pool", "prefetcher"};

struct Str {
  std::string s;
  bool buf; // given with its length
  // what the function gets: with a length, the characters are not terminated
  std::string raw() const
  {
    return buf ? s + "ZZ" : s;
  }
};

// ---------------------------------------------------------------- C++ side

struct Cxx {
  static constexpr bool is_c = false;
  std::vector<std::unique_ptr<Allocator>> h;
  ResourceManager& rm()
  {
    return ResourceManager::getInstance();
  }
  bool has(int i)
  {
    return h[i] != nullptr;
  }
  void grow()
  {
    h.push_back(nullptr);
  }
  void put(Allocator a)
  {
    h.back().reset(new Allocator(a));
  }
  void by_name(const Str& s)
  {
    put(rm().getAllocator(s.s));
  }
  void by_id(int id)
  {
    put(rm().getAllocator(id));
  }
  void for_ptr(void* p)
  {
    put(rm().getAllocator(p));
  }
  void create(Kind k, const Str& n, int parent, size_t a, size_t b, const Str& op, int dev)
  {
    Allocator& p = *h[parent];
    switch (k) {
      case LIST:
        put(rm().makeAllocator<st::DynamicPoolList>(n.s, p, a, b));
        break;
      case QUICK:
        put(rm().makeAllocator<st::QuickPool>(n.s, p, a, b));
        break;
      case ADVISOR:
        put(rm().makeAllocator<st::AllocationAdvisor>(n.s, p, op.s, dev));
        break;
      case NAMED:
        put(rm().makeAllocator<st::NamedAllocationStrategy>(n.s, p));
        break;
      case TS:
        put(rm().makeAllocator<st::ThreadSafeAllocator>(n.s, p));
        break;
      case FIXED:
        put(rm().makeAllocator<st::FixedPool>(n.s, p, a));
        break;
      case PREFETCH:
        put(rm().makeAllocator<st::AllocationPrefetcher>(n.s, p, dev));
        break;
    }
  }
  void add_alias(const Str& n, int i)
  {
    rm().addAlias(n.s, *h[i]);
  }
  void remove_alias(const Str& n, int i)
  {
    rm().removeAlias(n.s, *h[i]);
  }
  bool is_name(const Str& n)
  {
    return rm().isAllocator(n.s);
  }
  bool is_id(int id)
  {
    return rm().isAllocator(id);
  }
  bool has_allocator(void* p)
  {
    return rm().hasAllocator(p);
  }
  void copy_all(void* a, void* b)
  {
    rm().copy(a, b);
  }
  void copy(void* a, void* b, size_t n)
  {
    rm().copy(a, b, n);
  }
  void memset_all(void* p, int v)
  {
    rm().memset(p, v);
  }
  void memset(void* p, int v, size_t n)
  {
    rm().memset(p, v, n);
  }
  void* realloc_default(void* p, size_t n)
  {
    return rm().reallocate(p, n);
  }
  void* realloc_with(void* p, size_t n, int i)
  {
    return rm().reallocate(p, n, *h[i]);
  }
  void* move(void* p, int i)
  {
    return rm().move(p, *h[i]);
  }
  void rm_dealloc(void* p)
  {
    rm().deallocate(p);
  }
  size_t rm_size(void* p)
  {
    return rm().getSize(p);
  }
  void reg(void* p, size_t n, int i)
  {
    rm().registerAllocation(p, umpire::util::AllocationRecord{p, n, h[i]->getAllocationStrategy()});
  }
  void dereg(void* p)
  {
    rm().deregisterAllocation(p);
  }
  void* allocate(int i, size_t n)
  {
    return h[i]->allocate(n);
  }
  void deallocate(int i, void* p)
  {
    h[i]->deallocate(p);
  }
  void release(int i)
  {
    h[i]->release();
  }
  size_t a_size(int i, void* p)
  {
    return h[i]->getSize(p);
  }
  size_t hwm(int i)
  {
    return h[i]->getHighWatermark();
  }
  size_t cur(int i)
  {
    return h[i]->getCurrentSize();
  }
  size_t act(int i)
  {
    return h[i]->getActualSize();
  }
  size_t cnt(int i)
  {
    return h[i]->getAllocationCount();
  }
  std::string name(int i)
  {
    return h[i]->getName().c_str();
  }
  std::string name_buf(int i)
  {
    return h[i]->getName();
  }
  size_t id(int i)
  {
    return (size_t)h[i]->getId();
  }
  void del(int i)
  {
    h[i].reset();
  }
  void destroy(int i)
  {
    h[i].reset();
  }
  bool overlaps(void* a, void* b)
  {
    return umpire::pointer_overlaps(a, b);
  }
  bool contains(void* a, void* b)
  {
    return umpire::pointer_contains(a, b);
  }
  std::string backtrace(void* p)
  {
    return umpire::get_backtrace(p);
  }
  std::string usage()
  {
    return "as in C++";
  }
  std::string version()
  {
    return S(umpire::get_major_version()) + "." + S(umpire::get_minor_version()) + "." + S(umpire::get_patch_version());
  }
  Allocator* cxx(int i)
  {
    return h[i].get();
  }
};

// ------------------------------------------------------------------ C side

struct C {
  static constexpr bool is_c = true;
  std::vector<umpire_allocator> h;
  umpire_resourcemanager r;
  std::string complaint;
  C()
  {
    r.addr = nullptr;
    r.idtor = 7;
    umpire_resourcemanager* p = umpire_resourcemanager_get_instance(&r);
    if (p != &r || r.addr != (void*)&ResourceManager::getInstance() || r.idtor != 0)
      complaint = "get_instance does not return the resource manager";
  }
  bool has(int i)
  {
    return h[i].addr != nullptr;
  }
  void grow()
  {
    umpire_allocator a;
    a.addr = nullptr;
    a.idtor = 0;
    h.push_back(a);
  }
  void ret(umpire_allocator* p)
  {
    if (p != &h.back())
      complaint = "the handle returned is not the one given";
    else if (!p->addr)
      complaint = "no handle is returned";
    else if (p->idtor != 1)
      complaint = "the handle is not marked as owning";
  }
  void by_name(const Str& s)
  {
    if (s.buf)
      ret(umpire_resourcemanager_get_allocator_by_name_bufferify(&r, s.raw().data(), (int)s.s.size(), &h.back()));
    else
      ret(umpire_resourcemanager_get_allocator_by_name(&r, s.raw().c_str(), &h.back()));
  }
  void by_id(int id)
  {
    ret(umpire_resourcemanager_get_allocator_by_id(&r, id, &h.back()));
  }
  void for_ptr(void* p)
  {
    ret(umpire_resourcemanager_get_allocator_for_ptr(&r, p, &h.back()));
  }
  void create(Kind k, const Str& n, int parent, size_t a, size_t b, const Str& op, int dev)
  {
    umpire_allocator p = h[parent];
    const std::string raw = n.raw(), oraw = op.raw();
    const char* s = raw.c_str();
    const int L = (int)n.s.size();
    umpire_allocator* o = &h.back();
    switch (k) {
      case LIST:
        ret(n.buf ? umpire_resourcemanager_make_allocator_bufferify_list_pool(&r, s, L, p, a, b, o)
                  : umpire_resourcemanager_make_allocator_list_pool(&r, s, p, a, b, o));
        break;
      case QUICK:
        ret(n.buf ? umpire_resourcemanager_make_allocator_bufferify_quick_pool(&r, s, L, p, a, b, o)
                  : umpire_resourcemanager_make_allocator_quick_pool(&r, s, p, a, b, o));
        break;
      case ADVISOR:
        ret(n.buf ? umpire_resourcemanager_make_allocator_bufferify_advisor(&r, s, L, p, oraw.c_str(), (int)op.s.size(), dev, o)
                  : umpire_resourcemanager_make_allocator_advisor(&r, s, p, oraw.c_str(), dev, o));
        break;
      case NAMED:
        ret(n.buf ? umpire_resourcemanager_make_allocator_bufferify_named(&r, s, L, p, o)
                  : umpire_resourcemanager_make_allocator_named(&r, s, p, o));
        break;
      case TS:
        ret(n.buf ? umpire_resourcemanager_make_allocator_bufferify_thread_safe(&r, s, L, p, o)
                  : umpire_resourcemanager_make_allocator_thread_safe(&r, s, p, o));
        break;
      case FIXED:
        ret(n.buf ? umpire_resourcemanager_make_allocator_bufferify_fixed_pool(&r, s, L, p, a, o)
                  : umpire_resourcemanager_make_allocator_fixed_pool(&r, s, p, a, o));
        break;
      case PREFETCH:
        ret(n.buf ? umpire_resourcemanager_make_allocator_bufferify_prefetcher(&r, s, L, p, dev, o)
                  : umpire_resourcemanager_make_allocator_prefetcher(&r, s, p, dev, o));
        break;
    }
  }
  void add_alias(const Str& n, int i)
  {
    if (n.buf)
      umpire_resourcemanager_add_alias_bufferify(&r, n.raw().data(), (int)n.s.size(), h[i]);
    else
      umpire_resourcemanager_add_alias(&r, n.raw().c_str(), h[i]);
  }
  void remove_alias(const Str& n, int i)
  {
    if (n.buf)
      umpire_resourcemanager_remove_alias_bufferify(&r, n.raw().data(), (int)n.s.size(), h[i]);
    else
      umpire_resourcemanager_remove_alias(&r, n.raw().c_str(), h[i]);
  }
  bool is_name(const Str& n)
  {
    return n.buf ? umpire_resourcemanager_is_allocator_name_bufferify(&r, n.raw().data(), (int)n.s.size())
                 : umpire_resourcemanager_is_allocator_name(&r, n.raw().c_str());
  }
  bool is_id(int id)
  {
    return umpire_resourcemanager_is_allocator_id(&r, id);
  }
  bool has_allocator(void* p)
  {
    return umpire_resourcemanager_has_allocator(&r, p);
  }
  void copy_all(void* a, void* b)
  {
    umpire_resourcemanager_copy_all(&r, a, b);
  }
  void copy(void* a, void* b, size_t n)
  {
    umpire_resourcemanager_copy_with_size(&r, a, b, n);
  }
  void memset_all(void* p, int v)
  {
    umpire_resourcemanager_memset_all(&r, p, v);
  }
  void memset(void* p, int v, size_t n)
  {
    umpire_resourcemanager_memset_with_size(&r, p, v, n);
  }
  void* realloc_default(void* p, size_t n)
  {
    return umpire_resourcemanager_reallocate_default(&r, p, n);
  }
  void* realloc_with(void* p, size_t n, int i)
  {
    return umpire_resourcemanager_reallocate_with_allocator(&r, p, n, h[i]);
  }
  void* move(void* p, int i)
  {
    return umpire_resourcemanager_move(&r, p, h[i]);
  }
  void rm_dealloc(void* p)
  {
    umpire_resourcemanager_deallocate(&r, p);
  }
  size_t rm_size(void* p)
  {
    return umpire_resourcemanager_get_size(&r, p);
  }
  void reg(void* p, size_t n, int i)
  {
    umpire_resourcemanager_register_allocation(&r, p, n, h[i]);
  }
  void dereg(void* p)
  {
    umpire_resourcemanager_deregister_allocation(&r, p);
  }
  void* allocate(int i, size_t n)
  {
    return umpire_allocator_allocate(&h[i], n);
  }
  void deallocate(int i, void* p)
  {
    umpire_allocator_deallocate(&h[i], p);
  }
  void release(int i)
  {
    umpire_allocator_release(&h[i]);
  }
  size_t a_size(int i, void* p)
  {
    return umpire_allocator_get_size(&h[i], p);
  }
  size_t hwm(int i)
  {
    return umpire_allocator_get_high_watermark(&h[i]);
  }
  size_t cur(int i)
  {
    return umpire_allocator_get_current_size(&h[i]);
  }
  size_t act(int i)
  {
    return umpire_allocator_get_actual_size(&h[i]);
  }
  size_t cnt(int i)
  {
    return umpire_allocator_get_allocation_count(&h[i]);
  }
  std::string name(int i)
  {
    return umpire_allocator_get_name(&h[i]);
  }
  std::string take(umpire_SHROUD_array& a)
  {
    std::string s = a.addr.ccharp ? std::string(a.addr.ccharp, a.elem_len) : std::string();
    umpire_SHROUD_memory_destructor(&a.cxx);
    if (a.cxx.addr || a.cxx.idtor)
      complaint = "a released string can be released again";
    return s;
  }
  std::string name_buf(int i)
  {
    umpire_SHROUD_array a;
    ::memset(&a, 0x5a, sizeof a);
    umpire_allocator_get_name_bufferify(&h[i], &a);
    return take(a);
  }
  size_t id(int i)
  {
    return umpire_allocator_get_id(&h[i]);
  }
  void del(int i)
  {
    umpire_allocator_delete(&h[i]);
    if (h[i].addr)
      complaint = "a deleted handle still refers to something";
  }
  void destroy(int i)
  {
    umpire_SHROUD_capsule_data d;
    d.addr = h[i].addr;
    d.idtor = h[i].idtor;
    umpire_SHROUD_memory_destructor(&d);
    if (d.addr || d.idtor)
      complaint = "a destroyed handle still refers to something";
    h[i].addr = nullptr;
  }
  bool overlaps(void* a, void* b)
  {
    return umpire_pointer_overlaps(a, b);
  }
  bool contains(void* a, void* b)
  {
    return umpire_pointer_contains(a, b);
  }
  std::string backtrace(void* p)
  {
    umpire_SHROUD_array a;
    ::memset(&a, 0x5a, sizeof a);
    umpire_get_backtrace_bufferify(p, &a);
    return take(a);
  }
  std::string usage()
  {
    // the high-water mark only grows; the usage is compared while it stays put
    size_t h0 = umpire::get_process_memory_usage_hwm();
    size_t h1 = umpire_get_process_memory_usage_hwm();
    size_t h2 = umpire::get_process_memory_usage_hwm();
    if (h1 < h0 || h1 > h2)
      return "the process' high-water mark is " + S(h1) + " in C and " + S(h0) + " to " + S(h2) + " in C++";
    for (int k = 0; k < 20; ++k) {
      size_t u0 = umpire::get_process_memory_usage();
      size_t u1 = umpire_get_process_memory_usage();
      size_t u2 = umpire::get_process_memory_usage();
      if (u0 != u2)
        continue;
      if (u1 == u0)
        break;
      if (k == 19)
        return "the process' memory usage is " + S(u1) + " in C and " + S(u0) + " in C++";
    }
    if (umpire_get_device_memory_usage(0) != umpire::get_device_memory_usage(0))
      return "the device's memory usage differs";
    return "as in C++";
  }
  std::string version()
  {
    return S(umpire_get_major_version()) + "." + S(umpire_get_minor_version()) + "." + S(umpire_get_patch_version());
  }
  Allocator* cxx(int i)
  {
    return static_cast<Allocator*>(h[i].addr);
  }
};

// ------------------------------------------------------------- the program

// which handle: 0 HOST, 1 the last valid one, 2 the first valid one after HOST
// which pointer: see ptr()
enum OpKind {
  O_CREATE,
  O_BYNAME,
  O_BYID,
  O_FORPTR,
  O_ADDALIAS,
  O_REMALIAS,
  O_DELETE,
  O_DESTROY,
  O_ISNAME,
  O_ISID,
  O_HAS,
  O_ALLOC,
  O_FREE,
  O_RMFREE,
  O_RELEASE,
  O_COPYALL,
  O_COPY,
  O_SETALL,
  O_SET,
  O_REALLOC,
  O_REALLOCW,
  O_MOVE,
  O_SIZE,
  O_REG,
  O_DEREG,
  O_OVER,
  O_MISC
};
const char* const op_name[] = {"create", "by_name", "by_id", "for_ptr", "add_alias", "remove_alias", "delete", "destroy", "is_name", "is_id",
                               "has", "allocate", "deallocate", "rm_deallocate", "release", "copy_all", "copy", "memset_all", "memset",
                               "reallocate", "reallocate_with", "move", "get_size", "register", "deregister", "overlaps/contains",
                               "versions and usage"};

struct Op {
  OpKind k;
  int h{0};             // handle
  int p{0}, q{0};       // pointers
  size_t n{0}, m{0};    // sizes
  Str s{"", false};     // name
  Kind kind{LIST};
  int id{0};
  std::string text() const
  {
    std::string t = op_name[k];
    if (k == O_CREATE)
      t += std::string(" ") + kind_name[kind] + " sizes " + S(n) + " " + S(m);
    t += " handle " + S(h) + " pointers " + S(p) + " " + S(q) + " size " + S(n) + " id/value " + S(id);
    t += std::string(" name ") + show(s.s) + (s.buf ? " with length" : "");
    return t;
  }
};

struct Log {
  char* buf;
  size_t cap, n{0};
  void add(const std::string& s)
  {
    std::string t = s + "\n";
    if (n + t.size() + 1 < cap) {
      memcpy(buf + n, t.data(), t.size());
      n += t.size();
      buf[n] = 0;
    }
  }
};

template <class W>
struct Run {
  W w;
  Log& log;
  struct P {
    unsigned char* p;
    size_t n;
    bool live;
  };
  std::vector<P> ptrs;
  bool region_live{false};
  explicit Run(Log& l) : log(l)
  {
  }
  int handle(int which)
  {
    if (which == 0)
      return w.has(0) ? 0 : -1;
    int r = -1;
    for (int i = 1; i < (int)w.h.size(); ++i)
      if (w.has(i)) {
        r = i;
        if (which == 2)
          break;
      }
    return r;
  }
  // 0: last live, 1: first live, 2: last freed, 3: inside the last live,
  // 4: null, 5: the registered region, 6: inside it, 7: region + 16, 8: region - 8
  bool ptr(int which, void*& o, int* index = nullptr)
  {
    if (index)
      *index = -1;
    switch (which) {
      case 0:
      case 3:
        for (int i = (int)ptrs.size() - 1; i >= 0; --i)
          if (ptrs[i].live) {
            if (which == 3 && ptrs[i].n < 2)
              return false;
            o = ptrs[i].p + (which == 3 ? ptrs[i].n / 2 : 0);
            if (index && which == 0)
              *index = i;
            return true;
          }
        return false;
      case 1:
        for (int i = 0; i < (int)ptrs.size(); ++i)
          if (ptrs[i].live) {
            o = ptrs[i].p;
            if (index)
              *index = i;
            return true;
          }
        return false;
      case 2:
        for (int i = (int)ptrs.size() - 1; i >= 0; --i)
          if (!ptrs[i].live) {
            o = ptrs[i].p;
            return true;
          }
        return false;
      case 4:
        o = nullptr;
        return true;
      case 5:
        o = g_region + 16;
        return true;
      case 6:
        o = g_region + 20;
        return true;
      case 7:
        o = g_region + 32;
        return true;
      default:
        o = g_region + 8;
        return true;
    }
  }
  void got(void* p, size_t n)
  {
    ptrs.push_back({(unsigned char*)p, n, true});
    log.add("  -> " + slot(p));
  }
  // addresses are named by the first result that was equal to them
  std::string slot(void* p)
  {
    if (!p)
      return "null";
    for (size_t i = 0; i < ptrs.size(); ++i)
      if (ptrs[i].p == p)
        return "block " + S(i);
    return "unknown";
  }
  template <typename F>
  bool guarded(F&& f)
  {
    try {
      f();
      return true;
    } catch (const std::exception& e) {
      log.add(std::string("  error"));
      return false;
    }
  }
  template <typename F>
  std::string value(F&& f)
  {
    try {
      return S(f());
    } catch (const std::exception&) {
      return "error";
    }
  }

  void step(const Op& o)
  {
    log.add(o.text());
    int h = handle(o.h);
    void *p = nullptr, *q = nullptr;
    int ip = -1;
    switch (o.k) {
      case O_CREATE:
        if (h < 0)
          return na();
        w.grow();
        guarded([&] { w.create(o.kind, o.s, h, o.n, o.m, Str{"SET_READ_MOSTLY", o.s.buf}, o.id); });
        break;
      case O_BYNAME:
        w.grow();
        guarded([&] { w.by_name(o.s); });
        break;
      case O_BYID:
        w.grow();
        guarded([&] { w.by_id(o.id); });
        break;
      case O_FORPTR:
        if (!ptr(o.p, p))
          return na();
        w.grow();
        guarded([&] { w.for_ptr(p); });
        break;
      case O_ADDALIAS:
        if (h < 0)
          return na();
        guarded([&] { w.add_alias(o.s, h); });
        break;
      case O_REMALIAS:
        if (h < 0)
          return na();
        guarded([&] { w.remove_alias(o.s, h); });
        break;
      case O_DELETE:
        if (h < 0)
          return na();
        guarded([&] { w.del(h); });
        break;
      case O_DESTROY:
        if (h < 0)
          return na();
        guarded([&] { w.destroy(h); });
        break;
      case O_ISNAME:
        log.add("  -> " + value([&] { return w.is_name(o.s); }));
        break;
      case O_ISID:
        log.add("  -> " + value([&] { return w.is_id(o.id); }));
        break;
      case O_HAS:
        if (!ptr(o.p, p))
          return na();
        log.add("  -> " + value([&] { return w.has_allocator(p); }));
        break;
      case O_ALLOC:
        if (h < 0)
          return na();
        guarded([&] {
          void* r = w.allocate(h, o.n);
          for (size_t i = 0; i < o.n; ++i)
            ((unsigned char*)r)[i] = (unsigned char)(17 * (ptrs.size() + 1) + i);
          got(r, o.n);
        });
        break;
      case O_FREE:
        if (h < 0 || !ptr(o.p, p, &ip))
          return na();
        guarded([&] {
          w.deallocate(h, p);
          if (ip >= 0)
            ptrs[ip].live = false;
        });
        break;
      case O_RMFREE:
        if (!ptr(o.p, p, &ip))
          return na();
        guarded([&] {
          w.rm_dealloc(p);
          if (ip >= 0)
            ptrs[ip].live = false;
        });
        break;
      case O_RELEASE:
        if (h < 0)
          return na();
        guarded([&] { w.release(h); });
        break;
      case O_COPYALL:
        if (!ptr(o.p, p) || !ptr(o.q, q))
          return na();
        guarded([&] { w.copy_all(p, q); });
        break;
      case O_COPY:
        if (!ptr(o.p, p) || !ptr(o.q, q))
          return na();
        guarded([&] { w.copy(p, q, o.n); });
        break;
      case O_SETALL:
        if (!ptr(o.p, p))
          return na();
        guarded([&] { w.memset_all(p, o.id); });
        break;
      case O_SET:
        if (!ptr(o.p, p))
          return na();
        guarded([&] { w.memset(p, o.id, o.n); });
        break;
      case O_REALLOC:
      case O_REALLOCW:
      case O_MOVE: {
        if (!ptr(o.p, p, &ip) || (o.k != O_REALLOC && h < 0))
          return na();
        size_t n = o.k == O_MOVE ? (ip >= 0 ? ptrs[ip].n : 0) : o.n, old = ip >= 0 ? ptrs[ip].n : 0;
        guarded([&] {
          void* r = o.k == O_REALLOC ? w.realloc_default(p, o.n) : o.k == O_REALLOCW ? w.realloc_with(p, o.n, h) : w.move(p, h);
          if (ip >= 0)
            ptrs[ip].live = false;
          for (size_t i = old; i < n; ++i)
            ((unsigned char*)r)[i] = (unsigned char)(13 * (ptrs.size() + 1) + i);
          got(r, n);
        });
        break;
      }
      case O_SIZE:
        if (!ptr(o.p, p))
          return na();
        log.add("  -> " + value([&] { return w.rm_size(p); }) + " " + (h < 0 ? "" : value([&] { return w.a_size(h, p); })));
        break;
      case O_REG:
        if (h < 0 || !ptr(o.p, p))
          return na();
        guarded([&] { w.reg(p, o.n, h); });
        break;
      case O_DEREG:
        if (!ptr(o.p, p, &ip))
          return na();
        guarded([&] { w.dereg(p); });
        break;
      case O_OVER:
        if (!ptr(o.p, p) || !ptr(o.q, q))
          return na();
        log.add("  -> " + value([&] { return w.overlaps(p, q); }) + " " + value([&] { return w.contains(p, q); }));
        break;
      case O_MISC:
        log.add("  -> " + w.version() + " " + w.usage());
        if (ptr(0, p))
          log.add("  -> " + value([&] { return show(w.backtrace(p)); }));
        break;
    }
    observe();
  }
  void na()
  {
    log.add("  n/a");
  }
  void observe()
  {
    for (int i = 0; i < (int)w.h.size(); ++i) {
      if (!w.has(i)) {
        log.add("  handle " + S(i) + ": none");
        continue;
      }
      log.add("  handle " + S(i) + ": " + show(w.name(i)) + " " + show(w.name_buf(i)) + " id " + S(w.id(i)) + " current " + S(w.cur(i)) +
              " actual " + S(w.act(i)) + " peak " + S(w.hwm(i)) + " count " + S(w.cnt(i)));
      // the handle stands for the allocator a C++ caller finds
      bool same = false;
      try {
        same = ResourceManager::getInstance().getAllocator((int)w.id(i)).getAllocationStrategy() == w.cxx(i)->getAllocationStrategy();
      } catch (const std::exception&) {
      }
      log.add(std::string("    refers to the registered allocator: ") + (same ? "yes" : "no"));
    }
    for (auto& p : ptrs)
      if (p.live) {
        std::string t;
        char b[4];
        for (size_t i = 0; i < p.n && i < 80; ++i) {
          snprintf(b, sizeof b, "%02x", p.p[i]);
          t += b;
        }
        log.add("  " + slot(p.p) + ": " + value([&] { return w.rm_size(p.p); }) + " bytes " + t);
      }
    for (const char* n : {"HOST", "A", "B"})
      log.add(std::string("  ") + n + ": " + (ResourceManager::getInstance().isAllocator(std::string(n)) ? "known" : "unknown"));
  }
};

const std::vector<Op>* g_setup = nullptr;

template <class W>
void execute(const std::vector<Op>& prog, char* buf, size_t cap)
{
  Log log{buf, cap};
  Run<W> r(log);
  r.w.grow();
  r.w.by_name(Str{"HOST", false});
  for (auto& o : prog)
    r.step(o);
  // all handles go; what was allocated stays
  for (int i = 0; i < (int)r.w.h.size(); ++i)
    if (r.w.has(i)) {
      if (i % 2)
        r.w.del(i);
      else
        r.w.destroy(i);
    }
  log.add("all handles deleted");
  for (auto& p : r.ptrs)
    if (p.live) {
      log.add("  " + r.slot(p.p) + ": " + r.value([&] { return ResourceManager::getInstance().getSize(p.p); }));
      log.add("  freed: " + r.value([&] {
        ResourceManager::getInstance().deallocate(p.p);
        return 1;
      }));
    }
  for (int id : ResourceManager::getInstance().getAllocatorIds()) {
    log.add("  allocator " + S(id) + " " + r.value([&] {
      auto a = ResourceManager::getInstance().getAllocator(id);
      return show(a.getName()) + " " + S(a.getCurrentSize()) + " " + S(a.getActualSize()) + " " + S(a.getHighWatermark()) + " " +
             S(a.getAllocationCount());
    }));
  }
  log.add("end");
}

constexpr size_t CAP = 1u << 17;
char* g_buf[2] = {nullptr, nullptr};
char* g_complaint = nullptr;

void run_side(mc::Ctx& c, int side, const std::vector<Op>& prog)
{
  g_buf[side][0] = 0;
  pid_t pid = fork();
  if (pid < 0)
    c.prune("fork failed");
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    alarm(15);
    g_on = true;
    if (side == 0) {
      execute<Cxx>(prog, g_buf[0], CAP);
    } else {
      g_complaint[0] = 0;
      Log log{g_buf[1], CAP};
      execute<C>(prog, g_buf[1], CAP);
    }
    _exit(0);
  }
  int stt = 0;
  while (waitpid(pid, &stt, 0) < 0 && errno == EINTR) {
  }
  if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) {
    std::string end = WIFSIGNALED(stt) ? "signal " + S(WTERMSIG(stt)) : "status " + S(WEXITSTATUS(stt));
    size_t n = strlen(g_buf[side]);
    snprintf(g_buf[side] + n, CAP - n, "ended by %s\n", end.c_str());
  }
}

std::vector<std::string> lines(const char* s)
{
  std::vector<std::string> v;
  std::istringstream in(s);
  std::string l;
  while (std::getline(in, l))
    v.push_back(l);
  return v;
}

void compare(mc::Ctx& c, const std::vector<Op>& prog)
{
  if (!g_buf[0]) {
    void* m = mmap(nullptr, 2 * CAP + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED)
      c.prune("no memory");
    g_buf[0] = (char*)m;
    g_buf[1] = g_buf[0] + CAP;
    g_complaint = g_buf[1] + CAP;
  }
  run_side(c, 0, prog);
  run_side(c, 1, prog);
  auto a = lines(g_buf[0]), b = lines(g_buf[1]);
  if (c.verbose)
    for (auto& l : a)
      c.log(l);
  if (!a.empty() && a.back() != "end")
    c.prune("the C++ program does not end: " + a.back()); // not this property's business
  for (size_t i = 0; i < a.size() || i < b.size(); ++i) {
    std::string x = i < a.size() ? a[i] : "(nothing)", y = i < b.size() ? b[i] : "(nothing)";
    if (x == y)
      continue;
    std::string op;
    for (size_t k = i + 1; k-- > 0;)
      if (k < a.size() && a[k][0] != ' ') {
        op = a[k];
        break;
      }
    c.fail("after " + op + ": C++ gives '" + x + "', C gives '" + y + "'");
  }
  for (size_t i = 0; i < a.size(); ++i)
    c.check();
  mc::Hash h;
  for (auto& l : a)
    h.add(l);
  c.state(h.h);
}

void menu_body(mc::Ctx& c, const std::vector<Op>& setup, const std::vector<Op>& menu, int depth)
{
  std::vector<Op> prog = setup;
  for (int d = 0; d < depth; ++d) {
    prog.push_back(menu[c.choose((int)menu.size())]);
    c.step();
  }
  compare(c, prog);
}

Op mk(OpKind k)
{
  Op o;
  o.k = k;
  return o;
}
Op create(Kind kd, const std::string& name, bool buf, int h, size_t n = 256, size_t m = 512, int dev = 0)
{
  Op o = mk(O_CREATE);
  o.kind = kd;
  o.s = Str{name, buf};
  o.h = h;
  o.n = kd == FIXED ? 24 : n;
  o.m = m;
  o.id = dev;
  return o;
}
Op named(OpKind k, const std::string& name, bool buf, int h = 1)
{
  Op o = mk(k);
  o.s = Str{name, buf};
  o.h = h;
  return o;
}
Op ids(OpKind k, int id)
{
  Op o = mk(k);
  o.id = id;
  return o;
}
Op hp(OpKind k, int h, int p, int q = 0, size_t n = 0, int v = 0)
{
  Op o = mk(k);
  o.h = h;
  o.p = p;
  o.q = q;
  o.n = n;
  o.id = v;
  return o;
}

std::vector<mc::Config> make(const mc::Options& o)
{
  const bool T = o.tier == "thorough";
  std::vector<mc::Config> v;
  auto add = [&](const std::string& n, std::function<void(mc::Ctx&)> f, const std::string& b, int split = 2) {
    mc::Config c;
    c.name = n;
    c.body = f;
    c.bounds = b;
    c.split = split;
    c.segment = 4000;
    v.push_back(c);
  };
  auto menu = [&](const std::string& n, const std::vector<Op>& setup, const std::vector<Op>& m, int depth) {
    add(n + "/d" + S(depth), [=](mc::Ctx& c) { menu_body(c, setup, m, depth); },
        "all programs of " + S(depth) + " out of " + S(m.size()) + " operations after " + S(setup.size()) + " fixed ones, in C and in C++",
        depth > 1 ? 2 : 1);
  };

  // creating, finding, aliasing and deleting
  std::vector<Op> objects;
  for (int k = LIST; k <= PREFETCH; ++k)
    for (int buf = 0; buf < 2; ++buf)
      for (int h = 0; h < 2; ++h)
        objects.push_back(create((Kind)k, h ? "B" : "A", buf, h));
  for (int buf = 0; buf < 2; ++buf) {
    objects.push_back(named(O_BYNAME, "A", buf));
    objects.push_back(named(O_BYNAME, "HOST", buf));
    objects.push_back(named(O_ADDALIAS, "B", buf));
    objects.push_back(named(O_REMALIAS, "B", buf));
    objects.push_back(named(O_ADDALIAS, "B", buf, 0));
    objects.push_back(named(O_ISNAME, "B", buf));
  }
  for (int id : {0, 1, 5, -1})
    objects.push_back(ids(O_BYID, id));
  for (int id : {0, 5, 200, -2})
    objects.push_back(ids(O_ISID, id));
  for (int h = 0; h < 2; ++h) {
    objects.push_back(hp(O_DELETE, h, 0));
    objects.push_back(hp(O_DESTROY, h, 0));
    objects.push_back(hp(O_ALLOC, h, 0, 0, 24));
  }
  objects.push_back(hp(O_FORPTR, 0, 0));
  objects.push_back(hp(O_FORPTR, 0, 4));
  menu("objects", {}, objects, T ? 4 : 3);

  // names of every shape
  add("names", [=](mc::Ctx& c) {
    const int buf = c.choose(2);
    std::string n;
    const std::string sigma = buf ? std::string("AB \0Z", 5) : std::string("AB Z");
    for (int L = c.choose(4); L > 0; --L)
      n += sigma[c.choose((int)sigma.size())];
    const int k = c.choose(7 + 2);
    const int buf2 = c.choose(2);
    std::string n2 = buf2 ? n : std::string(n.c_str());
    std::vector<Op> p;
    if (k < 7)
      p.push_back(create((Kind)k, n, buf, 0));
    else {
      p.push_back(create(NAMED, "Q", false, 0));
      p.push_back(named(O_ADDALIAS, n, buf));
      if (k == 8)
        p.push_back(named(O_REMALIAS, n2, buf2));
    }
    p.push_back(named(O_ISNAME, n2, buf2));
    p.push_back(named(O_BYNAME, n2, buf2));
    c.step();
    compare(c, p);
  }, "all names of up to 3 characters (with and without null characters and blanks) for every way to create, alias and look up", 4);

  // every size parameter
  add("parameters", [=](mc::Ctx& c) {
    const Kind k = (Kind)c.choose(7);
    const bool buf = c.choose(2);
    const size_t sizes[] = {0, 1, 8, 64, 100, 256, 1000, 4096};
    size_t a = sizes[c.choose(8)], b = k == LIST || k == QUICK ? sizes[c.choose(8)] : 0;
    int dev = k == ADVISOR || k == PREFETCH ? c.choose(3) - 1 : 0;
    size_t req = c.choose(8);
    std::vector<Op> p;
    Op o = create(k, "A", buf, 0, a, b, dev);
    o.n = a;
    p.push_back(o);
    p.push_back(hp(O_ALLOC, 1, 0, 0, sizes[req]));
    p.push_back(hp(O_ALLOC, 1, 0, 0, 64));
    p.push_back(hp(O_FREE, 1, 0));
    p.push_back(hp(O_RELEASE, 1, 0));
    p.push_back(mk(O_MISC));
    c.step();
    compare(c, p);
  }, "all values of the size and device parameters out of 8 x 8 x 3, then requests of 8 sizes");

  // memory of every kind of allocator
  for (int k = LIST; k <= PREFETCH; ++k) {
    std::vector<Op> setup{create((Kind)k, "A", k & 1, 0)};
    std::vector<Op> m;
    for (int h = 0; h < 2; ++h)
      for (size_t n : {0, 24, 40})
        m.push_back(hp(O_ALLOC, h, 0, 0, n));
    m.push_back(hp(O_FREE, 1, 0));
    m.push_back(hp(O_FREE, 1, 1));
    m.push_back(hp(O_FREE, 0, 0));
    m.push_back(hp(O_FREE, 1, 4));
    m.push_back(hp(O_RMFREE, 1, 0));
    m.push_back(hp(O_RMFREE, 1, 2));
    m.push_back(hp(O_RMFREE, 1, 4));
    m.push_back(hp(O_RELEASE, 1, 0));
    m.push_back(hp(O_REALLOC, 1, 0, 0, 48));
    m.push_back(hp(O_REALLOC, 1, 4, 0, 24));
    m.push_back(hp(O_REALLOC, 1, 0, 0, 0));
    m.push_back(hp(O_REALLOCW, 1, 0, 0, 16));
    m.push_back(hp(O_REALLOCW, 1, 4, 0, 24));
    m.push_back(hp(O_MOVE, 1, 0));
    m.push_back(hp(O_MOVE, 0, 0));
    m.push_back(hp(O_FORPTR, 0, 0));
    m.push_back(hp(O_FORPTR, 0, 3));
    for (int p = 0; p < 5; ++p)
      m.push_back(hp(O_HAS, 0, p));
    m.push_back(hp(O_SIZE, 1, 0));
    m.push_back(hp(O_SIZE, 1, 3));
    menu(std::string("memory-") + kind_name[k], setup, m, T ? 4 : 3);
  }

  // data
  {
    std::vector<Op> setup{create(QUICK, "A", false, 0), hp(O_ALLOC, 0, 0, 0, 24), hp(O_ALLOC, 1, 0, 0, 40)};
    std::vector<Op> m;
    for (int p : {0, 1, 3})
      for (int q : {0, 1, 3}) {
        m.push_back(hp(O_COPYALL, 0, p, q));
        for (size_t n : {0, 1, 13, 24, 41})
          m.push_back(hp(O_COPY, 0, p, q, n));
      }
    for (int p : {0, 1, 3})
      for (int val : {0, 0x5a, 0x1ff, -1}) {
        m.push_back(hp(O_SETALL, 0, p, 0, 0, val));
        for (size_t n : {0, 1, 7, 24, 41})
          m.push_back(hp(O_SET, 0, p, 0, n, val));
      }
    for (int p : {2, 4}) {
      m.push_back(hp(O_SETALL, 0, p, 0, 0, 1));
      m.push_back(hp(O_COPYALL, 0, p, 0));
      m.push_back(hp(O_COPYALL, 0, 0, p));
    }
    m.push_back(hp(O_REALLOC, 1, 0, 0, 60));
    m.push_back(hp(O_REALLOCW, 0, 0, 0, 30));
    m.push_back(hp(O_MOVE, 0, 0));
    m.push_back(hp(O_RMFREE, 0, 0));
    menu("data", setup, m, T ? 3 : 2);
  }

  // registering foreign memory, ranges
  {
    std::vector<Op> setup{create(NAMED, "A", false, 0), hp(O_ALLOC, 1, 0, 0, 32)};
    std::vector<Op> m;
    for (int p : {4, 5, 6, 7, 8})
      for (int h = 0; h < 2; ++h)
        for (size_t n : {4, 8, 24})
          m.push_back(hp(O_REG, h, p, 0, n));
    for (int p : {0, 4, 5, 6, 7, 8}) {
      m.push_back(hp(O_DEREG, 0, p));
      m.push_back(hp(O_HAS, 0, p));
      m.push_back(hp(O_FORPTR, 0, p));
      m.push_back(hp(O_SIZE, 1, p));
      for (int q : {0, 3, 5, 6, 7, 8})
        m.push_back(hp(O_OVER, 0, p, q));
    }
    menu("register", setup, m, T ? 3 : 2);
    // two registered ranges and every question about them
    std::vector<Op> reg, ask;
    for (auto& x : m)
      (x.k == O_REG || x.k == O_DEREG ? reg : ask).push_back(x);
    add("ranges", [=](mc::Ctx& c) {
      std::vector<Op> p = setup;
      p.push_back(reg[c.choose((int)reg.size())]);
      p.push_back(reg[c.choose((int)reg.size())]);
      p.insert(p.end(), ask.begin(), ask.end());
      c.step();
      compare(c, p);
    }, "all pairs of (de)registrations, then every query");
  }
  return v;
}
} // namespace

int main(int argc, char** argv)
{
  setenv("UMPIRE_LOG_LEVEL", "ERROR", 1);
  g_arena = (unsigned char*)mmap((void*)0x200000000000, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (g_arena == MAP_FAILED)
    return 2;
  ResourceManager::getInstance();
  umpire::log().rdbuf(nullptr);
  umpire::error().rdbuf(nullptr);
  return mc::mc_main(argc, argv, make);
}
