ID='b02-fixedpool-release-order'; PROPERTY='P06'
NEEDS='Three blocks are held and an earlier one becomes empty while a later one is still in use, then the pool is released.'
BREAKS='release() gives back whatever remove_if leaves behind the new end, i.e. a block that is in use instead of the empty one.'
EDITS=[('src/umpire/strategy/FixedPool.cpp',
r"""  for (auto& p : m_pool) {
    if (m_obj_per_pool == p.num_avail) {
      p.strategy->deallocate_internal(p.data, m_data_bytes);
      std::free(p.avail);
      m_actual_bytes -= m_avail_bytes + m_data_bytes;
    }
  }
  m_pool.erase(std::remove_if(m_pool.begin(), m_pool.end(), [&](Pool& p) { return m_obj_per_pool == p.num_avail; }),
               m_pool.end());
""",
r"""  auto unused =
      std::remove_if(m_pool.begin(), m_pool.end(), [&](Pool& p) { return m_obj_per_pool == p.num_avail; });
  for (auto p = unused; p != m_pool.end(); ++p) {
    p->strategy->deallocate_internal(p->data, m_data_bytes);
    std::free(p->avail);
    m_actual_bytes -= m_avail_bytes + m_data_bytes;
  }
  m_pool.erase(unused, m_pool.end());
""")]
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/Umpire.hpp"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/AllocationAdvisor.hpp"
#include <set>
struct Rec : umpire::strategy::AllocationStrategy {
  std::set<void*> live;
  Rec(const std::string& n, int id) : AllocationStrategy(n, id, nullptr, "Rec") {}
  void* allocate(std::size_t b) override { void* p = malloc(b); live.insert(p); return p; }
  void deallocate(void* p, std::size_t) override { live.erase(p); }
  umpire::Platform getPlatform() noexcept override { return umpire::Platform::host; }
  umpire::MemoryResourceTraits getTraits() const noexcept override { return {}; }
};
int main() {
  Rec rec("rec", 777);
  umpire::strategy::FixedPool pool("fp", 778, umpire::Allocator(&rec), 32, 2);
  std::vector<void*> v;
  for (int i = 0; i < 6; ++i) v.push_back(pool.allocate(32));
  pool.deallocate(v[0], 32); pool.deallocate(v[1], 32);
  pool.release();
  auto inside = [&](void* p) { for (void* b : rec.live) if (p >= b && (char*)p < (char*)b + 64) return true; return false; };
  int bad = rec.live.size() != 2;
  for (int i = 2; i < 6; ++i) if (!inside(v[i])) bad = 1;
  if (bad) std::puts("a block in use was given back");
  std::fflush(nullptr);
  _Exit(bad);
}
'''
FLAGS="-fno-access-control"
