ID="b20-lock-kept-after-refusal"; PROPERTY="P19"
NEEDS="The allocator below a thread-safe allocator refuses a request in one thread; then another thread uses it."
BREAKS="The lock is not released when the allocation raises an error, so all other threads wait forever."
EDITS=[("src/umpire/Allocator.inl","""  std::lock_guard<std::recursive_mutex> lock(*m_thread_safe_mutex);
  return do_allocate(bytes);""","""  m_thread_safe_mutex->lock();
  void* ret = do_allocate(bytes);
  m_thread_safe_mutex->unlock();
  return ret;""")]
FLAGS="-pthread"
DEMO=r'''
#include "umpire/ResourceManager.hpp"
#include "umpire/Allocator.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
int main() {
  auto& rm = umpire::ResourceManager::getInstance();
  auto lim = rm.makeAllocator<umpire::strategy::SizeLimiter>("lim", rm.getAllocator("HOST"), 100);
  auto safe = rm.makeAllocator<umpire::strategy::ThreadSafeAllocator>("safe", lim);
  std::thread t([&] { try { safe.allocate(1000); } catch (...) {} });
  t.join();
  static std::atomic<bool> done{false};
  std::thread u([&] { auto s = safe; s.deallocate(s.allocate(10)); done = true; });
  u.detach();
  for (int i = 0; i < 100 && !done; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(100));
  if (!done) { std::puts("second thread is stuck"); std::fflush(stdout); std::_Exit(1); }
  std::_Exit(0);
}
'''
