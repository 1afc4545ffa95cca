// Controlled scheduler for code compiled with -fsanitize=thread but linked
// against sched.cpp instead of the sanitizer's runtime.
//
// run() executes up to MAXT-1 functions as threads of which exactly one runs at
// a time.  Before every visible operation (lock, atomic access, emulated system
// call) the scheduler asks `choose` which enabled thread goes on, so that a
// depth-first enumeration of the choices is an enumeration of all schedules
// within the preemption bound.  Every other memory access is checked for data
// races with vector clocks.
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP
#include <cstddef>
#include <cstdint>

namespace sched {
constexpr int MAXT = 8;

typedef int (*choose_fn)(void* arg, int n); // <0: stop
typedef void (*body_fn)(void* arg, int index);

struct Result {
  const char* error; // null: all threads finished, no race
  uint64_t points;   // visible operations
  uint64_t switches;
  int preemptions;
};

Result run(int n, body_fn f, void* arg, int preemption_bound, choose_fn ch, void* charg);

// for emulated operations of the harness: a visible operation happens here
void point(const char* what);
// the running thread waits until some other thread has made a visible step
void yield();
int self();            // 1..n inside run(), 0 outside
uint64_t now();        // number of visible operations so far
bool active();
void ignore_begin();   // accesses of this thread are not recorded
void ignore_end();
// [base, base+len) is a mapping of shared object `id` (aliases share shadow and mutex state)
void alias_add(const void* base, std::size_t len, uintptr_t canonical);
void alias_del(const void* base);
void alias_clear();
// [p, p+n) belongs to thread t: its operations there commute with everything
// the others do, so they are not scheduling points.  Should another thread
// operate on it all the same, that is a scheduling point as usual.
void private_add(int t, const void* p, std::size_t n);
void forget(const void* p, std::size_t n); // drop shadow state, e.g. memory is recycled
// a synchronises-with edge through the object `key` (for emulated system calls)
void sync_release(uintptr_t key);
void sync_acquire(uintptr_t key);
extern bool trace;
} // namespace sched
#endif
