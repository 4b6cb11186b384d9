// Deterministic execution of the real library under a chosen schedule.
//
// Threads are coroutines. Every shared-memory access the compiler instruments (-fsanitize=thread, but with the runtime in
// sim.cpp instead of the sanitizer's), every atomic and every wrapped system call is a point at which the schedule may
// switch threads, end a thread as if its process was killed, or let time pass. The futex part of the kernel is simulated,
// including priority-inheritance locks, requeueing, and the handling of held locks when a thread dies.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <functional>
#include <string>
#include <vector>

namespace sim {

static const uint64_t MS = 1000000ull;
static const uint64_t T0 = 1000ull * 1000000000ull;   // boot time at the start of a run

// --- inside a run
int spawn(std::function<void()> fn, bool mortal = false);  // returns 1, 2, ...
int self();                                                // 0 outside of threads
long now_ms();                                             // since the start of the run
uint8_t* shared();                                         // zeroed before every run; accesses here are points
size_t shared_size();
void region(void* p, size_t n);                            // an additional area (this run only)
extern uint64_t clock_step;                                // ns by which every look at a clock moves it
void point();                                              // an explicit scheduling point
int tid_of(int thread);
void on_death(std::function<void(int)> f);                 // called when a thread is killed
void on_tick(std::function<void(long, const std::vector<int>&)> f);  // time is about to pass to t; who is asleep
void wait_for(std::function<bool()> cond);                 // harness-level blocking (not visible to the code under test)
bool finished(int thread);
bool dead(int thread);
bool sleeping(int thread);                                 // blocked in the kernel
void mortal(bool on);                                      // whether the calling thread may be killed from here on
extern void (*fs_hook)();                                  // unused unless set

// --- exploring
struct Config {
  int preemptions = 2;      // systematic: bound on forced switches
  int kills = 0;            // bound on deaths per run
  int ticks = 100;          // bound on time advances while something could run
  long max_runs = 100000;   // cap of the systematic part
  long random_runs = 0;     // in addition
  uint64_t seed = 1;
  bool fine = true;         // plain accesses are points too
  int spurious = 0;         // bound on unprovoked wakeups of futex sleepers
};
struct Outcome {
  std::vector<int> blocked;  // threads that will never run again
  bool livelock = false;
  bool truncated = false;    // the systematic search hit its cap (valid after explore)
  long runs = 0;
};
// setup: creates state and threads. finish: called when nothing can happen any more.
Outcome explore(const Config& c, std::function<void()> setup, std::function<void(const Outcome&)> finish);

// run jobs in parallel processes
bool parallel(int workers, size_t n, std::function<void(size_t)> job);
}  // namespace sim
