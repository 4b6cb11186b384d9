// Recording of simulated executions: identical ones are written once.
#pragma once
#include <string>
#include <unordered_set>
#include "sim.hpp"
#include "vtrace.hpp"

struct SimTrace {
  std::unordered_set<uint64_t> seen;
  long runs = 0, kept = 0;
  static SimTrace& get() { static SimTrace t; return t; }
  static uint64_t hash(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; h ^= h >> 29; }
    return h;
  }
  void end() {
    VTrace& t = VTrace::get();
    runs++;
    if (!seen.insert(hash(t.cur)).second) { t.discard(); return; }
    kept++;
    t.end();
  }
};

inline std::vector<long long> ll(const std::vector<int>& v) { return std::vector<long long>(v.begin(), v.end()); }

// Common events: death, passing of time, end.
inline void sim_common_events() {
  sim::on_death([](int id) { VTrace::get().ev(J().str("o", "die").i("p", id)); });
  sim::on_tick([](long t, const std::vector<int>& asleep) { VTrace::get().ev(J().str("o", "tick").i("p", 0).i("h", 0).i("t", t).arr("asleep", ll(asleep))); });
}
inline void sim_finish(const sim::Outcome& o) {
  VTrace::get().ev(J().str("o", o.livelock ? "livelock" : "quiet").i("p", 0).i("h", 0).arr("blocked", ll(o.blocked)));
  SimTrace::get().end();
}
