// One-shot event and countdown latch under every schedule (C04).
// usage: event_sim <preemptions> <kills> <max_runs> <random_runs> <seed> <out>
#include <a0.h>
#include <a0/event.h>
#include <a0/latch.h>
#include <map>
#include "a0util.hpp"
#include "simtrace.hpp"

static a0_event_t* ev;
static a0_latch_t* la;

static void op(const std::string& s) {
  auto& T = VTrace::get();
  int p = sim::self();
  char k = s[0];
  int n = s.size() > 1 ? atoi(s.c_str() + 1) : -1;
  static const std::map<char, const char*> names = {{'S', "set"}, {'Q', "is_set"}, {'W', "ewait"}, {'w', "etwait"},
                                                    {'D', "down"}, {'A', "arrive"}, {'L', "arrive"}, {'T', "ltry"}};
  bool timed = k == 'w';
  T.ev(J().str("o", "call").i("p", p).str("k", names.at(k)).i("n", timed || n < 0 ? 0 : n).i("dl", timed ? n : -1));
  a0_time_mono_t t;
  uint64_t ns = sim::T0 + (n < 0 ? 0 : n) * sim::MS;
  t.ts.tv_sec = ns / 1000000000ull;
  t.ts.tv_nsec = ns % 1000000000ull;
  a0_err_t e = A0_OK;
  bool b = false, q = false;
  switch (k) {
    case 'S': e = a0_event_set(ev); break;
    case 'Q': e = a0_event_is_set(ev, &b); q = true; break;
    case 'W': e = a0_event_wait(ev); break;
    case 'w': e = a0_event_timedwait(ev, &t); break;
    case 'D': e = a0_latch_count_down(la, n); break;
    case 'A': e = a0_latch_arrive_and_wait(la, n); break;
    case 'L': e = a0_latch_wait(la); break;
    case 'T': e = a0_latch_try_wait(la, &b); q = true; break;
  }
  T.ev(J().str("o", "ret").i("p", p).str("r", q && !e ? (b ? "1" : "0") : errname(e)).i("t", timed ? sim::now_ms() : 0));
}

int main(int argc, char** argv) {
  if (argc < 7) return 99;
  sim::Config base;
  base.preemptions = atoi(argv[1]);
  base.kills = atoi(argv[2]);
  base.max_runs = atol(argv[3]);
  base.random_runs = atol(argv[4]);
  base.seed = atoll(argv[5]);
  VTrace::get().init(argv[6]);
  struct Sc { int cnt; std::vector<std::string> s; };
  std::vector<Sc> scen;
  for (const char* a : {"W", "w5", "WQ", "WW", "w0"})
    for (const char* b : {"W", "w5", "w2W", "QW", "S"})
      for (const char* c : {"S", "SQ", "SS"}) scen.push_back({1, {a, b, c}});
  scen.push_back({1, {"W", "W", "W", "S"}});
  scen.push_back({1, {"W", "W", "W", "W", "W", "S"}});
  scen.push_back({1, {"W", "w5", "W", "WQ", "SQ"}});
  scen.push_back({2, {"L", "L", "A1", "L", "L", "D1"}});
  scen.push_back({2, {"L", "L", "L", "A1", "A1"}});
  scen.push_back({1, {"W", "w5", "S", "S"}});
  scen.push_back({1, {"W", "Q", "Q", "S"}});
  scen.push_back({1, {"W", "w3", "W"}});
  scen.push_back({1, {"w3", "w3", "W"}});
  for (const char* a : {"L", "A1", "LL", "LT"})
    for (const char* b : {"D1", "A1", "D2", "TD1"})
      for (const char* c : {"D1", "A1", "L", "T"}) { scen.push_back({2, {a, b, c}}); }
  scen.push_back({3, {"A1", "A1", "A1"}});
  scen.push_back({3, {"A1", "A1", "A1", "L"}});
  scen.push_back({4, {"A1", "A1", "D2", "L"}});
  scen.push_back({2, {"A1", "A1", "D1", "L"}});
  bool ok = sim::parallel(8, scen.size(), [&](size_t i) {
    auto& ss = scen[i];
    sim::Config c = base;
    c.seed = base.seed * 1000003 + i;
    auto setup = [&] {
      ev = (a0_event_t*)sim::shared();
      la = (a0_latch_t*)(sim::shared() + 512);
      a0_latch_init(la, ss.cnt);
      VTrace::get().begin(J().i("n", ss.s.size()).i("cnt", ss.cnt));
      sim_common_events();
      for (size_t k = 0; k < ss.s.size(); k++)
        sim::spawn([&ss, k] {
          const std::string& s = ss.s[k];
          for (size_t x = 0; x < s.size();) {
            size_t j = x + 1;
            while (j < s.size() && isdigit((unsigned char)s[j])) j++;
            op(s.substr(x, j - x));
            x = j;
          }
        }, true);
    };
    sim::explore(c, setup, sim_finish);
    VTrace::get().flush();
    fprintf(stderr, "%zu runs=%ld kept=%ld\n", i, SimTrace::get().runs, SimTrace::get().kept);
  });
  return ok ? 0 : 1;
}
