// Mutex and condition variable under every schedule (C03, C04).
// usage: mtx_sim <set> <preemptions> <kills> <max_runs> <random_runs> <seed> <out> [fine]
#include <a0.h>
#include <map>
#include "a0util.hpp"
#include "simtrace.hpp"

struct World {
  a0_mtx_t* m;
  a0_cnd_t* c;
};
static World ws[4];

static a0_time_mono_t deadline(int ms) {
  a0_time_mono_t t;
  uint64_t ns = sim::T0 + ms * sim::MS;
  t.ts.tv_sec = ns / 1000000000ull;
  t.ts.tv_nsec = ns % 1000000000ull;
  return t;
}

static void op(std::string s) {
  auto& T = VTrace::get();
  int p = sim::self(), m = 0;
  if (s[0] >= 'a' && s[0] <= 'd') { m = s[0] - 'a'; s = s.substr(1); }
  World& w = ws[m];
  char k = s[0];
  int dl = s.size() > 1 ? atoi(s.c_str() + 1) : -1;
  static const std::map<char, const char*> names = {{'L', "lock"}, {'D', "tlock"}, {'T', "try"}, {'U', "unlock"}, {'W', "wait"},
                                                    {'w', "twait"}, {'S', "signal"}, {'B', "broadcast"}, {'I', "badwait"}, {'i', "badlock"}};
  T.ev(J().str("o", "call").i("p", p).i("m", m + 1).str("k", names.at(k)).i("dl", dl));
  a0_time_mono_t t = deadline(dl < 0 ? 0 : dl);
  a0_err_t e = A0_OK;
  switch (k) {
    case 'L': e = a0_mtx_lock(w.m); break;
    case 'D': e = a0_mtx_timedlock(w.m, &t); break;
    case 'T': e = a0_mtx_trylock(w.m); break;
    case 'U': e = a0_mtx_unlock(w.m); break;
    case 'W': e = a0_cnd_wait(w.c, w.m); break;
    case 'w': e = a0_cnd_timedwait(w.c, w.m, &t); break;
    case 'S': e = a0_cnd_signal(w.c, w.m); break;
    case 'B': e = a0_cnd_broadcast(w.c, w.m); break;
    case 'I': {
      static const long bad[4][2] = {{-1, 5}, {5, -1}, {2000, 1000000000}, {0, 0}};
      t.ts.tv_sec = bad[(dl < 0 ? 0 : dl) % 4][0];
      t.ts.tv_nsec = bad[(dl < 0 ? 0 : dl) % 4][1];
      e = a0_cnd_timedwait(w.c, w.m, &t);
      break;
    }
  }
  T.ev(J().str("o", "ret").i("p", p).i("m", m + 1).str("r", errname(e)).i("t", dl < 0 ? 0 : sim::now_ms()));
}

typedef std::vector<std::string> Script;
static Script parse(const std::string& s) {
  Script v;
  for (size_t i = 0; i < s.size();) {
    size_t j = i + (s[i] >= 'a' && s[i] <= 'd' ? 2 : 1);     // the name of the mutex goes before
    while (j < s.size() && isdigit((unsigned char)s[j])) j++;
    v.push_back(s.substr(i, j - i));
    i = j;
  }
  return v;
}

int main(int argc, char** argv) {
  if (argc < 8) return 99;
  std::string set = argv[1];
  sim::Config base;
  base.preemptions = atoi(argv[2]);
  base.kills = atoi(argv[3]);
  base.max_runs = atol(argv[4]);
  base.random_runs = atol(argv[5]);
  base.seed = atoll(argv[6]);
  VTrace::get().init(argv[7]);
  if (argc > 8) base.fine = atoi(argv[8]) != 0;

  std::vector<std::vector<std::string>> scen;
  if (set == "mtx") {
    std::vector<std::string> one = {"LU", "TU", "D5U", "LUL", "LL", "ULU", "D3D5U", "TTU", "LTU", "LULU", "LUTU", "L", "T"};
    for (size_t a = 0; a < one.size(); a++)
      for (size_t b = a; b < one.size(); b++) scen.push_back({one[a], one[b]});
    for (const char* a : {"LU", "TU", "D5U", "L"})
      for (const char* b : {"LU", "TU", "D5U", "D2U"})
        for (const char* c : {"LU", "TU", "D5U", "ULU"}) scen.push_back({a, b, c});
    scen.push_back({"LU", "LU", "LU", "LU"});
    scen.push_back({"LU", "D4U", "TU", "LU"});
    scen.push_back({"LUTU", "LUD4U", "D4ULU", "TUTU"});
    scen.push_back({"L", "D4U", "D2U", "D3U"});
  } else if (set == "many") {   // several mutexes held by one at the same time, given up in any order
    std::vector<std::string> other = {"aLaUbLbUcLcUdLdU", "dTdLdUbTbUaD9aU", "cLcUdLdU"};
    for (const char* a : {"aLbLcLdLbUaUbLdU", "dLaLbLcLbUaU", "aLbLaUbU", "aLbLbUaU", "aLbLcLbUcUaU", "aLbLcLaUcUbU", "aLbLcLdLcUbUaUdU", "aLbLaUaLbUaU",
                          "aLbLcLbUbLcUaUbU", "aTbTcTdTbUaUcUdU", "aLbLbWbUaU", "aLbLcLbWbUaUcU", "aLbLcLaw5aUbUcU"})
      for (auto& b : other) scen.push_back({a, b});
    scen.push_back({"aLbLbWbUaU", "bLbBbU"});
    scen.push_back({"aLbLcLbWbUaUcU", "bLbSbUaLaU"});
    Rng r(base.seed * 7919);
    for (int k = 0; k < 24; k++) {
      std::vector<std::string> ss;
      for (int q = 0; q < 2; q++) {
        std::string s;
        bool held[4] = {};
        for (int j = 0; j < 9; j++) {
          int m = (int)r.below(4);
          s += (char)('a' + m);
          s += held[m] ? "U" : q && r.chance(50) ? "T" : "L";
          held[m] = !held[m];
        }
        ss.push_back(s);
      }
      scen.push_back(ss);
    }
  } else {
    std::vector<std::string> waiters = {"LWU", "Lw5U", "LW", "LWWU", "TWU", "W", "Lw5w9U", "LI1U", "LI2WU", "Lw0U"};
    std::vector<std::string> wakers = {"LSU", "LBU", "S", "B", "LUS", "SLU", "LSSU", "LBBU", "SS"};
    for (auto& a : waiters) for (auto& b : wakers) scen.push_back({a, b});
    for (const char* a : {"LWU", "Lw5U", "LW"})
      for (const char* b : {"LWU", "Lw5U", "Lw2U"})
        for (const char* c : {"LSU", "LBU", "S", "B", "LSUS", "LUB"}) scen.push_back({a, b, c});
    scen.push_back({"LWU", "LWU", "LWU", "LB"});
    scen.push_back({"LWU", "LWU", "LWU", "LBU"});
    scen.push_back({"LWU", "Lw5U", "LSU", "LSU"});
    scen.push_back({"LWU", "LWU", "B", "S"});
    scen.push_back({"LWU", "LWU", "LSU", "LU"});
    scen.push_back({"LWSU", "LWSU", "LSU", "TU"});
    scen.push_back({"LWBU", "Lw4BU", "LBU", "LBU"});
    scen.push_back({"Lw5U", "Lw6U", "Lw7U", "LU"});
    for (int i = 0; i < 4; i++) scen.push_back({"LI" + std::to_string(i) + "U", "LU"});
  }

  std::string extra = getenv("SCEN") ? getenv("SCEN") : "";
  bool ok = sim::parallel(8, scen.size(), [&](size_t i) {
    auto& ss = scen[i];
    if (!extra.empty() && extra != std::to_string(i)) return;
    std::vector<Script> sc;
    size_t ops = 0;
    for (auto& s : ss) { sc.push_back(parse(s)); ops += sc.back().size(); }
    sim::Config c = base;
    c.seed = base.seed * 1000003 + i;
    if (ss.size() > 2 && c.preemptions > 1) c.preemptions--;
    auto setup = [&] {
      for (int k = 0; k < 4; k++) {
        ws[k].m = (a0_mtx_t*)(sim::shared() + 512 * k);
        ws[k].c = (a0_cnd_t*)(sim::shared() + 512 * k + 256);
      }
      auto& T = VTrace::get();
      T.begin(J().i("n", ss.size()).i("nm", set == "many" ? 4 : 1));
      sim_common_events();
      for (size_t k = 0; k < sc.size(); k++)
        sim::spawn([&sc, k] { for (auto& o : sc[k]) op(o); }, true);
    };
    sim::explore(c, setup, sim_finish);
    VTrace::get().flush();
    fprintf(stderr, "%zu runs=%ld kept=%ld\n", i, SimTrace::get().runs, SimTrace::get().kept);
  });
  return ok ? 0 : 1;
}
