// The deadman under every schedule and crash point (C08).
// usage: deadman_sim <main|relock> <preemptions> <kills> <max_runs> <random_runs> <seed> <out>
// A scenario is one script per thread; "2:LU" makes its calls through handle 2.
#include <a0.h>
#include <a0/deadman_mtx.h>
#include <algorithm>
#include <map>
#include "a0util.hpp"
#include "simtrace.hpp"

static a0_deadman_mtx_t* dm(int h) { return (a0_deadman_mtx_t*)(sim::shared() + 1024 + 64 * h); }
static uint64_t last[16];

static std::vector<long long> asleep(int n) {
  std::vector<long long> v;
  for (int i = 1; i <= n; i++)
    if (i != sim::self() && sim::sleeping(i)) v.push_back(i);
  return v;
}

static void op(int h, int nthr, const std::vector<int>& hof, const std::string& s) {
  auto& T = VTrace::get();
  int p = sim::self();
  char k = s[0];
  long n = s.size() > 1 ? atol(s.c_str() + 1) : -1;
  static const std::map<char, const char*> names = {{'T', "try"}, {'L', "lock"}, {'l', "tlock"}, {'U', "unlock"}, {'W', "waitlk"},
                                                    {'w', "twaitlk"}, {'R', "waitun"}, {'r', "twaitun"}, {'Q', "state"}, {'X', "shutdown"}};
  bool timed = k == 'l' || k == 'w' || k == 'r';
  uint64_t v = (k == 'R' || k == 'r') ? last[p] : 0;
  auto in_handle = [&] {
    std::vector<long long> r;
    for (auto q : asleep(nthr)) if (hof[q - 1] == h) r.push_back(q);
    return r;
  };
  J c;
  c.str("o", "call").i("p", p).i("h", h).str("k", names.at(k)).i("v", v).i("dl", timed ? n : -1);
  if (k == 'X') c.arr("asleep", in_handle());
  T.ev(c);
  a0_time_mono_t t;
  uint64_t ns = sim::T0 + (n < 0 ? 0 : n) * sim::MS;
  t.ts.tv_sec = ns / 1000000000ull;
  t.ts.tv_nsec = ns % 1000000000ull;
  a0_err_t e = A0_OK;
  uint64_t tk = 0;
  a0_deadman_mtx_state_t stt;
  memset(&stt, 0, sizeof stt);
  switch (k) {
    case 'T': e = a0_deadman_mtx_trylock(dm(h)); break;
    case 'L': e = a0_deadman_mtx_lock(dm(h)); break;
    case 'l': e = a0_deadman_mtx_timedlock(dm(h), &t); break;
    case 'U': e = a0_deadman_mtx_unlock(dm(h)); break;
    case 'W': e = a0_deadman_mtx_wait_locked(dm(h), &tk); break;
    case 'w': e = a0_deadman_mtx_timedwait_locked(dm(h), &t, &tk); break;
    case 'R': e = a0_deadman_mtx_wait_unlocked(dm(h), v); break;
    case 'r': e = a0_deadman_mtx_timedwait_unlocked(dm(h), &t, v); break;
    case 'Q': e = a0_deadman_mtx_state(dm(h), &stt); tk = stt.tkn; break;
    case 'X': e = a0_deadman_mtx_shutdown(dm(h)); break;
  }
  if ((k == 'W' || k == 'w') && e) tk = 0;
  if (tk) last[p] = tk;
  J r;
  r.str("o", "ret").i("p", p).i("v", tk).i("t", timed ? sim::now_ms() : 0);
  if (k == 'Q' && !e) {
    int own = 0;
    for (int i = 1; i <= nthr; i++) if (stt.owner_tid && (int)stt.owner_tid == sim::tid_of(i)) own = i;
    if (stt.owner_tid && !own) own = 99;
    r.str("r", stt.is_locked ? "owned" : "free").i("own", own).b("iso", stt.is_owner);
  } else {
    r.str("r", errname(e));
  }
  if (k == 'X') r.arr("asleep", in_handle());
  T.ev(r);
}

int main(int argc, char** argv) {
  if (argc < 8) return 99;
  sim::Config base;
  base.preemptions = atoi(argv[2]);
  base.kills = atoi(argv[3]);
  base.max_runs = atol(argv[4]);
  base.random_runs = atol(argv[5]);
  base.seed = atoll(argv[6]);
  VTrace::get().init(argv[7]);
  std::vector<std::vector<std::string>> scen;
  auto A = [&](std::vector<std::string> s) { scen.push_back(s); };
  // an owner that takes it again while the end of its first ownership is awaited
  if (!strcmp(argv[1], "relock")) {
    A({"LULU", "WRWR"}); A({"LUL", "WR", "l4U"}); A({"LULU", "QRQ"}); A({"LQULQU", "QR"}); A({"LULU", "WR", "WR"}); A({"LUL", "WR"});
  } else {
  // takers
  A({"LU", "LU"}); A({"LU", "LU", "LU"}); A({"TU", "TU", "LU"}); A({"LU", "l5U", "LU"}); A({"LLU", "LTU"}); A({"L", "l3", "TT"});
  A({"LULU", "LU"}); A({"LUTU", "TUL", "LU"}); A({"U", "LUU", "TU"}); A({"L", "L", "LU"}); A({"LU", "LU", "LU", "LU"});
  // observers
  A({"LU", "WR"}); A({"LU", "WR", "WR"}); A({"L", "WR", "LU"}); A({"LU", "LU", "WR"}); A({"LU", "WR", "LU", "WR"});
  A({"LU", "w2r4", "W"}); A({"LU", "Wr3Q"}); A({"L", "Wr3", "WR"}); A({"TU", "W", "W", "LU"}); A({"L", "WR", "WR", "WR"}); A({"LU", "W", "TU", "L"});
  A({"L", "w1", "WR", "L"}); A({"LU", "L", "WR", "WR", "WR"}); A({"LU", "WR", "WR", "WR", "WR"}); A({"LU", "LU", "LU", "LU", "WR"});
  // state
  A({"LU", "QQ"}); A({"LQU", "QQQ"}); A({"LU", "LU", "QQ"}); A({"LULU", "LU", "QQ"}); A({"LQR", "L"});
  // interruption
  A({"1:L", "2:L", "2:X"}); A({"1:LU", "2:W", "2:X"}); A({"1:L", "2:WR", "2:X"}); A({"1:L", "2:L", "3:L", "2:X"}); A({"1:L", "2:W", "3:WR", "3:X"});
  A({"1:L", "2:L", "2:WR", "2:X"}); A({"1:W", "1:W", "1:X"}); A({"1:LXU", "2:LU"}); A({"2:W", "3:W", "2:X", "1:LU"}); A({"1:LU", "2:LU", "2:X", "3:L"});
  A({"1:L", "2:l3", "2:X", "2:w2"}); A({"1:XTQWRL", "2:LU"});
  A({"1:L", "2:T"}); A({"1:L", "2:L", "2:WR", "3:L", "3:WR", "2:X"}); A({"3:W", "4:W", "2:W", "2:W", "2:X"});
  }
  bool ok = sim::parallel(8, scen.size(), [&](size_t i) {
    auto& ss = scen[i];
    sim::Config c = base;
    c.seed = base.seed * 1000003 + i;
    std::vector<int> hof;
    std::vector<std::string> body;
    for (size_t k = 0; k < ss.size(); k++) {
      bool has = ss[k].size() > 1 && ss[k][1] == ':';
      hof.push_back(has ? ss[k][0] - '0' : (int)k + 1);
      body.push_back(has ? ss[k].substr(2) : ss[k]);
    }
    auto setup = [&] {
      memset(last, 0, sizeof last);
      for (int h = 1; h <= 5; h++) a0_deadman_mtx_init(dm(h), (a0_deadman_mtx_shared_token_t*)sim::shared());
      for (auto& l : last) l = 999;
      VTrace::get().begin(J().i("n", ss.size()));
      sim_common_events();
      for (size_t k = 0; k < ss.size(); k++)
        sim::spawn([&, k] {
          const std::string& s = body[k];
          for (size_t x = 0; x < s.size();) {
            size_t j = x + 1;
            while (j < s.size() && isdigit((unsigned char)s[j])) j++;
            op(hof[k], (int)ss.size(), hof, s.substr(x, j - x));
            x = j;
          }
        }, std::count(hof.begin(), hof.end(), hof[k]) == 1);  // users of one handle live and die together
    };
    sim::explore(c, setup, sim_finish);
    VTrace::get().flush();
    fprintf(stderr, "%zu runs=%ld kept=%ld\n", i, SimTrace::get().runs, SimTrace::get().kept);
  });
  return ok ? 0 : 1;
}
