// Clients and servers of remote calls under every schedule (C12, C13; closing: C07).
// usage: call_sim <rpc|prpc> <use|close> <root> <preemptions> <max_runs> <random_runs> <fine> <seed> <out>
// A scenario has handles "<S|s|C|c><habit>" and one script per thread (the first runs before the others start): o1 x1 open and
// close handle 1; q1 n1 f1 b1 t1 L1 send as client 1; c1 client 1 cancels its oldest request not yet cancelled; C12 client 1
// cancels the latest request of client 2; u1 d1 server 1 sends an update / the last one for the oldest request it kept;
// z a foreign packet (next of the list).
#include "calllib.hpp"
#include "simtrace.hpp"
#include "simfile.hpp"
using namespace kl;

static const size_t ASZ = 7000;
struct Scen { std::vector<std::string> hs; std::string pre; std::vector<std::string> th; };
static const Scen* S;
static World* W;
static a0_arena_t arena;

static void script(const std::string& s) {
  for (size_t i = 0; i < s.size(); i++) {
    char op = s[i];
    if (op == 'z') {
      int what = s[++i] - '0';
      W->foreign(arena, what, W->hs.begin()->second.sent.empty() ? "01234567-89ab-cdef-0123-456789abcdef" : W->hs.begin()->second.sent[0]);
      continue;
    }
    int h = s[++i] - '0';
    Handle& x = W->hs[h];
    switch (op) {
      case 'o': W->open(x, h, S->hs[h - 1][0], S->hs[h - 1].substr(1), sim::shared() + 2048 + 2048 * h); break;
      case 'x': W->close(x); if (isupper(x.kind)) memset(x.mem, 0xEE, 1024); break;
      case 'c': {
        W->wait([&] { return x.sent.size() > x.cancelled; });
        W->cancel(x, x.sent[x.cancelled++]);
        break;
      }
      case 'C': {
        Handle& y = W->hs[s[++i] - '0'];
        W->wait([&] { return !y.sent.empty(); });
        W->cancel(x, y.sent.back());
        break;
      }
      case 'u': case 'd': {
        W->wait([&] { return !x.kept.empty(); });
        Handle::Req r = x.kept[0];
        if (op == 'd' && x.kept.size() > 1) x.kept.erase(x.kept.begin());
        W->reply(x, r, op == 'd');
        break;
      }
      default: W->send(x, op);
    }
  }
}

int main(int argc, char** argv) {
  if (argc < 10) return 99;
  bool prog = !strcmp(argv[1], "prpc");
  std::string root = argv[3];
  sim::Config base;
  base.preemptions = atoi(argv[4]);
  base.max_runs = atol(argv[5]);
  base.random_runs = atol(argv[6]);
  base.fine = atoi(argv[7]);
  base.seed = atoll(argv[8]);
  VTrace::get().init(argv[9]);
  std::vector<Scen> scen;
  auto A = [&](std::vector<std::string> hs, std::string pre, std::vector<std::string> th) { scen.push_back({hs, pre, th}); };
  if (!strcmp(argv[2], "use")) {
    for (std::string s : {"S", "s"})
      for (std::string c : {"C", "c"}) {
        std::string ud = prog ? "pd" : "d", k = "k";
        A({s + ud, c}, "o1o2", {"q2", "q2"});
        A({s + ud, c, c}, "o1o2o3", {"q2", "q3"});
        A({s + ud, c}, "", {"o1", "o2q2"});
        A({s + ud, s + "d", c}, "o1o2o3", {"q3"});          // two servers answer everything
        A({s + "dd", c}, "o1o2", {"q2q2"});                 // answered twice
        A({s + "dpd", c}, "o1o2", {"q2", "q2"});            // updates after the last
        A({s + ud, c}, "o1o2", {"q2c2"});
        A({s + ud, c}, "o1o2", {"q2q2", "c2"});
        A({s + ud, c, c}, "o1o2o3", {"q2", "q3c3"});
        A({s + ud, c, c}, "o1o2o3", {"q2", "q3", "C32"});    // cancelled by someone else
        A({s + k, c}, "o1o2", {"q2", "u1d1", "c2"});
        A({s + k, c}, "o1o2", {"q2q2", "u1d1d1"});
        A({s + k, c, c}, "o1o2o3", {"q2", "q3", "u1d1u1d1"});
        A({s + ud + "n", c}, "o1o2", {"q2c2q2"});            // no handler for cancellations
        A({s + ud, c}, "o1o2", {"n2q2"});
        A({s + ud, c + "e"}, "o1o2", {"q2"});
        A({s + ud, c + "c"}, "o1o2", {"q2"});
        A({s + ud, c}, "o1o2", {"q2z0z1", "z2z3z4"});
        A({s + ud, c}, "o1o2", {"z5q2", "z6z7z8"});
        A({s + ud, c}, "o1o2", {"L2q2", "q2"});
        if (!prog) {
          A({s + "d", c}, "o1o2", {"f2f2", "q2"});
          A({s + "d", c}, "o1o2", {"f2", "c2"});
          A({s + "d", c}, "o1o2", {"b2", "b2"});
          A({s + "d", c, c}, "o1o2o3", {"b2", "b3"});
          A({s + "d", c, c}, "o1o2o3", {"b2b2", "q3"});
          A({s + "d", c}, "o1o2", {"b2", "q2", "c2"});
          A({s + "k", c}, "o1o2", {"b2", "c2"});
          A({s + "k", c, c}, "o1o2o3", {"b2", "C32"});
          A({s + "k", c}, "o1o2", {"t2q2", "d1"});
          A({s + "k", c}, "o1o2", {"t2t2", "d1d1"});
          A({s + "k", c}, "o1o2", {"t2", "c2", "d1"});
          A({s + "dd", c, c}, "o1o2o3", {"b2b2", "b3"});
          A({s + "k", c}, "o1o2", {"b2", "z0z1z3z6"});
          A({s + "d", c}, "o2", {"b2", "o1"});
        }
      }
  } else {
    int n = 0;
    for (std::string k : {"S", "s"})
      for (std::string c : {"C", "c"}) {
        std::string ud = prog ? "pd" : "d";
        A({k + ud, c}, "o1o2", {"q2x2"});
        A({k + ud, c}, "o1o2", {"q2", "x1"});
        A({k + ud, c, c}, "o1o2o3", {"q2x2", "q3"});
        A({k + ud, k + "d", c}, "o1o2o3", {"q3x1", "q3"});
        A({k + ud, c}, "", {"o1x1", "o2x2"});
        A({k + ud, c}, "o1", {"o2q2", "x1"});
        if (!prog) A({k + ud, c, c}, "o1o2o3", {"q2x2", "b3"});
        n++;
      }
    A({"Ssd", "C"}, "o1o2", {"q2"});
    A({"Ssd", "C"}, "o1o2", {"q2", "x1"});
    A({"Sd", "Cs"}, "o1o2", {"q2"});
    A({"Sdd", "Cs"}, "o1o2", {"q2q2x2"});
    A({"sd", "Cs", "c"}, "o1o2o3", {"q2", "q3"});
  }
  bool ok = sim::parallel(8, scen.size(), [&](size_t i) {
    S = &scen[i];
    sim::Config c = base;
    c.seed = base.seed * 1000003 + i;
    std::string dir = root + "/p" + std::to_string(getpid());
    mkdir(dir.c_str(), 0777);
    setenv("A0_ROOT", dir.c_str(), 1);
    std::string nm;
    auto setup = [&] {
      simfile::start_run();
      IdTrace::get().events.clear();
      W = new World;     // what threads still hold is never destroyed
      W->prog = prog;
      W->size = ASZ;
      W->who = [] { return sim::self(); };
      W->between = [] { sim::point(); };
      W->wait = [](std::function<bool()> f) { sim::wait_for(f); };
      W->at = [](long ms) { uint64_t ns = sim::T0 + ms * sim::MS; a0_time_mono_t t; t.ts.tv_sec = ns / 1000000000ull; t.ts.tv_nsec = ns % 1000000000ull; return t; };
      for (size_t h = 1; h <= S->hs.size(); h++) W->hs[(int)h];
      nm = W->path();
      W->fo.create_options.size = ASZ;
      a0_file_t f;
      if (a0_file_open(nm.c_str(), &W->fo, &f)) _exit(99);
      arena = f.arena;
      sim::on_tick([](long t, const std::vector<int>&) { ev(J().str("o", "tick").i("t", t)); });
      script(S->pre);
      for (size_t k = 0; k < S->th.size(); k++) sim::spawn([&, k] { script(S->th[k]); }, false);
    };
    auto fin = [&](const sim::Outcome& o) {
      std::vector<J> log;
      W->ending(arena, &log, !o.livelock);
      IdTrace::get().finish(J().objs("log", log).strs("hs", S->hs).str("pre", S->pre).strs("th", S->th), [] { SimTrace::get().end(); });
      simfile::end_run();
    };
    sim::explore(c, setup, fin);
    VTrace::get().flush();
    unlink((dir + "/" + nm).c_str());
    rmdir(dir.c_str());
    fprintf(stderr, "%zu runs=%ld kept=%ld\n", i, SimTrace::get().runs, SimTrace::get().kept);
  });
  return ok ? 0 : 1;
}
