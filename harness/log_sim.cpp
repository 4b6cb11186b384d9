// Loggers and log listeners under every schedule (C14; closing: C07).
// usage: log_sim <use|close> <root> <preemptions> <max_runs> <random_runs> <fine> <seed> <out>
// A scenario has listeners "<C|c><level><o|r|n><x|w>[s]" (from oldest, most recent, new; one by one or newest; s: tries to close
// itself) and one script per thread (the first runs before the others start): o1 x1 open and close listener 1, a level's
// digit publishes, u without level, z3 a foreign packet, B one that is too large.
#include "loglib.hpp"
#include "simtrace.hpp"
#include "simfile.hpp"
using namespace lg;

static const size_t ASZ = 6000;
struct Scen { std::vector<std::string> hs; std::string pre; std::vector<std::string> th; };
static const Scen* S;
struct Run {
  World w;
  Logger lgs[8];
};
static Run* R;
static a0_arena_t arena;

static void script(int p, const std::string& s) {
  for (size_t i = 0; i < s.size(); i++) {
    char op = s[i];
    if (op == 'o' || op == 'x') {
      int h = s[++i] - '0';
      Listener& x = R->w.hs[h];
      const std::string& d = S->hs[h - 1];
      if (op == 'o') {
        x.selfclose = d.size() > 4;
        R->w.open(x, h, d[0], d[1] - '0', d[2] == 'o' ? 0 : d[2] == 'r' ? 1 : 2, d[3] == 'w', sim::shared() + 2048 + 2048 * h);
      } else {
        R->w.close(x);
        if (x.kind == 'C') memset(x.mem, 0xEE, sizeof(a0_log_listener_t));
      }
    } else if (op == 'z') {
      R->w.foreign(arena, s[++i] - '0');
    } else if (op == 'B') {
      R->w.say(R->lgs[p], 0, 1, true);
    } else {
      R->w.say(R->lgs[p], op == 'u' ? 5 : op - '0', (int)i % 2);
    }
  }
}

int main(int argc, char** argv) {
  if (argc < 9) return 99;
  std::string root = argv[2];
  sim::Config base;
  base.preemptions = atoi(argv[3]);
  base.max_runs = atol(argv[4]);
  base.random_runs = atol(argv[5]);
  base.fine = atoi(argv[6]);
  base.seed = atoll(argv[7]);
  VTrace::get().init(argv[8]);
  std::vector<Scen> scen;
  auto A = [&](std::vector<std::string> hs, std::string pre, std::vector<std::string> th) { scen.push_back({hs, pre, th}); };
  for (std::string k : {"C", "c"})
    if (!strcmp(argv[1], "use")) {
      for (std::string m : {"ox", "rx", "nx", "ow", "rw", "nw"}) {
        A({k + "2" + m}, "", {"o1", "123"});
        A({k + "2" + m}, "03", {"o1", "3", "2"});
        A({k + "4" + m}, "1", {"o1", "04", "4z2"});
        A({k + "1" + m}, "4u", {"o1", "z6u", "1"});
      }
      A({k + "0ox", k + "3nx"}, "3", {"o1", "o2", "03"});
      A({k + "3ox"}, "", {"o1", "31", "B4z0z1"});
      A({k + "2nx", "c3nx"}, "o1o2", {"3", "2"});
    } else {
      for (std::string m : {"ox", "nx", "rw"}) {
        A({k + "2" + m}, "", {"o1x1", "12"});
        A({k + "2" + m}, "1", {"o1x1", "32"});
        A({k + "2" + m, "C4ox"}, "1", {"o1o2x1", "3"});
        A({k + "2" + m, "c4ox"}, "", {"o1x11", "o2", "3"});
      }
    }
  if (strcmp(argv[1], "use")) {
    A({"C2oxs"}, "1", {"o1", "02"});
    A({"C2oxs"}, "1", {"o1x1", "0"});
    A({"C2oxs", "C4ox"}, "1", {"o1o2", "02"});
  }
  bool ok = sim::parallel(8, scen.size(), [&](size_t i) {
    S = &scen[i];
    sim::Config c = base;
    c.seed = base.seed * 1000003 + i;
    std::string dir = root + "/p" + std::to_string(getpid()), nm;
    mkdir(dir.c_str(), 0777);
    setenv("A0_ROOT", dir.c_str(), 1);
    auto setup = [&] {
      simfile::start_run();
      IdTrace::get().events.clear();
      R = new Run;     // what threads still hold is never destroyed
      World& w = R->w;
      w.size = ASZ;
      w.who = [] { return sim::self(); };
      w.between = [] { sim::point(); };
      for (size_t h = 1; h <= S->hs.size(); h++) w.hs[(int)h];
      nm = w.path();
      w.fo.create_options.size = ASZ;
      a0_file_t f;
      if (a0_file_open(nm.c_str(), &w.fo, &f)) _exit(99);
      arena = f.arena;
      w.open(R->lgs[0], 'C');
      script(0, S->pre);
      for (size_t k = 0; k < S->th.size(); k++) {
        w.open(R->lgs[k + 1], (k + i) % 2 ? 'c' : 'C');
        sim::spawn([&, k] { script((int)k + 1, S->th[k]); }, false);
      }
    };
    auto fin = [&](const sim::Outcome& o) {
      std::vector<J> log;
      R->w.ending(arena, &log, !o.livelock);
      IdTrace::get().finish(J().objs("log", log).strs("hs", S->hs).str("pre", S->pre).strs("th", S->th), [] { SimTrace::get().end(); });
      simfile::end_run();
    };
    sim::explore(c, setup, fin);
    VTrace::get().flush();
    unlink((dir + "/" + nm).c_str());
    rmdir(dir.c_str());
    fprintf(stderr, "%zu runs=%ld kept=%ld\n", i, SimTrace::get().runs, SimTrace::get().kept);
  });
  return ok ? 0 : 1;
}
