// Writers sharing a topic under every schedule (C10).
// usage: writer_sim <root> <preemptions> <max_runs> <random_runs> <kills> <fine> <seed> <out>
// A scenario has writers, written "<kind><stages pushed, innermost first>" or "<number of the writer wrapped><stages>", and one
// script per thread: a digit writes with that writer, b before it makes the packet too big.
#include "writerlib.hpp"
#include "simtrace.hpp"
#include "simfile.hpp"
using namespace wl;

static const size_t ARENA = 2048, ASZ = 144 + 8 * 700;
static std::string root;
struct Scen { std::vector<std::string> ws; std::vector<std::string> th; int kills; };
static const Scen* S;
static World* world;

int main(int argc, char** argv) {
  if (argc < 9) return 99;
  root = argv[1];
  sim::Config base;
  base.preemptions = atoi(argv[2]);
  base.max_runs = atol(argv[3]);
  base.random_runs = atol(argv[4]);
  int kills = atoi(argv[5]);
  base.fine = atoi(argv[6]);
  base.seed = atoll(argv[7]);
  VTrace::get().init(argv[8]);
  who() = [] { return sim::self(); };
  sim::clock_step = 1;
  between() = [] { sim::point(); };
  std::vector<Scen> scen;
  auto A = [&](std::vector<std::string> ws, std::vector<std::string> th) { scen.push_back({ws, th, kills}); };
  for (const char* k : {"C", "c"}) {
    std::string K = k;
    A({K + "S", K + "S"}, {"11", "22"});
    A({K + "S", K + "S", K + "S"}, {"1", "2", "3"});
    A({K + "S"}, {"11", "11"});                       // one writer used by two threads
    A({K + "S"}, {"1", "1", "1"});
    A({K + "Sb", K + "Qlu"}, {"11", "2", "2"});
    A({K + "E", K + "E"}, {"1", "2"});
    A({K + "SE", K + "ES", K + "E"}, {"1", "2", "3"});
    A({K + "S", "1l", "1u"}, {"2", "3", "1"});         // wrappers of one writer
    A({K + "S", "1E", "1E"}, {"2", "3"});
    A({K + "S", K + "bT"}, {"1b1", "2b2"});
    A({K + "(SE)", K + "(lE)"}, {"1", "2"});
  }
  A({"PS", "p"}, {"1", "2"});
  A({"P", "p", "P"}, {"1", "2", "3"});
  A({"P", "1E", "p", "3E"}, {"2", "4"});
  A({"P"}, {"11", "11"});
  bool ok = sim::parallel(8, scen.size(), [&](size_t i) {
    S = &scen[i];
    sim::Config c = base;
    c.seed = base.seed * 1000003 + i;
    c.kills = S->kills;
    bool file = S->ws[0][0] == 'P';
    std::string dir = root + "/p" + std::to_string(getpid());
    mkdir(dir.c_str(), 0777);
    setenv("A0_ROOT", dir.c_str(), 1);
    std::string nm = "t.pubsub.a0";
    auto setup = [&] {
      simfile::start_run();
      start();
      world = new World;     // what threads still hold is never destroyed
      world->fo.create_options.size = ASZ;
      if (file) {
        a0_file_t f;
        if (a0_file_open(nm.c_str(), &world->fo, &f)) _exit(99);
        world->arena = f.arena;
      } else {
        world->arena = {{sim::shared() + ARENA, ASZ}, A0_ARENA_MODE_SHARED};
      }
      sim::on_death([](int id) { ev(J().str("o", "die").i("p", id)); });
      for (auto& d : S->ws) {
        std::string rest = d.substr(1);
        int id;
        if (isdigit((unsigned char)d[0])) { id = world->wrap(d[0] - '0', rest); continue; }
        id = world->make(d[0] == 'P' || d[0] == 'p' || !file ? d[0] : 'C');
        for (size_t at = 0; at < rest.size();) {
          size_t n = 1;
          if (rest[at] == '(') n = rest.find(')', at) - at + 1;
          world->push(id, rest.substr(at, n));
          at += n;
        }
      }
      for (size_t k = 0; k < S->th.size(); k++)
        sim::spawn([&, k] {
          int big = 0, n = 0;
          for (char ch : S->th[k]) {
            if (ch == 'b') { big = 2; continue; }
            std::string pay = "t" + std::to_string(k) + std::to_string(n++);
            if (big) pay.assign(8000, 'x');
            world->write(ch - '0', {{"k", pay.substr(0, 4)}}, pay, big);
            big = 0;
          }
        }, S->kills > 0);
    };
    auto fin = [&](const sim::Outcome& o) {
      std::vector<J> log;
      bool good = o.blocked.empty() && !o.livelock;
      if (good) collect(world->arena, 0, &log, &good);
      ev(J().str("o", o.livelock ? "livelock" : "quiet").arr("stuck", ll(o.blocked)));
      finish(log, good, std::to_string(i), [] { SimTrace::get().end(); });
      simfile::end_run();
    };
    sim::explore(c, setup, fin);
    VTrace::get().flush();
    unlink((dir + "/" + nm).c_str());
    rmdir(dir.c_str());
    fprintf(stderr, "%zu runs=%ld kept=%ld\n", i, SimTrace::get().runs, SimTrace::get().kept);
  });
  return ok ? 0 : 1;
}
