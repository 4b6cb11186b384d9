// A configuration topic used by several processes and watched, under every schedule (C11; closing watchers: C07).
// usage: cfg_sim <use|close> <root> <preemptions> <max_runs> <random_runs> <kills> <fine> <seed> <out>
// A scenario has watchers "<C|c|j><habit>" (C, C++, C++ parsed; habit s: tries to close itself), what happens first, and one
// script per thread: W I P followed by a document's letter, R K T reads, B an oversize write, Q an oversize patch,
// o1 and x1 open and close watcher 1. Threads use the topic through C and C++ in turn.
#include "cfglib.hpp"
#include "simtrace.hpp"
#include "simfile.hpp"
using namespace cl;

static const size_t ASZ = 6000;
static std::string root;
struct Scen { std::vector<std::string> wt; std::string pre; std::vector<std::string> th; };
static const Scen* S;

struct Watch {
  std::shared_ptr<a0::CfgWatcher> cpp;
  int calls = 0;
};
struct Run {
  World w;
  User us[8];
  std::vector<Watch> wt;
};
static Run* run;
static a0_cfg_watcher_t* mem(int h) { return (a0_cfg_watcher_t*)(sim::shared() + 2048 + 1024 * h); }

static void told(int h, const std::string& id, const std::string& v) {
  ev(J().str("o", "cb").i("h", h + 1).str("id", id).raw("v", v));
  sim::point();
  if (S->wt[h][1] == 's' && run->wt[h].calls++ < 2) {
    std::string r = errname(a0_cfg_watcher_close(mem(h)));
    ev(J().str("o", "self").i("h", h + 1).str("r", r));
  }
}
static void told_end(int h) { ev(J().str("o", "cbend").i("h", h + 1)); }

static void script(int p, const std::string& s) {
  for (size_t i = 0; i < s.size(); i++) {
    char k = s[i];
    if (k == 'o') {
      int h = s[++i] - '1';
      ev(J().str("o", "open").i("h", h + 1));
      char kind = S->wt[h][0];
      if (kind == 'C') {
        a0_packet_callback_t cb = {(void*)(intptr_t)h, [](void* u, a0_packet_t pk) {
          int h = (int)(intptr_t)u;
          std::string id(pk.id, strnlen(pk.id, 37)), v = enc_text(std::string((char*)pk.payload.data, pk.payload.size));
          told(h, id, v);
          if (v != enc_text(std::string((char*)pk.payload.data, pk.payload.size))) ev(J().str("o", "altered"));
          told_end(h);
        }};
        a0_err_t e = a0_cfg_watcher_init(mem(h), run->w.ctopic(), heap(), cb);
        if (e) ev(J().str("o", "badopen").str("r", errname(e)));
      } else if (kind == 'c') {
        run->wt[h].cpp.reset(new a0::CfgWatcher(run->w.ptopic(), [h](a0::Packet pk) {
          std::string v = enc_text(std::string(pk.payload().data(), pk.payload().size()));
          told(h, std::string(pk.id().data(), pk.id().size()), v);
          if (v != enc_text(std::string(pk.payload().data(), pk.payload().size()))) ev(J().str("o", "altered"));
          told_end(h);
        }));
      } else {
        run->wt[h].cpp.reset(new a0::CfgWatcher(run->w.ptopic(), [h](const json& j) {
          told(h, "", enc(j));
          told_end(h);
        }));
      }
    } else if (k == 'x') {
      int h = s[++i] - '1';
      ev(J().str("o", "close").i("h", h + 1));
      a0_err_t e = A0_OK;
      if (S->wt[h][0] == 'C') e = a0_cfg_watcher_close(mem(h));
      else run->wt[h].cpp->c.reset();
      ev(J().str("o", "closed").i("h", h + 1).str("r", errname(e)));
      if (!e && S->wt[h][0] == 'C') memset(mem(h), 0xEE, sizeof(a0_cfg_watcher_t));
    } else if (k == 'B' || k == 'Q') {
      run->w.op(run->us[p], k == 'B' ? 'W' : 'P', "{\"c\":\"" + std::string(ASZ, 'x') + "\"}", 2);
    } else {
      bool rd = strchr("RKT", k) != nullptr;
      run->w.op(run->us[p], k, rd ? "" : doc(s[++i]), 0);
    }
  }
}

int main(int argc, char** argv) {
  if (argc < 10) return 99;
  root = argv[2];
  sim::Config base;
  base.preemptions = atoi(argv[3]);
  base.max_runs = atol(argv[4]);
  base.random_runs = atol(argv[5]);
  base.kills = atoi(argv[6]);
  base.fine = atoi(argv[7]);
  base.seed = atoll(argv[8]);
  VTrace::get().init(argv[9]);
  std::vector<Scen> scen;
  auto A = [&](std::vector<std::string> wt, std::string pre, std::vector<std::string> th) { scen.push_back({wt, pre, th}); };
  if (!strcmp(argv[1], "use")) {
    for (std::string pre : {"", "Wa", "WaWb"}) {
      A({}, pre, {"Pb", "Pd"});
      A({}, pre, {"PaPb", "PcR"});
      A({}, pre, {"Pa", "Pb", "Pf"});
      A({}, pre, {"Ia", "Ib"});
      A({}, pre, {"Ia", "Ib", "In"});
      A({}, pre, {"Ia", "Pb", "Wn"});
      A({}, pre, {"IaR", "PbR"});
      A({}, pre, {"K", "K", "Pa"});
      A({}, pre, {"KR", "T", "Ia"});
      A({}, pre, {"T", "T", "WbPd"});
      A({}, pre, {"PiPa", "WlPb"});
      A({}, pre, {"BQPa", "PbB"});
      A({"C-"}, pre, {"o1", "PaPd"});
      A({"c-"}, pre, {"o1", "Wa", "Pb"});
      A({"j-"}, pre, {"o1", "PaPb"});
      A({"C-", "c-"}, pre, {"o1o2", "Wb", "Pd"});
    }
  } else {
    for (std::string k : {"C", "c", "j"}) {
      A({k + "-"}, "", {"o1x1", "Wa"});
      A({k + "-"}, "Wa", {"o1x1", "Pb"});
      A({k + "-", "C-"}, "Wa", {"o1o2x1", "Pb"});
      A({k + "-", "c-"}, "", {"o1x1Wa", "o2", "Pb"});
      A({k + "-", "C-"}, "", {"o1o2x1x2"});
    }
    A({"Cs"}, "Wa", {"o1", "Pb"});
    A({"Cs"}, "Wa", {"o1x1", "Pb"});
    A({"Cs", "C-"}, "Wa", {"o1o2", "Pb"});
  }
  bool ok = sim::parallel(8, scen.size(), [&](size_t i) {
    S = &scen[i];
    sim::Config c = base;
    c.seed = base.seed * 1000003 + i;
    if (!S->wt.empty()) c.kills = 0;
    std::string dir = root + "/p" + std::to_string(getpid()), nm = "t.cfg.a0";
    mkdir(dir.c_str(), 0777);
    setenv("A0_ROOT", dir.c_str(), 1);
    static a0_arena_t arena;
    auto setup = [&] {
      simfile::start_run();
      IdTrace::get().events.clear();
      run = new Run;     // what threads still hold is never destroyed
      run->w.size = ASZ;
      run->w.who = [] { return sim::self(); };
      run->w.between = [] { sim::point(); };
      run->w.at = [](long ms) { uint64_t ns = sim::T0 + ms * sim::MS; a0_time_mono_t t; t.ts.tv_sec = ns / 1000000000ull; t.ts.tv_nsec = ns % 1000000000ull; return t; };
      run->wt.resize(S->wt.size());
      run->w.fo.create_options.size = ASZ;
      a0_file_t f;
      if (a0_file_open(nm.c_str(), &run->w.fo, &f)) _exit(99);
      arena = f.arena;
      sim::on_death([](int id) { ev(J().str("o", "die").i("p", id)); });
      sim::on_tick([](long t, const std::vector<int>&) { ev(J().str("o", "tick").i("t", t)); });
      run->w.open(run->us[0], 'C');
      script(0, S->pre);
      for (size_t k = 0; k < S->th.size(); k++) {
        run->w.open(run->us[k + 1], (k + i) % 2 ? 'c' : 'C');
        sim::spawn([&, k] { script((int)k + 1, S->th[k]); }, c.kills > 0);
      }
    };
    auto fin = [&](const sim::Outcome& o) {
      std::vector<J> log;
      uint64_t from = 0;
      if (!values(arena, from, &log)) ev(J().str("o", "badlog"));
      ev(J().str("o", o.livelock ? "livelock" : "quiet"));
      IdTrace::get().finish(J().objs("log", log).strs("wt", S->wt).str("pre", S->pre).strs("th", S->th), [] { SimTrace::get().end(); });
      simfile::end_run();
    };
    sim::explore(c, setup, fin);
    VTrace::get().flush();
    unlink((dir + "/" + nm).c_str());
    rmdir(dir.c_str());
    fprintf(stderr, "%zu runs=%ld kept=%ld\n", i, SimTrace::get().runs, SimTrace::get().kept);
  });
  return ok ? 0 : 1;
}
