// Configuration topics, one call at a time (C11).
// usage: cfg_seq <root> <random programs> <length> <seed> <out>
#include "cfglib.hpp"
#include <unistd.h>
using namespace cl;

static long n_prog;

struct Prog {
  World w;
  a0_file_t file;
  std::vector<J> log;
  uint64_t seen = 0;
  bool ok = true;
  User us[2];
  std::vector<std::pair<std::string, a0::Cfg::Var<json>>> vars;
  Prog(size_t size, bool second_cpp = true) {
    IdTrace::get().events.clear();
    w.topic = "t" + std::to_string(n_prog++);
    w.size = size;
    w.at = [](long) { a0_time_mono_t t; a0_time_mono_now(&t); return t; };   // deadlines are already over
    w.fo.create_options.size = size;
    if (a0_file_open((w.topic + ".cfg.a0").c_str(), &w.fo, &file)) _exit(99);
    w.open(us[0], 'C');
    w.open(us[1], second_cpp ? 'c' : 'C');
    ev(J().str("o", "tick").i("t", 10));
  }
  void op(int u, char k, const std::string& text, int big) {
    if (k == 'K' && log.empty()) return;   // would wait for ever
    w.op(us[u], k, text, big);
    ok = ok && values(file.arena, seen, &log);
  }
  void bind(const std::string& m) {
    for (size_t n = 0; n < vars.size(); n++)
      if (vars[n].first == m) vars.erase(vars.begin() + n--);
    vars.push_back({m, us[1].cpp->var<json>("/" + m)});
    ev(J().str("o", "bind").str("m", m));
  }
  void update() {
    std::string r = guarded([&] { us[1].cpp->update_var(); });
    ev(J().str("o", "update").str("r", r));
    look();
  }
  void look() {
    for (auto& v : vars) {
      json val;
      std::string r = guarded([&] { val = *v.second; });
      ev(J().str("o", "var").str("m", v.first).str("r", r).raw("v", r == "ok" ? enc(val) : NOV()));
    }
  }
  void end(const std::string& what) {
    vars.clear();
    w.close(us[0]);
    w.close(us[1]);
    if (!ok) ev(J().str("o", "badlog"));
    ev(J().str("o", "quiet"));
    IdTrace::get().finish(J().objs("log", log).str("what", what), [] { VTrace::get().end(); });
    a0_file_close(&file);
    a0_file_remove((w.topic + ".cfg.a0").c_str());
  }
};

int main(int argc, char** argv) {
  if (argc < 6) return 99;
  setenv("A0_ROOT", argv[1], 1);
  long nrand = atol(argv[2]);
  int len = atoi(argv[3]);
  Rng r(atol(argv[4]));
  VTrace::get().init(argv[5]);
  // every value patched with every patch, by either kind of user
  std::string D = "abcdefghijklmn";
  for (char v : D)
    for (char p : D) {
      Prog g(65536);
      g.op(0, 'R', "", 0);
      g.op(0, 'T', "", 0);
      g.op(v & 1, 'W', doc(v), 0);
      g.op(p & 1, 'P', doc(p), 0);
      g.op(0, 'R', "", 0);
      g.op(1, 'I', doc('a'), 0);
      g.op(0, 'I', doc('b'), 0);
      g.op(1, 'K', "", 0);
      g.op(1, 'W', doc('j'), 0);      // whatever happened, the topic is as good as new
      g.op(0, 'P', doc('a'), 0);
      g.op(1, 'R', "", 0);
      g.end(std::string(1, v) + p);
    }
  // patches and write-if-empty into the empty topic
  for (char p : D)
    for (char k : std::string("PI")) {
      Prog g(65536);
      g.op(p & 1, k, doc(p), 0);
      g.op(0, 'R', "", 0);
      g.op(1, 'P', doc('b'), 0);
      g.op(0, 'I', doc('b'), 0);
      g.op(1, 'T', "", 0);
      g.end(std::string(1, k) + p);
    }
  // documents of any size that fits the topic
  for (char v : std::string("YZ")) {
    Prog g(16 << 20);
    g.op(0, 'W', doc(v), 0);
    g.op(1, 'P', doc('a'), 0);
    g.op(0, 'P', doc('Y'), 0);
    g.op(1, 'R', "", 0);
    g.op(1, 'P', doc('i'), 0);
    g.op(0, 'R', "", 0);
    g.end(std::string("large ") + v);
  }
  for (long n = 0; n < nrand; n++) {
    Prog g(r.chance(50) ? 4096 : 65536);
    bool cpp = true;
    for (int s = 0; s < len; s++) {
      char k = "WIPPPPRRTK"[r.below(10)];
      int u = (int)r.below(2);
      if (cpp && r.chance(20)) {
        switch (r.below(3)) {
          case 0: g.update(); break;
          case 1: g.bind(r.chance(50) ? "a" : "b"); g.look(); break;
          case 2: g.look(); break;
        }
        continue;
      }
      if (r.chance(6) && k != 'I') {
        g.op(u, k, "{\"c\":\"" + std::string(g.w.size, 'x') + "\"}", 2);
        continue;
      }
      std::string t = doc(D[r.below(D.size())]);
      if (g.w.size > 5000 && r.chance(10)) t = "{\"s\":\"" + std::string(r.below(600), 's') + "\",\"n\":" + std::to_string(r.below(100)) + "}";
      g.op(u, k, t, 0);
    }
    g.end("random " + std::to_string(n));
  }
  VTrace::get().flush();
  return 0;
}
