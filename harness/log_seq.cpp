// Programs over log topics with real threads (C14).
// usage: log_seq <root> <programs> <length> <seed> <out>
// At the end everything is drained: every listener has been told of a last message of the highest severity.
#include "loglib.hpp"
#include <atomic>
#include <thread>
#include <unistd.h>
using namespace lg;

static std::recursive_mutex mu;

int main(int argc, char** argv) {
  if (argc < 6) return 99;
  setenv("A0_ROOT", argv[1], 1);
  long nprog = atol(argv[2]);
  int len = atoi(argv[3]);
  Rng r(atol(argv[4]));
  VTrace::get().init(argv[5]);
  excl() = [](std::function<void()> f) { std::lock_guard<std::recursive_mutex> l(mu); f(); };
  for (long n = 0; n < nprog; n++) {
    IdTrace::get().events.clear();
    World* W = new World;
    W->topic = "t" + std::to_string(n);
    W->size = 1 << 18;
    W->fo.create_options.size = W->size;
    a0_file_t f;
    if (a0_file_open(W->path().c_str(), &W->fo, &f)) return 99;
    Logger lgs[3];
    for (int i = 0; i < 3; i++) W->open(lgs[i], "CcC"[i]);
    std::vector<int> open;
    std::map<int, void*> mems;
    int nh = 0;
    auto closer = [&](int h) {
      W->close(W->hs[h]);
      open.erase(std::find(open.begin(), open.end(), h));
      if (W->hs[h].kind == 'C') memset(mems[h], 0xEE, 4096);
    };
    auto opener = [&](int lvl, int init, int iter) {
      int h = ++nh;
      mems[h] = calloc(1, 4096);
      W->open(W->hs[h], h, r.chance(50) ? 'C' : 'c', lvl, init, iter, mems[h]);
      open.push_back(h);
    };
    static const char* X[] = {"DBG", "CRIT", "bad", "INFO"};
    for (int s = 0; s < len; s++) {
      switch (r.below(12)) {
        case 0: case 1: if (open.size() < 6) opener((int)r.below(5), (int)r.below(3), r.chance(25)); break;
        case 2: if (open.size() > 2) closer(open[r.below(open.size())]); break;
        case 3: W->foreign(f.arena, (int)r.below(10)); break;
        case 4: W->say(lgs[r.below(3)], (int)r.below(5), 0, false, X[r.below(4)]); break;
        case 5: W->say(lgs[r.below(3)], r.chance(50) ? 5 : 6, 0); break;
        case 6: if (r.chance(30)) W->say(lgs[r.below(3)], (int)r.below(5), 1, true); break;
        case 7: std::this_thread::yield(); break;
        default: W->say(lgs[r.below(3)], (int)r.below(5), (int)r.below(2));
      }
    }
    bool hang = false;
    std::string last = W->say(lgs[0], 0, 1);
    for (int h : open) {
      if (W->hs[h].w == nullptr) continue;
      bool ok = false;
      for (int t = 0; t < 25000 && !ok && !hang; t++) {
        excl()([&] { ok = W->hs[h].got.count(last) > 0; });
        if (!ok) usleep(t < 100 ? 20 : 200);
      }
      hang = hang || !ok;
    }
    if (hang) ev(J().str("o", "hang"));
    std::vector<J> log;
    excl()([&] {
      W->ending(f.arena, &log, true);
      IdTrace::get().finish(J().objs("log", log).i("program", n), [] { VTrace::get().end(); });
    });
    if (hang) break;
    while (!open.empty()) closer(open[0]);
    IdTrace::get().events.clear();
    for (auto& l : lgs) W->close(l);
    a0_file_close(&f);
    a0_file_remove(W->path().c_str());
    for (auto& m : mems) free(m.second);
    delete W;
  }
  VTrace::get().flush();
  _exit(0);
}
