// Programs over remote calls with real threads (C12, C13).
// usage: call_seq <rpc|prpc> <root> <programs> <length> <seed> <out>
// At the end everything is drained: every server has dealt with a last request of every client, and every client has its answer.
#include "calllib.hpp"
#include <atomic>
#include <thread>
#include <unistd.h>
using namespace kl;

static std::recursive_mutex mu;
static std::atomic<int> nthreads{0};

int main(int argc, char** argv) {
  if (argc < 7) return 99;
  bool prog = !strcmp(argv[1], "prpc");
  setenv("A0_ROOT", argv[2], 1);
  long nprog = atol(argv[3]);
  int len = atoi(argv[4]);
  Rng r(atol(argv[5]));
  VTrace::get().init(argv[6]);
  excl() = [](std::function<void()> f) { std::lock_guard<std::recursive_mutex> l(mu); f(); };
  for (long n = 0; n < nprog; n++) {
    IdTrace::get().events.clear();
    World* W = new World;
    W->prog = prog;
    W->topic = "t" + std::to_string(n);
    W->size = 1 << 20;
    W->who = [] { static thread_local int id = -1; if (id < 0) id = ++nthreads; return id; };
    W->at = [](long) { a0_time_mono_t t; a0_time_mono_now(&t); return t; };
    W->fo.create_options.size = W->size;
    a0_file_t f;
    if (a0_file_open(W->path().c_str(), &W->fo, &f)) return 99;
    ev(J().str("o", "tick").i("t", 10));
    std::vector<int> open;
    std::map<int, void*> mems;
    int nh = 0;
    auto opener = [&](char k, const std::string& habit) {
      int h = ++nh;
      void* m = calloc(1, 4096);
      mems[h] = m;
      W->open(W->hs[h], h, k, habit, m);
      open.push_back(h);
    };
    auto is = [&](int h, char k) { return tolower(W->hs[h].kind) == k; };
    auto pick = [&](char k) -> Handle* {
      std::vector<int> c;
      for (int h : open) if (is(h, k)) c.push_back(h);
      return c.empty() ? nullptr : &W->hs[c[r.below(c.size())]];
    };
    auto closer = [&](int h) {
      W->close(W->hs[h]);
      open.erase(std::find(open.begin(), open.end(), h));
      if (isupper(W->hs[h].kind)) memset(mems[h], 0xEE, 4096);
    };
    static const char* SH[] = {"d", "dd", "k", "pd", "dn", "kn", "ppd"};
    static const char* CH[] = {"", "", "e", "c"};
    auto some_server = [&] { std::string h = SH[r.below(7)]; opener(r.chance(50) ? 'S' : 's', h); };
    some_server();
    opener(r.chance(50) ? 'C' : 'c', CH[r.below(4)]);
    for (int s = 0; s < len; s++) {
      switch (r.below(14)) {
        case 0: if (open.size() < 6) some_server(); break;
        case 1: if (open.size() < 6) opener(r.chance(50) ? 'C' : 'c', CH[r.below(4)]); break;
        case 2: if (open.size() > 3) { int h = open[r.below(open.size())]; if (is(h, 's') || W->hs[h].habit.empty()) closer(h); } break;   // not one that its callback may be using
        case 3: case 4: case 5: if (Handle* c = pick('c')) W->send(*c, "qqnfL"[r.below(5)]); break;
        case 6: if (Handle* c = pick('c')) { if (!prog) W->send(*c, 't'); } break;
        case 7: {
          bool answered = false;
          for (int h : open) answered |= is(h, 's') && W->hs[h].habit.find('d') != std::string::npos;
          if (Handle* c = pick('c')) if (!prog && answered) W->send(*c, 'b');
          break;
        }
        case 8: case 9: {
          Handle *c = pick('c'), *o = r.chance(70) ? c : pick('c');
          std::string id;
          if (c) excl()([&] { if (!o->sent.empty()) id = o->sent[r.below(o->sent.size())]; });
          if (!id.empty()) W->cancel(*c, id);
          break;
        }
        case 10: case 11: {
          Handle* x = pick('s');
          Handle::Req q;
          bool got = false;
          if (x) excl()([&] { if (!x->kept.empty()) { q = x->kept[r.below(x->kept.size())]; got = true; } });
          if (got) W->reply(*x, q, r.chance(60));
          break;
        }
        case 12: W->foreign(f.arena, (int)r.below(9), "01234567-89ab-cdef-0123-456789abcdee"); break;
        case 13: std::this_thread::yield(); break;
      }
    }
    // drain
    bool hang = false;
    auto wait = [&](std::function<bool()> cond) {
      for (int t = 0; t < 100000 && !hang; t++) {
        bool ok = false;
        excl()([&] { ok = cond(); });
        if (ok) return;
        usleep(t < 100 ? 20 : 200);
      }
      hang = true;
    };
    opener('S', "d");
    opener('C', "");
    for (int round = 0; round < 3; round++) {
      std::vector<std::pair<int, std::string>> last;
      std::vector<int> now = open;
      for (int h : now)
        if (is(h, 'c')) {
          std::string sent = W->send(W->hs[h], 'q');
          last.push_back({h, sent});
        }
      for (int h : now) if (is(h, 's')) for (auto& l : last) wait([&] { return W->hs[h].over.count(l.second) > 0; });
      for (auto& l : last) wait([&] { return W->hs[l.first].over.count(l.second) > 0; });
    }
    for (int h : open) if (is(h, 's')) W->keep_check(W->hs[h]);
    if (hang) ev(J().str("o", "hang"));
    std::vector<J> log;
    W->ending(f.arena, &log, true);
    IdTrace::get().finish(J().objs("log", log).i("program", n), [] { VTrace::get().end(); });
    if (hang) break;      // what hangs cannot be closed either
    while (!open.empty()) closer(open[0]);
    IdTrace::get().events.clear();
    a0_file_close(&f);
    a0_file_remove(W->path().c_str());
    for (auto& m : mems) free(m.second);
    W->kept_pkts.clear();
    delete W;
  }
  VTrace::get().flush();
  _exit(0);
}
