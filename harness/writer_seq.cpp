// Writers and their stages, one call at a time (C10).
// usage: writer_seq <root> <random programs> <length> <seed> <out>
#include "writerlib.hpp"
#include <algorithm>
#include <sys/stat.h>
#include <unistd.h>
using namespace wl;

static std::string root;
static long n_prog;

struct Prog {
  World w;
  std::vector<J> log;
  uint64_t seen = 0;
  bool ok = true;
  std::vector<uint8_t> mem;
  a0_file_t file;
  bool use_file;
  std::string what;
  size_t asz;
  Prog(size_t arena_size, bool with_file) : use_file(with_file), asz(arena_size) {
    start();
    if (use_file) {
      w.topic = "t" + std::to_string(n_prog++);
      w.fo.create_options.size = arena_size;
      if (a0_file_open((w.topic + ".pubsub.a0").c_str(), &w.fo, &file)) _exit(99);
      w.arena = file.arena;
    } else {
      mem.assign(arena_size, 0);
      w.arena = {{mem.data(), mem.size()}, A0_ARENA_MODE_SHARED};
    }
  }
  void write(int id, const std::vector<H>& hs, const std::string& pay, int big) {
    w.write(id, hs, pay, big);
    seen = collect(w.arena, seen, &log, &ok);
  }
  void end() {
    for (int id = w.next; id >= 1; id--) if (w.ws[id]->open) w.close(id);
    ev(J().str("o", "quiet"));
    finish(log, ok, what, [] { VTrace::get().end(); });
    if (use_file) { a0_file_close(&file); a0_file_remove((w.topic + ".pubsub.a0").c_str()); }
  }
};

static std::string gen(Rng& r, int depth, bool idseq, bool wie) {
  if (depth > 0 && r.chance(40)) { std::string a = gen(r, depth - 1, false, wie), b = gen(r, depth - 1, false, wie); return "(" + a + b + ")"; }
  std::string k = "MWTulbulb";
  if (idseq) k = "SIQ";
  if (wie && r.chance(15)) k = "Ee";
  return std::string(1, k[r.below(k.size())]);
}
static std::vector<H> headers(Rng& r) {
  std::vector<H> hs;
  int n = (int)r.below(4);
  static const char* K[] = {"k", "", "a0_transport_seq", "a0_writer_id", "a0_time_mono", "z"};
  for (int j = 0; j < n; j++) hs.push_back({K[r.below(6)], "user" + std::to_string(r.below(3))});
  return hs;
}

static void one(const std::string& chain, const std::string& acts_, char kind, bool file) {   // a fixed chain, pushed stage by stage
  Prog p(16384, file);
  p.what = std::string(1, kind) + chain + acts_;
  int w = p.w.make(kind);
  for (int j = (int)chain.size() - 1; j >= 0; j--) p.w.push(w, chain.substr(j, 1));
  Rng r(chain.size());
  p.write(w, {{"k", "v"}}, "p0", 0);
  // the stage given does something else for one write, in one of its phases
  for (const char* a : {"refuse", "drop", "hdr", "pay"}) {
    for (int n = 1; n <= names(); n++)
      for (const char* ph : {"u", "l"}) {
        acts().clear();
        acts()[n][ph] = a;
        p.write(w, {}, "p1", 0);
      }
  }
  acts().clear();
  p.write(w, {}, std::string(20000, 'x'), 2);
  p.write(w, {{"k", "v"}}, "p2", 0);
  p.end();
}

int main(int argc, char** argv) {
  if (argc < 6) return 99;
  root = argv[1];
  setenv("A0_ROOT", root.c_str(), 1);
  long nrand = atol(argv[2]);
  int len = atoi(argv[3]);
  Rng r(atol(argv[4]));
  VTrace::get().init(argv[5]);
  int q = 0;
  // every chain of up to three of these stages
  std::string K = "ulbMTE";
  for (int n = 0; n <= 3; n++) {
    int total = 1;
    for (int j = 0; j < n; j++) total *= (int)K.size();
    for (int x = 0; x < total; x++) {
      std::string ch;
      for (int j = 0, y = x; j < n; j++) { ch += K[y % K.size()]; y /= (int)K.size(); }
      if (std::count(ch.begin(), ch.end(), 'E') > 1) continue;
      char kind = "CcPp"[q++ % 4];
      one(ch, "", kind, kind == 'P' || kind == 'p');
    }
  }
  for (long k = 0; k < nrand; k++) {
    bool file = r.chance(30);
    size_t asz = r.chance(50) ? 4096 : 65536;
    bool wie = asz > 5000 && r.chance(30);
    Prog p(asz, file);
    p.what = "random " + std::to_string(k);
    int ids = 1 + (int)r.below(3);
    for (int j = 0; j < ids; j++) {
      int w = p.w.make(file ? "CcPp"[r.below(4)] : "Cc"[r.below(2)]);
      if (p.w.ws[w]->own.empty() && r.chance(70)) p.w.push(w, gen(r, 0, true, false));
    }
    for (int s = 0; s < len; s++) {
      std::vector<int> open;
      for (auto& e : p.w.ws) if (e.second->open) open.push_back(e.first);
      if (open.empty()) break;
      int w = open[r.below(open.size())];
      acts().clear();
      switch (r.below(12)) {
        case 0: case 1: p.w.push(w, gen(r, 2, false, wie)); break;
        case 2: {
          int depth = 0;
          for (int x = w; x; x = p.w.ws[x]->from) depth++;
          if (depth < 4 && p.w.next < 9) p.w.wrap(w, gen(r, 2, false, wie));
          break;
        }
        case 3: {
          bool usedby = false;
          for (auto& e : p.w.ws) if (e.second->open && e.second->from == w) usedby = true;
          if (!usedby && r.chance(30)) p.w.close(w);
          break;
        }
        default: {
          for (int n = 1; n <= names(); n++)
            for (const char* ph : {"u", "l"})
              if (r.chance(25)) acts()[n][ph] = (const char*[]){"hdr", "pay", "hdr", "pay", "refuse", "drop"}[r.below(r.chance(30) ? 6 : 4)];
          int big = r.chance(10) ? 2 : r.chance(10) ? 1 : 0;
          std::string pay(big == 2 ? asz + r.below(100000) : big == 1 ? asz / 4 + r.below(asz) : r.below(asz / 20), 'a');
          for (auto& c : pay) c = (char)r.next();
          // a stage that replaces the payload makes the size not matter
          bool shrinks = false;
          for (auto& a : acts()) for (auto& x : a.second) shrinks |= x.second == "pay";
          p.write(w, headers(r), pay, big && shrinks ? 1 : big);
        }
      }
    }
    p.end();
  }
  VTrace::get().flush();
  return 0;
}
