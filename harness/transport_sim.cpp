// The transport used by several participants under every schedule (C05, C01).
// usage: transport_sim <set> <preemptions> <kills> <max_runs> <random_runs> <seed> <out>
#include <a0.h>
#include <map>
#include "a0util.hpp"
#include "simtrace.hpp"

struct Scen {
  size_t asz;
  std::vector<std::string> s;   // script per participant: "<handle digit>:<ops>"
  bool preopen = true;          // handles are opened beforehand
  std::vector<std::string> init = {};  // frames there from the start
  bool mortal = true;
};

static uint8_t* arena() { return sim::shared() + 4096; }
static a0_transport_t* handle(int h) { return (a0_transport_t*)(sim::shared() + h * 256); }
static size_t g_asz;
static std::map<int, std::string> pend;  // participant -> operation in progress
static std::map<int, int> at;            // participant -> handle

static a0_arena_t mk_arena() { return a0_arena_t{{arena(), g_asz}, A0_ARENA_MODE_SHARED}; }

struct P {
  int p, h, n = 0;
  bool placed = false;  // the cursor is on a frame
  a0_transport_locked_t lk = {};
  a0_transport_frame_t* fr = nullptr;
  J E(const char* o) { return J().str("o", o).i("p", p).i("h", h); }
  static int ident(const a0_transport_frame_t* f) {
    size_t n = f->hdr.data_size;
    if (n > g_asz) return -8;
    int d = f->data[0];
    for (size_t j = 0; j < n; j++) {
      if (j == n / 2) sim::point();
      if (f->data[j] != (uint8_t)(d + j * 3)) return -9;
    }
    return n ? d : 0;
  }
  void fill(int d) {
    size_t n = fr->hdr.data_size;
    for (size_t j = 0; j < n; j++) {
      if (j == n / 2) sim::point();
      fr->data[j] = (uint8_t)(d + j * 3);
    }
  }
  void commit() {
    pend[p] = J().str("o", "commit").done();
    a0_err_t e = a0_transport_commit(lk);
    pend[p] = "";
    VTrace::get().ev(E("commit").str("r", errname(e)));
  }
  void run(const std::string& s) {
    auto& T = VTrace::get();
    for (size_t i = 0; i < s.size(); i++) {
      char k = s[i];
      auto num = [&]() { int v = 0; while (i + 1 < s.size() && isdigit((unsigned char)s[i + 1])) v = v * 10 + (s[++i] - '0'); return v; };
      n++;
      switch (k) {
        case 'O': {
          a0_err_t e = a0_transport_init(handle(h), mk_arena());
          T.ev(E("open").str("r", errname(e)));
          break;
        }
        case 'L': {
          a0_err_t e = a0_transport_lock(handle(h), &lk);
          T.ev(E("lock").str("r", errname(e)));
          break;
        }
        case 'U': T.ev(E("unlock")); a0_transport_unlock(lk); break;
        case 'A': {  // allocate and fill
          int sz = num(), d = p * 20 + n;
          pend[p] = J().str("o", "alloc").i("n", sz).i("d", -1).done();
          a0_err_t e = a0_transport_alloc(lk, sz, &fr);
          pend[p] = "";
          if (e) { T.ev(E("alloc").i("n", sz).str("r", errname(e))); break; }
          T.ev(E("alloc").i("n", sz).str("r", "ok").i("off", (long)fr->hdr.off).i("seq", (long)fr->hdr.seq).i("sz", (long)fr->hdr.data_size));
          fill(d);
          T.ev(E("fill").i("d", sz ? d : 0));
          break;
        }
        case 'C': commit(); break;
        case 'X': {
          pend[p] = J().str("o", "clear").done();
          a0_err_t e = a0_transport_clear(lk);
          pend[p] = "";
          T.ev(E("clear").str("r", errname(e)));
          break;
        }
        case 'W':
        case 'w': {
          char pk = s[++i];
          int dl = k == 'w' ? num() : -1;
          a0_predicate_t pr = pk == 'e' ? a0_transport_empty_pred(&lk) : pk == 'n' ? a0_transport_nonempty_pred(&lk) : a0_transport_has_next_pred(&lk);
          T.ev(E("waitcall").str("k", pk == 'e' ? "empty" : pk == 'n' ? "nonempty" : "has_next").i("dl", dl));
          a0_time_mono_t t;
          uint64_t ns = sim::T0 + (dl < 0 ? 0 : dl) * sim::MS;
          t.ts.tv_sec = ns / 1000000000ull;
          t.ts.tv_nsec = ns % 1000000000ull;
          a0_err_t e = dl < 0 ? a0_transport_wait(lk, pr) : a0_transport_timedwait(lk, pr, &t);
          T.ev(E("wret").str("r", errname(e)).i("t", dl < 0 ? 0 : sim::now_ms()));
          break;
        }
        case 'S': {
          T.ev(E("shut"));
          a0_err_t e = a0_transport_shutdown(lk);
          T.ev(E("shutret").str("r", errname(e)));
          break;
        }
        case 'H':
        case 'T':
        case 'N': {
          a0_err_t e = k == 'H' ? a0_transport_jump_head(lk) : k == 'T' ? a0_transport_jump_tail(lk) : a0_transport_step_next(lk);
          if (!e) placed = true;
          T.ev(E(k == 'H' ? "jump_head" : k == 'T' ? "jump_tail" : "next").str("r", errname(e)));
          break;
        }
        case 'F': {
          if (!placed) break;
          a0_transport_frame_t* f;
          a0_err_t e = a0_transport_frame(lk, &f);
          if (e) T.ev(E("frame").str("r", errname(e)));
          else { int d = ident(f); T.ev(E("frame").str("r", "ok").i("seq", (long)f->hdr.seq).i("off", (long)f->hdr.off).i("sz", (long)f->hdr.data_size).i("d", d)); }
          break;
        }
        case 'Q': {
          bool b;
          a0_transport_nonempty(lk, &b); T.ev(E("nonempty").i("v", b));
          a0_transport_has_next(lk, &b); T.ev(E("has_next").i("v", b));
          uint64_t v;
          a0_transport_seq_low(lk, &v); T.ev(E("seq_low").i("v", (long)v));
          a0_transport_seq_high(lk, &v); T.ev(E("seq_high").i("v", (long)v));
          break;
        }
        case 'R': {  // everything, on a handle of its own so that the cursor is not disturbed
          std::vector<J> fr;
          a0_transport_t copy = *lk.transport;
          a0_transport_locked_t own = {&copy};
          if (!a0_transport_jump_head(own)) {
            for (int g = 0; g < 50; g++) {
              a0_transport_frame_t* f;
              if (a0_transport_frame(own, &f)) break;
              int d = ident(f);
              fr.push_back(J().i("seq", (long)f->hdr.seq).i("n", (long)f->hdr.data_size).i("d", d).i("off", (long)f->hdr.off));
              bool nx;
              a0_transport_has_next(own, &nx);
              if (!nx || a0_transport_step_next(own)) break;
            }
          }
          uint64_t lo, hi;
          a0_transport_seq_low(own, &lo);
          a0_transport_seq_high(own, &hi);
          T.ev(E("dump").objs("fr", fr).i("lo", (long)lo).i("hi", (long)hi));
          break;
        }
        default: _exit(99);
      }
    }
  }
};

int main(int argc, char** argv) {
  if (argc < 8) return 99;
  std::string set = argv[1];
  sim::Config base;
  base.preemptions = atoi(argv[2]);
  base.kills = atoi(argv[3]);
  base.max_runs = atol(argv[4]);
  base.random_runs = atol(argv[5]);
  base.seed = atoll(argv[6]);
  VTrace::get().init(argv[7]);

  std::vector<Scen> scen;
  const size_t S = 144 + 3 * 64;  // three small frames
  if (set == "own") {   // every participant has its own handle; any of them may die
    std::vector<std::string> wr = {"LA8CU", "LA8CULA9CU", "LA8U", "LA8CA9CU", "LXU", "LA20CULRU", "LRU", "LA8CLU"};
    std::vector<std::string> rd = {"LWnRU", "LWnHFU", "LWxNFU", "LWeRU", "Lwn5RU", "Lwx5QRU", "LRU", "LWxNFWxNFU", "LWnHFWxNFU"};
    wr.pop_back();
    for (auto& a : wr) for (auto& b : rd) scen.push_back({S, {a, b}});
    for (auto& a : wr) for (auto& b : rd) scen.push_back({S, {a, b}, true, {"8", "9"}});
    for (auto& a : {"LA8CU", "LA8U", "LXU"}) for (auto& b : {"LA9CU", "LA8CULRU"}) for (auto& c : {"LWnRU", "Lwx5RU", "LWeRU", "LWxNFU"}) {
      scen.push_back({S, {a, b, c}});
      scen.push_back({S, {a, b, c}, true, {"8", "8", "8"}});
    }
    for (auto& a : {"OLA8CU", "OLRU"}) for (auto& b : {"OLA8CU", "OLWnRU", "OLA8ULRU"}) scen.push_back({S, {a, b}, false});
    scen.push_back({S, {"OLA8CU", "OLA9CU", "OLRU"}, false});
    for (auto& a : {"LA8CU", "LXU", "LA50CU"}) for (auto& b : {"LWnRU", "LWeRU", "LWxNFU"}) for (auto& f : {"8", "16"})
      scen.push_back({S, {a, b, "LRU"}, true, {f}});
    scen.push_back({S, {"LA8CU", "LWnRU", "LRU"}});
    scen.push_back({S, {"LWnRU", "LWnRU", "LA8CU", "LA9CU"}});
    scen.push_back({S, {"Lwn5RU", "LWnRU", "LA8U", "LA8CU"}});
    scen.push_back({S, {"LWnRU", "LWnRU", "LWnRU", "LWnRU", "LA8CU"}});
    scen.push_back({S, {"LWnRU", "LWxNFU", "LWeU", "LWnHFU", "LA8CU"}});
    scen.push_back({S, {"LWxNFU", "LWxNFU", "LWeRU", "LWxNFU", "LXU", "LA8CU"}, true, {"8"}});
    scen.push_back({S, {"LWeU", "LWeU", "LTWxNFU", "LA8CU"}, true, {"8"}});     // whoever is woken first has nothing to do
    scen.push_back({S, {"LWeU", "LWeU", "LWeU", "LTWxNFU", "LTWxNFU", "LA8CU"}, true, {"8"}});
    scen.push_back({S, {"LTWxU", "LTWxU", "LTWxU", "LWeRU", "LXU"}, true, {"8"}});
    scen.push_back({S, {"Lwn5QRU", "Lwx6QRU", "LA8U"}});
    for (auto& f : {"LA140U", "LA140CU", "LA140ULA8U"}) {      // an allocation, perhaps given up, that evicts everything
      scen.push_back({S, {"LWeU", f}, true, {"8"}});
      scen.push_back({S, {"LWeRU", "LWxNFU", f, "LWeU"}, true, {"8", "9"}});
      scen.push_back({S, {"Lwe5QRU", f}, true, {"8", "9"}});
    }
    scen.push_back({S, {"LWnRU", "LA8we9QRU", "Lwn5QRU"}});     // an allocation given up by waiting
    scen.push_back({S, {"Lwn5QRU", "LA8wn3QRU"}});
    scen.push_back({S, {"LA8wx3QRU", "LA9CU"}, true, {"8"}});
  } else {  // handles shared by threads: waiting and shutting down
    for (auto& a : {"1LWnU", "1LWxNFU", "1Lwn5U", "1LWnRU"})
      for (auto& b : {"1LSU", "1LSULWnU", "1LSWnU"})
        for (auto& c : {"2LA8CU", "2LWnU", "1LWnU", "1Lwn3U", "1LSU", "2LSU"}) scen.push_back({S, {a, b, c}, true, {}, false});
    scen.push_back({S, {"1LWnU", "1LWnU", "1LSU", "2LWnRU"}, true, {}, false});
    scen.push_back({S, {"2LWnU", "3LWnU", "4LWnU", "1LWnU", "1LSU"}, true, {}, false});
    scen.push_back({S, {"2LWnU", "1LWnU", "3LWnU", "1LWnU", "1LWnU", "1LSU"}, true, {}, false});
    scen.push_back({S, {"2LWnU", "3LWnU", "1LWnU", "4LWnU", "1LSU", "5LA8CU"}, true, {}, false});
    scen.push_back({S, {"1LWnU", "1LSU", "2LWnRU", "2LSU"}, true, {}, false});
    scen.push_back({S, {"2LWeU", "3LWeU", "1LTWxNFU", "1LTWxNFU", "4LA8CU"}, true, {"8"}, false});
    scen.push_back({S, {"1LWnU", "1LSU", "2LWnRU", "3LA8CU"}, true, {}, false});
    scen.push_back({S, {"1LWxNFU", "1LSU", "2LWxNFU", "3LA8CU"}, true, {"8"}, false});
    scen.push_back({S, {"1LWxNFU", "2LWxNFU", "3LA20CULA20CU", "1LSU"}, true, {"8", "8"}, false});
  }

  bool ok = sim::parallel(8, scen.size(), [&](size_t i) {
    Scen& sc = scen[i];
    sim::Config c = base;
    c.seed = base.seed * 1000003 + i;
    if (!sc.mortal) c.kills = 0;
    if (sc.s.size() > 2 && c.preemptions > 1) c.preemptions--;
    auto setup = [&] {
      g_asz = sc.asz;
      pend.clear();
      auto& T = VTrace::get();
      // the starting content is made by the code itself and described by what it reports
      J cfg;
      cfg.i("asz", (long)g_asz).str("mode", "shared").i("n", (long)sc.s.size());
      if (sc.preopen) {
        a0_transport_init(handle(0), mk_arena());
        std::vector<J> fr;
        int d = 1;
        for (auto& f : sc.init) {
          a0_transport_locked_t lk;
          a0_transport_frame_t* p;
          a0_transport_lock(handle(0), &lk);
          a0_transport_alloc(lk, atoi(f.c_str()), &p);
          for (size_t j = 0; j < p->hdr.data_size; j++) p->data[j] = (uint8_t)(d + j * 3);
          a0_transport_commit(lk);
          fr.push_back(J().i("seq", (long)p->hdr.seq).i("off", (long)p->hdr.off).i("n", (long)p->hdr.data_size).i("d", d));
          d++;
          a0_transport_unlock(lk);
        }
        if (!fr.empty()) cfg.i("lo", 1).i("hi", (long)fr.size()).objs("fr", fr);
      }
      T.begin(cfg);
      sim_common_events();
      sim::on_death([](int id) {
        std::string pd = pend[id].empty() ? "[]" : "[" + pend[id] + "]";
        VTrace::get().ev(J().str("o", "die").i("p", id).i("h", at[id]).raw("pend", pd));
      });
      for (size_t k = 0; k < sc.s.size(); k++) {
        std::string s = sc.s[k];
        int h = k + 1;
        if (isdigit((unsigned char)s[0])) { h = s[0] - '0'; s = s.substr(1); }
        at[k + 1] = h;
        if (sc.preopen) a0_transport_init(handle(h), mk_arena());
        sim::spawn([h, k, s] { P x; x.p = k + 1; x.h = h; x.run(s); }, sc.mortal);
      }
    };
    sim::explore(c, setup, sim_finish);
    VTrace::get().flush();
    fprintf(stderr, "%zu runs=%ld kept=%ld\n", i, SimTrace::get().runs, SimTrace::get().kept);
  });
  return ok ? 0 : 1;
}
