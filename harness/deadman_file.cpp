// Deadman files (C and C++ interface) used by several processes, one call at a time, with processes killed (C08).
// usage: deadman_file <dir> <histories> <length> <seed> <out>
#include <a0.h>
#include <a0/deadman.h>
#include <a0/deadman.hpp>
#include <a0/tid.h>
#include <sys/stat.h>
#include <memory>
#include "a0util.hpp"
#include "worker.hpp"

static std::string run(bool cpp, const std::string& topic, const std::string& cmd) {
  static a0_deadman_t d;
  static std::unique_ptr<a0::Deadman> D;
  static bool open_ = false;
  char k = cmd[0];
  uint64_t v = cmd.size() > 1 ? strtoull(cmd.c_str() + 1, nullptr, 10) : 0;
  a0_time_mono_t past, soon;
  a0_time_mono_now(&past);
  soon = past;
  past.ts.tv_sec -= 1;
  soon.ts.tv_sec += 30;
  uint64_t tk = 0;
  J r;
  auto plain = [&](a0_err_t e) { return e ? errname(e) : std::string("ok"); };
  std::string res;
  if (k == 'I') return std::to_string(a0_tid());
  if (!cpp) {
    switch (k) {
      case 'O': res = plain(a0_deadman_init(&d, a0_deadman_topic_t{topic.c_str()})); open_ = true; break;
      case 'C': res = plain(a0_deadman_close(&d)); open_ = false; break;
      case 'T': res = plain(a0_deadman_trytake(&d)); break;
      case 'L': res = plain(a0_deadman_take(&d)); break;
      case 'l': res = plain(a0_deadman_timedtake(&d, v ? &soon : &past)); break;
      case 'U': res = plain(a0_deadman_release(&d)); break;
      case 'W': res = plain(a0_deadman_wait_taken(&d, &tk)); break;
      case 'w': res = plain(a0_deadman_timedwait_taken(&d, &past, &tk)); break;
      case 'R': res = plain(a0_deadman_wait_released(&d, v)); break;
      case 'r': res = plain(a0_deadman_timedwait_released(&d, &past, v)); break;
      case 'X': res = plain(a0_deadman_mtx_shutdown(&d._deadman_mtx)); break;
      case 'Q': {
        a0_deadman_state_t s;
        a0_err_t e = a0_deadman_state(&d, &s);
        if (e) { res = errname(e); break; }
        return (s.is_locked ? "owned" : "free") + std::string(" ") + std::to_string(s.tkn) + " " + std::to_string(s.owner_tid) + " " + (s.is_owner ? "1" : "0");
      }
    }
  } else {
    a0::TimeMono tpast = a0::TimeMono::now() - std::chrono::seconds(1), tsoon = a0::TimeMono::now() + std::chrono::seconds(30);
    bool b = true;
    res = guarded([&] {
      switch (k) {
        case 'O': D.reset(new a0::Deadman(a0::DeadmanTopic(topic))); break;
        case 'C': D.reset(); break;
        case 'T': b = D->try_take(); break;
        case 'L': D->take(); break;
        case 'l': if (v) D->take(tsoon); else D->take(tpast); break;
        case 'U': D->release(); break;
        case 'W': tk = D->wait_taken(); break;
        case 'w': tk = D->wait_taken(tpast); break;
        case 'R': D->wait_released(v); break;
        case 'r': D->wait_released(v, tpast); break;
        case 'X': a0_deadman_mtx_shutdown(&D->c->_deadman_mtx); break;
        case 'Q': break;
      }
    });
    if (k == 'Q') {
      a0::Deadman::State s;
      res = guarded([&] { s = D->state(); });
      if (res == "ok") return (s.is_taken ? "owned" : "free") + std::string(" ") + std::to_string(s.tkn) + " " + std::to_string(s.owner_tid) + " " + (s.is_owner ? "1" : "0");
    }
    if (k == 'T' && res == "ok") res = b ? "taken" : "refused";
    else if (res == "ok" && (k == 'L' || k == 'l')) res = "taken";
  }
  if ((k == 'W' || k == 'w') && res != "ok") tk = 0;
  return res + " " + std::to_string(tk);
}

int main(int argc, char** argv) {
  if (argc < 6) return 99;
  std::string dir = argv[1];
  long nh = atol(argv[2]), len = atol(argv[3]);
  Rng rng(atoll(argv[4]));
  VTrace& T = VTrace::get();
  T.init(argv[5]);
  setenv("A0_ROOT", dir.c_str(), 1);
  int gone = 0;   // a few hung or dead processes tell enough
  for (long n = 0; n < nh && gone < 3; n++) {
    std::string topic = "t" + std::to_string(n);
    const int P = 8;
    Worker w[P + 1];
    long tid[P + 1] = {0};
    bool cpp[P + 1] = {0}, alive[P + 1] = {0}, open_[P + 1] = {0}, sd[P + 1] = {0};
    int born = 0, owner = 0;   // the driver's own idea of the owner only keeps it from blocking
    uint64_t cur = 0;          // a token seen in the present ownership
    std::vector<uint64_t> toks = {999};
    T.begin(J().i("n", P));
    auto birth = [&] {
      int p = ++born;
      cpp[p] = rng.chance(50);
      bool c = cpp[p];
      w[p].start([c, topic](const std::string& cmd) { return run(c, topic, cmd); });
      tid[p] = atol(w[p].call("I").c_str());
      alive[p] = true;
      open_[p] = false;
      sd[p] = false;
    };
    for (int i = 0; i < 3; i++) birth();
    auto call = [&](int p, const char* k, const std::string& cmd, uint64_t v, long dl, bool token) {
      J c;
      c.str("o", "call").i("p", p).i("h", p).str("k", k).i("v", v).i("dl", dl);
      if (!strcmp(k, "shutdown")) c.arr("asleep", {});
      T.ev(c);
      std::string a = w[p].call(cmd);
      if (a == "" || a == "?") {
        T.ev(J().str("o", a == "" ? "signal" : "hang").i("p", p));
        return std::string();
      }
      char res[64] = {0};
      unsigned long long tk = 0;
      long otid = 0;
      int iso = 0;
      sscanf(a.c_str(), "%63s %llu %ld %d", res, &tk, &otid, &iso);
      J r;
      r.str("o", "ret").i("p", p).str("r", res).i("v", tk).i("t", 0);
      if (!strcmp(k, "state")) {
        int own = otid ? 99 : 0;
        for (int q = 1; q <= born; q++) if (otid && tid[q] == otid) own = q;
        r.i("own", own).b("iso", iso);
      }
      if (!strcmp(k, "shutdown")) r.arr("asleep", {});
      T.ev(r);
      if (token && tk) { toks.push_back(tk); cur = tk; }
      return std::string(res);
    };
    bool stop = false;
    for (long i = 0; i < len && !stop; i++) {
      int p = 1 + rng.below(born);
      if (!alive[p]) continue;
      if (!open_[p]) {
        std::string a = w[p].call("O");
        T.ev(J().str("o", "open").i("p", p).str("r", a.substr(0, a.find(' '))));
        open_[p] = true;
        sd[p] = false;
        continue;
      }
      std::string r = "x";
      switch (rng.below(14)) {
        case 0: case 1: r = call(p, "try", "T", 0, -1, false); if (r == "ok" || r == "taken" || r == "EOWNERDEAD") { if (owner != p) cur = 0; owner = p; } break;
        case 2: if ((owner == 0 || owner == p) || sd[p]) { r = call(p, "lock", "L", 0, -1, false); if (r == "ok" || r == "taken" || r == "EOWNERDEAD") { if (owner != p) cur = 0; owner = p; } } break;
        case 3: { bool f = rng.chance(50) && (owner == 0 || owner == p); r = call(p, "tlock", f ? "l1" : "l0", 0, 0, false);
                  if (r == "ok" || r == "taken" || r == "EOWNERDEAD") { if (owner != p) cur = 0; owner = p; } break; }
        case 4: case 5: { int q = rng.chance(70) && owner && alive[owner] && open_[owner] ? owner : p; r = call(q, "unlock", "U", 0, -1, false); if (r == "ok" && owner == q) { owner = 0; cur = 0; } break; }
        case 6: if (owner || sd[p]) r = call(p, "waitlk", "W", 0, -1, true); break;
        case 7: r = call(p, "twaitlk", "w", 0, 0, true); break;
        case 8: { uint64_t v = toks[rng.below(toks.size())]; if (!(owner && (cur == 0 || v == cur)) || sd[p]) r = call(p, "waitun", "R" + std::to_string(v), v, -1, false); break; }
        case 9: { uint64_t v = toks[toks.size() - 1 - rng.below(std::min<size_t>(toks.size(), 3))]; r = call(p, "twaitun", "r" + std::to_string(v), v, 0, false); break; }
        case 10: case 11: r = call(p, "state", "Q", 0, -1, true); break;
        case 12:
          if (rng.chance(30)) { r = call(p, "shutdown", "X", 0, -1, false); sd[p] = true; }
          else if (rng.chance(60)) {
            T.ev(J().str("o", "close").i("p", p));
            r = w[p].call("C");
            if (r == "" || r == "?") T.ev(J().str("o", "signal").i("p", p));
            open_[p] = false;
            if (owner == p) { owner = 0; cur = 0; }
          }
          break;
        case 13:
          if (rng.chance(50) && born < P) {
            T.ev(J().str("o", "die").i("p", p));
            w[p].kill9();
            alive[p] = false;
            if (owner == p) { owner = 0; cur = 0; }
            birth();
          }
          break;
      }
      if (r.empty()) { stop = true; gone++; }
    }
    T.ev(J().str("o", "quiet").i("p", 0).i("h", 0).arr("blocked", {}));
    T.end();
    for (int p = 1; p <= born; p++) if (alive[p]) w[p].kill9();
    unlink((dir + "/" + topic + ".deadman").c_str());
  }
  return 0;
}
