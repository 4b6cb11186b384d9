// Loggers and log listeners, recorded for Log.tla.
#pragma once
#include <a0.h>
#include <a0/log.h>
#include <a0/log.hpp>
#include <algorithm>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include "a0util.hpp"
#include "idtrace.hpp"

namespace lg {
inline std::function<void(std::function<void()>)>& excl() { static std::function<void(std::function<void()>)> f = [](std::function<void()> g) { g(); }; return f; }
inline void ev(const J& j) { excl()([&] { IdTrace::get().ev(j); }); }

typedef std::vector<std::pair<std::string, std::string>> Headers;
// what the sender of a message decides: payload and own headers
inline std::string mine(const std::string& payload, Headers hs) {
  std::sort(hs.begin(), hs.end());
  std::string s = payload.size() > 200 ? "#" + std::to_string(payload.size()) : payload;
  for (auto& h : hs) if (h.first.compare(0, 3, "a0_")) s += "|" + h.first + "=" + h.second;
  return s;
}
inline int level_of(const std::string& s) {
  static const char* N[] = {"CRIT", "ERR", "WARN", "INFO", "DBG"};
  for (int i = 0; i < 5; i++) if (s == N[i]) return i;
  return 9;
}

struct World;
struct Listener {
  World* w = nullptr;
  int h = 0;
  char kind = 0;           // C, c
  bool selfclose = false;
  void* mem = nullptr;
  std::shared_ptr<a0::LogListener> cpp;
  int calls = 0;
  std::set<std::string> got;
};
struct Logger {
  char kind = 'C';
  a0_logger_t c;
  std::unique_ptr<a0::Logger> cpp;
};

struct World {
  std::string topic = "t";
  size_t size = 0;
  std::function<int()> who = [] { return 1; };
  std::function<void()> between = [] {};
  a0_file_options_t fo = A0_FILE_OPTIONS_DEFAULT;
  std::map<int, Listener> hs;
  std::map<std::string, int> odd;              // messages with a level header of their own besides
  std::vector<a0::Packet> kept;
  int ntok = 0;

  std::string path() const { return topic + ".log.a0"; }
  a0_log_topic_t ctopic() { fo.create_options.size = size; return {topic.c_str(), &fo}; }
  a0::LogTopic ptopic() { a0::File::Options o = a0::File::Options::DEFAULT; o.create_options.size = size; return a0::LogTopic(topic, o); }

  // --- publishing
  void open(Logger& g, char kind) {
    g.kind = kind;
    std::string r = kind == 'C' ? errname(a0_logger_init(&g.c, ctopic())) : guarded([&] { g.cpp.reset(new a0::Logger(ptopic())); });
    if (r != "ok") ev(J().str("o", "badopen").str("r", r));
  }
  void close(Logger& g) { if (g.kind == 'C') a0_logger_close(&g.c); else g.cpp.reset(); }
  // lvl: 0..4, anything else has no level. how 0: log(level), 1: the function of that level. extra: a level header by the user.
  std::string say(Logger& g, int lvl, int how, bool big = false, const char* extra = nullptr) {
    int n;
    excl()([&] { n = ++ntok; });
    std::string t = "m" + std::to_string(n), pay = big ? std::string(size, 'b') : n % 7 == 3 ? t + std::string(90, 'x') : n % 11 == 5 ? "" : t;
    std::unordered_multimap<std::string, std::string> hd{{"u", t}, {"u", "v"}};
    if (n % 5 == 2) hd.clear();
    if (extra) hd.emplace("a0_log_level", extra);
    a0::Packet pk(hd, pay);
    std::string id(pk.id().data(), pk.id().size());
    if (extra) excl()([&] { odd[id] = lvl; });
    Headers hs(hd.begin(), hd.end());
    ev(J().str("o", "call").i("p", who()).str("id", id).i("lvl", lvl >= 0 && lvl <= 4 ? lvl : 9).str("pay", mine(pay, hs)).b("big", big));
    between();
    std::string r;
    if (g.kind == 'C') {
      a0_err_t e;
      switch (how ? lvl : -1) {
        case 0: e = a0_logger_crit(&g.c, *pk.c); break;
        case 1: e = a0_logger_err(&g.c, *pk.c); break;
        case 2: e = a0_logger_warn(&g.c, *pk.c); break;
        case 3: e = a0_logger_info(&g.c, *pk.c); break;
        case 4: e = a0_logger_dbg(&g.c, *pk.c); break;
        default: e = a0_logger_log(&g.c, (a0_log_level_t)lvl, *pk.c);
      }
      r = errname(e);
    } else {
      r = guarded([&] {
        switch (how ? lvl : -1) {
          case 0: g.cpp->crit(pk); break;
          case 1: g.cpp->err(pk); break;
          case 2: g.cpp->warn(pk); break;
          case 3: g.cpp->info(pk); break;
          case 4: g.cpp->dbg(pk); break;
          default: g.cpp->log((a0::LogLevel)lvl, pk);
        }
      });
    }
    ev(J().str("o", "ret").i("p", who()).str("r", r));
    return id;
  }
  // a packet not written by a logger
  void foreign(a0_arena_t arena, int what) {
    static const char* L[] = {nullptr, "", "FATAL", "info", "INFO ", "UNKNOWN", "ERR", "DB", "CRIT", "0"};
    a0_writer_t w;
    a0_writer_init(&w, arena);
    int n;
    excl()([&] { n = ++ntok; });
    std::string pay = "f" + std::to_string(n);
    std::unordered_multimap<std::string, std::string> hd{{"u", "f"}};
    const char* l = L[what % 10];
    if (l) hd.emplace("a0_log_level", l);
    a0::Packet pk(hd, pay);
    ev(J().str("o", "call").i("p", who()).str("id", std::string(pk.id().data(), pk.id().size())).i("lvl", l ? level_of(l) : 9).str("pay", mine(pay, {{"u", "f"}})).b("big", false));
    between();
    std::string r = errname(a0_writer_write(&w, *pk.c));
    ev(J().str("o", "ret").i("p", who()).str("r", r));
    a0_writer_close(&w);
  }

  // --- listening
  void told(Listener& x, const std::string& id, Headers hs, const std::string& pay, std::function<std::string()> again) {
    int lvl = 9;
    for (auto& h : hs) if (h.first == "a0_log_level") lvl = level_of(h.second);
    excl()([&] { if (odd.count(id)) lvl = odd[id]; });
    std::string m = mine(pay, hs);
    ev(J().str("o", "cb").i("h", x.h).str("id", id).str("pay", m).i("lvl", lvl));
    between();
    if (x.selfclose && x.calls++ < 2) {
      std::string r = errname(a0_log_listener_close((a0_log_listener_t*)x.mem));
      ev(J().str("o", "self").i("h", x.h).str("r", r));
    }
    if (again() != m) ev(J().str("o", "altered"));
    ev(J().str("o", "cbend").i("h", x.h));
    excl()([&] { x.got.insert(id); });
  }
  void open(Listener& x, int h, char kind, int lvl, int init, int iter, void* mem) {
    static const char* IN[] = {"oldest", "recent", "new"};
    static const char* IT[] = {"next", "newest"};
    static const a0_reader_init_t CI[] = {A0_INIT_OLDEST, A0_INIT_MOST_RECENT, A0_INIT_AWAIT_NEW};
    static const a0_reader_iter_t CT[] = {A0_ITER_NEXT, A0_ITER_NEWEST};
    x.w = this; x.h = h; x.kind = kind; x.mem = mem;
    ev(J().str("o", "open").i("h", h).i("lvl", lvl).str("init", IN[init]).str("iter", IT[iter]));
    std::string r;
    if (kind == 'C') {
      a0_packet_callback_t cb = {&x, [](void* u, a0_packet_t pk) {
        Listener& x = *(Listener*)u;
        auto look = [&](std::string* pay, Headers* hs) {
          a0_packet_header_iterator_t it;
          a0_packet_t q = pk;
          a0_packet_header_iterator_init(&it, &q);
          a0_packet_header_t hd;
          while (!a0_packet_header_iterator_next(&it, &hd)) hs->push_back({hd.key, hd.val});
          pay->assign((char*)pk.payload.data, pk.payload.size);
        };
        Headers hs;
        std::string pay;
        look(&pay, &hs);
        x.w->told(x, std::string(pk.id, strnlen(pk.id, 37)), hs, pay, [&] { Headers h2; std::string p2; look(&p2, &h2); return mine(p2, h2); });
      }};
      a0_reader_options_t o = A0_READER_OPTIONS_DEFAULT;
      o.init = CI[init];
      o.iter = CT[iter];
      r = errname(a0_log_listener_init((a0_log_listener_t*)mem, ctopic(), heap(), (a0_log_level_t)lvl, o, cb));
    } else {
      auto cb = [&x](a0::Packet pk) {
        auto look = [&] { return mine(std::string(pk.payload().data(), pk.payload().size()), Headers(pk.headers().begin(), pk.headers().end())); };
        x.w->told(x, std::string(pk.id().data(), pk.id().size()), Headers(pk.headers().begin(), pk.headers().end()),
                  std::string(pk.payload().data(), pk.payload().size()), look);
        excl()([&] { x.w->kept.push_back(pk); });
      };
      a0::Reader::Options o(init == 0 ? a0::INIT_OLDEST : init == 1 ? a0::INIT_MOST_RECENT : a0::INIT_AWAIT_NEW, iter ? a0::ITER_NEWEST : a0::ITER_NEXT);
      r = guarded([&] {
        if (lvl == 3 && h % 2) x.cpp.reset(new a0::LogListener(ptopic(), o, cb));       // that is the default
        else x.cpp.reset(new a0::LogListener(ptopic(), (a0::LogLevel)lvl, o, cb));
      });
    }
    ev(r == "ok" ? J().str("o", "opened").i("h", h) : J().str("o", "badopen").str("r", r));
  }
  void close(Listener& x) {
    ev(J().str("o", "close").i("h", x.h));
    a0_err_t e = A0_OK;
    if (x.kind == 'C') e = a0_log_listener_close((a0_log_listener_t*)x.mem);
    else x.cpp->c.reset();
    ev(J().str("o", "closed").i("h", x.h).str("r", errname(e)));
  }

  // --- the end
  void ending(a0_arena_t arena, std::vector<J>* log, bool quiet) {
    bool ok = each_frame(arena, [&](uint64_t, a0_flat_packet_t f) {
      Headers hs;
      a0_flat_packet_header_iterator_t it;
      a0_flat_packet_header_iterator_init(&it, &f);
      a0_packet_header_t h;
      while (!a0_flat_packet_header_iterator_next(&it, &h)) hs.push_back({h.key, h.val});
      log->push_back(J().str("id", flat_id(f)).str("pay", mine(flat_payload(f), hs)));
    });
    if (!ok) ev(J().str("o", "badlog"));
    for (auto& p : kept)
      ev(J().str("o", "kept").str("id", std::string(p.id().data(), p.id().size()))
             .str("pay", mine(std::string(p.payload().data(), p.payload().size()), Headers(p.headers().begin(), p.headers().end()))));
    ev(J().str("o", quiet ? "quiet" : "livelock"));
  }
};
}  // namespace lg
