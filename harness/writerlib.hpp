// Writers with stages of every kind, recorded for Writer.tla; shared by the sequential and the scheduled driver.
#pragma once
#include <a0.h>
#include <a0/middleware.h>
#include <a0/middleware.hpp>
#include <a0/writer.hpp>
#include <functional>
#include <map>
#include <memory>
#include "a0util.hpp"
#include "idtrace.hpp"

namespace wl {
typedef std::pair<std::string, std::string> H;

inline void ev(const J& j) { IdTrace::get().ev(j); }

// what a stage does when visited by call p; set by the driver
struct Act { std::string what = "pass"; };
struct Stage { int n; char k; std::string ph; };   // k: M W I Q T the standard headers, E write-if-empty, u user

inline int& names() { static int n = 0; return n; }
inline std::map<int, std::map<std::string, std::string>>& acts() { static std::map<int, std::map<std::string, std::string>> m; return m; }  // stage -> phase -> act
inline std::map<int, int>& closed() { static std::map<int, int> m; return m; }
inline std::function<int()>& who() { static std::function<int()> f = [] { return 1; }; return f; }
inline std::function<void()>& between() { static std::function<void()> f = [] {}; return f; }
inline std::vector<std::unique_ptr<bool>>& flags() { static std::vector<std::unique_ptr<bool>> v; return v; }

inline a0_err_t visit(intptr_t n, const char* ph, a0_transport_locked_t* l, a0_packet_t* pkt, a0_middleware_chain_t chain) {
  std::string act = "pass";
  auto it = acts().find((int)n);
  if (it != acts().end() && it->second.count(ph)) act = it->second[ph];
  J j;
  j.str("o", "st").i("p", who()()).i("s", n).str("ph", ph).str("act", act);
  std::string key = "u" + std::to_string(n) + ph;
  if (act == "hdr") j.raw("arg", "[" + J::quote(key) + ",\"x\"]");
  else if (act == "pay") j.arr("arg", {7, 7, n});
  else j.arr("arg", {});
  ev(j);
  between()();
  if (act == "refuse" || act == "drop") {
    if (l) a0_transport_unlock(*l);
    return act == "drop" ? A0_OK : A0_ERR_RANGE;
  }
  if (act == "hdr") {
    a0_packet_header_t h = {key.c_str(), "x"};
    a0_packet_headers_block_t prev = pkt->headers_block;
    pkt->headers_block = {&h, 1, &prev};
    return a0_middleware_chain(chain, pkt);
  }
  uint8_t b[3] = {7, 7, (uint8_t)n};
  if (act == "pay") pkt->payload = {b, 3};
  return a0_middleware_chain(chain, pkt);
}
inline a0_err_t on_u(void* u, a0_packet_t* p, a0_middleware_chain_t c) { return visit((intptr_t)u, "u", nullptr, p, c); }
inline a0_err_t on_l(void* u, a0_transport_locked_t l, a0_packet_t* p, a0_middleware_chain_t c) { return visit((intptr_t)u, "l", &l, p, c); }
inline a0_err_t on_close(void* u) { closed()[(int)(intptr_t)u]++; return A0_OK; }

// Builds the middleware described by text: one of MWIQTSE, u l b (user stages), or a composition "(ab)" of two.
struct Built { a0_middleware_t m; std::vector<Stage> ss; };
inline Built build(const std::string& d, size_t& at, bool cpp) {
  Built b;
  char k = d[at++];
  auto one = [&](char kind, const char* ph = "") { b.ss.push_back({++names(), kind, ph}); return b.ss.back().n; };
  auto take = [&](const a0::Middleware& m) { b.m = *m.c; };
  switch (k) {
    case '(': {
      Built x = build(d, at, cpp), y = build(d, at, cpp);
      at++;
      a0_middleware_compose(x.m, y.m, &b.m);
      b.ss = x.ss;
      b.ss.insert(b.ss.end(), y.ss.begin(), y.ss.end());
      break;
    }
    case 'M': if (cpp) take(a0::add_time_mono_header()); else b.m = a0_add_time_mono_header(); one('M'); break;
    case 'W': if (cpp) take(a0::add_time_wall_header()); else b.m = a0_add_time_wall_header(); one('W'); break;
    case 'I': if (cpp) take(a0::add_writer_id_header()); else b.m = a0_add_writer_id_header(); one('I'); break;
    case 'Q': if (cpp) take(a0::add_writer_seq_header()); else b.m = a0_add_writer_seq_header(); one('Q'); break;
    case 'T': if (cpp) take(a0::add_transport_seq_header()); else b.m = a0_add_transport_seq_header(); one('T'); break;
    case 'S': if (cpp) take(a0::add_standard_headers()); else b.m = a0_add_standard_headers(); for (char c : std::string("MWIQT")) one(c); break;
    case 'E': {
      flags().emplace_back(new bool(false));
      if (cpp) take(a0::write_if_empty(flags().back().get())); else b.m = a0_write_if_empty(flags().back().get());
      one('E');
      break;
    }
    case 'e': flags().emplace_back(nullptr); b.m = a0_write_if_empty(nullptr); one('E'); break;
    default: {
      const char* ph = k == 'u' ? "u" : k == 'l' ? "l" : "b";
      int n = one('u', ph);
      b.m = {(void*)(intptr_t)n, on_close, k == 'l' ? nullptr : on_u, k == 'u' ? nullptr : on_l};
    }
  }
  return b;
}
inline std::string ssjson(const std::vector<Stage>& ss) {
  std::string s = "[";
  for (size_t n = 0; n < ss.size(); n++) {
    static const std::map<char, std::string> K = {{'M', "mono"}, {'W', "wall"}, {'I', "wid"}, {'Q', "wseq"}, {'T', "tseq"}, {'E', "wie"}, {'u', "user"}};
    s += (n ? "," : "") + J().i("n", ss[n].n).str("k", K.at(ss[n].k)).str("ph", ss[n].ph).done();
  }
  return s + "]";
}

// A writer of any sort: C, C++, or the one inside a publisher.
struct W {
  int id;
  char kind;                       // C c(++) P publisher p c++ publisher
  a0_writer_t c;
  std::unique_ptr<a0::Writer> cpp;
  a0_publisher_t pub;
  std::unique_ptr<a0::Publisher> ppub;
  int from = 0;
  bool open = false;
  std::vector<Stage> own;
  std::vector<bool*> flags;        // of its write-if-empty stages, outermost first
  a0_writer_t* raw() {
    switch (kind) {
      case 'C': return &c;
      case 'c': return cpp->c.get();
      case 'P': { a0_writer_t* w; a0_publisher_writer(&pub, &w); return w; }
      default: return cpp->c.get();
    }
  }
};

inline std::string hsjson(const std::vector<H>& hs) {
  std::string s = "[";
  for (size_t n = 0; n < hs.size(); n++) s += (n ? "," : "") + ("[" + J::quote(hs[n].first) + "," + J::quote(hs[n].second) + "]");
  return s + "]";
}
inline std::vector<long long> payrec(const uint8_t* p, size_t n) {
  std::vector<long long> v;
  if (n <= 24) { for (size_t j = 0; j < n; j++) v.push_back(p[j]); return v; }
  uint32_t h = 2166136261u;
  for (size_t j = 0; j < n; j++) h = (h ^ p[j]) * 16777619u;
  return {-1, (long long)n, (long long)(h & 0x7fffffff)};
}
inline std::vector<long long> clk(clockid_t c) { struct timespec t; clock_gettime(c, &t); return {(long long)t.tv_sec, (long long)t.tv_nsec}; }

// texts of the standard headers, read back strictly; [-1,-1] if malformed
inline std::string num(const std::string& v) {
  if (v.empty() || v.size() > 9 || (v.size() > 1 && v[0] == '0')) return "-1";
  for (char c : v) if (c < '0' || c > '9') return "-1";
  return v;
}
inline std::string mono(const std::string& v) {
  if (v.size() < 10) return "[-1,-1]";
  for (char c : v) if (c < '0' || c > '9') return "[-1,-1]";
  unsigned long long x = strtoull(v.c_str(), nullptr, 10);
  return "[" + std::to_string(x / 1000000000ull) + "," + std::to_string(x % 1000000000ull) + "]";
}
inline std::string wall(const std::string& v) {
  struct tm tm = {};
  long ns = -1;
  int n = 0;
  if (sscanf(v.c_str(), "%4d-%2d-%2dT%2d:%2d:%2d.%9ld-00:00%n", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &ns, &n) != 7 || n != 35 || v.size() != 35) return "[-1,-1]";
  tm.tm_year -= 1900;
  tm.tm_mon--;
  return "[" + std::to_string((long long)timegm(&tm)) + "," + std::to_string(ns) + "]";
}
inline J packet_json(a0_flat_packet_t f) {
  a0_uuid_t* id;
  a0_flat_packet_id(f, &id);
  a0_packet_stats_t st;
  a0_flat_packet_stats(f, &st);
  a0_buf_t pay;
  a0_flat_packet_payload(f, &pay);
  std::vector<H> hs;
  std::map<std::string, std::vector<std::string>> std_;
  for (size_t n = 0; n < st.num_hdrs; n++) {
    a0_packet_header_t h;
    a0_flat_packet_header(f, n, &h);
    std::string k = h.key, v = h.val;
    bool user = v.compare(0, 4, "user") == 0;
    if (!user && k == "a0_time_mono") std_["mono"].push_back(mono(v));
    else if (!user && k == "a0_time_wall") std_["wall"].push_back(wall(v));
    else if (!user && k == "a0_writer_id") std_["wid"].push_back(v.size() == 36 ? J::quote(v) : "\"bad\"");
    else if (!user && k == "a0_writer_seq") std_["wseq"].push_back(num(v));
    else if (!user && k == "a0_transport_seq") std_["tseq"].push_back(num(v));
    else hs.push_back({k, v});
  }
  J j;
  j.str("id", std::string(*id, strnlen(*id, 37))).raw("hs", hsjson(hs)).arr("pay", payrec(pay.data, pay.size));
  for (const char* k : {"mono", "wall", "wid", "wseq", "tseq"}) {
    std::string s = "[";
    for (size_t n = 0; n < std_[k].size(); n++) s += (n ? "," : "") + std_[k][n];
    j.raw(k, s + "]");
  }
  return j;
}

// Everything in the log with a sequence number above from; returns the last one.
inline uint64_t collect(a0_arena_t arena, uint64_t from, std::vector<J>* out, bool* ok) {
  a0_transport_t t;
  a0_transport_locked_t l;
  if (a0_transport_init(&t, arena) || a0_transport_lock(&t, &l)) { *ok = false; return from; }
  bool empty = true;
  a0_transport_empty(l, &empty);
  if (!empty) {
    a0_transport_jump_head(l);
    while (true) {
      a0_transport_frame_t* f;
      a0_transport_frame(l, &f);
      if (f->hdr.seq > from) {
        if (f->hdr.seq != from + 1) *ok = false;
        from = f->hdr.seq;
        out->push_back(packet_json({{f->data, f->hdr.data_size}}));
      }
      bool more = false;
      a0_transport_has_next(l, &more);
      if (!more) break;
      a0_transport_step_next(l);
    }
  }
  a0_transport_unlock(l);
  return from;
}

struct World {
  a0_arena_t arena;
  std::map<int, std::unique_ptr<W>> ws;
  int next = 0;
  std::string topic = "t";
  a0_file_options_t fo = A0_FILE_OPTIONS_DEFAULT;
  int make(char kind) {
    int id = ++next;
    auto& w = ws[id];
    w.reset(new W);
    w->id = id;
    w->kind = kind;
    a0_err_t e = A0_OK;
    std::vector<Stage> ss;
    if (kind == 'C') e = a0_writer_init(&w->c, arena);
    else if (kind == 'c') w->cpp.reset(new a0::Writer(a0::Arena(a0::Buf(arena.buf.data, arena.buf.size), arena.mode)));
    else {
      if (kind == 'P') e = a0_publisher_init(&w->pub, {topic.c_str(), &fo});
      else {
        a0::File::Options o = a0::File::Options::DEFAULT;
        o.create_options.size = fo.create_options.size;
        w->ppub.reset(new a0::Publisher(a0::PubSubTopic(topic, o)));
        w->cpp.reset(new a0::Writer(w->ppub->writer()));
      }
      for (char c : std::string("MWIQT")) ss.push_back({++names(), c, ""});
    }
    w->own = ss;
    w->open = !e;
    ev(J().str("o", e ? "badnew" : "new").i("w", id).raw("ss", ssjson(ss)));
    return id;
  }
  bool has(int id, char k) {
    for (int x = id; x; x = ws[x]->from) for (auto& s : ws[x]->own) if (s.k == k) return true;
    for (auto& e : ws) for (int x = e.first; x; x = ws[x]->from) if (x == id) for (auto& s : e.second->own) if (s.k == k) return true;
    return false;
  }
  void push(int id, const std::string& d) {
    W& w = *ws[id];
    size_t at = 0;
    bool cpp = w.cpp != nullptr;
    size_t f0 = flags().size();
    Built b = build(d, at, cpp);
    std::string r = "ok";
    if (cpp) { a0::Middleware m; m.c = std::make_shared<a0_middleware_t>(b.m); r = guarded([&] { w.cpp->push(m); }); }
    else r = errname(a0_writer_push(w.raw(), b.m));
    w.own.insert(w.own.begin(), b.ss.begin(), b.ss.end());
    if (flags().size() > f0) w.flags.insert(w.flags.begin(), flags()[f0].get());
    ev(J().str("o", r == "ok" ? "push" : "badpush").i("w", id).raw("ss", ssjson(b.ss)));
  }
  int wrap(int from, const std::string& d) {
    W& f = *ws[from];
    int id = ++next;
    auto& w = ws[id];
    w.reset(new W);
    w->id = id;
    w->from = from;
    w->open = true;
    size_t at = 0, f0 = flags().size();
    Built b;
    if (f.cpp) {
      w->kind = 'c';
      b = build(d, at, true);
      a0::Middleware m;
      m.c = std::make_shared<a0_middleware_t>(b.m);
      w->cpp.reset(new a0::Writer(f.cpp->wrap(m)));
    } else {
      w->kind = 'C';
      b = build(d, at, false);
      a0_writer_wrap(f.raw(), b.m, &w->c);
    }
    w->own = b.ss;
    if (flags().size() > f0) w->flags.push_back(flags()[f0].get());
    ev(J().str("o", "wrap").i("w", id).i("from", from).raw("ss", ssjson(b.ss)));
    return id;
  }
  void close(int id) {
    W& w = *ws[id];
    std::map<int, int> before = closed();
    a0_err_t e = A0_OK;
    if (w.kind == 'C') e = a0_writer_close(&w.c);
    else if (w.kind == 'P') e = a0_publisher_close(&w.pub);
    else { w.cpp.reset(); w.ppub.reset(); }
    std::vector<long long> cl;
    for (auto& x : closed()) for (int n = before.count(x.first) ? before[x.first] : 0; n < x.second; n++) cl.push_back(x.first);
    ev(J().str("o", e ? "badclose" : "close").i("w", id).arr("closed", cl));
    w.open = false;
  }
  // one write; big as in the specification
  void write(int id, const std::vector<H>& hs, const std::string& pay, int big) {
    W& w = *ws[id];
    int p = who()();
    bool* flag = nullptr;
    bool nullflag = false;
    for (W* x = &w; x && !flag; x = x->from ? ws[x->from].get() : nullptr)
      for (bool* f : x->flags) { if (!flag) { if (f) flag = f; else nullflag = true; } }
    std::unordered_multimap<std::string, std::string> m(hs.begin(), hs.end());
    a0::Packet pk(m, pay);
    std::string pid(pk.id().data(), pk.id().size());
    if (flag) *flag = false;
    ev(J().str("o", "write").i("p", p).i("w", id).str("id", pid).raw("hs", hsjson(hs)).arr("pay", payrec((const uint8_t*)pay.data(), pay.size())).i("big", big)
           .arr("t", clk(CLOCK_BOOTTIME)).arr("tw", clk(CLOCK_REALTIME)));
    std::string r;
    switch (w.kind) {
      case 'C': r = errname(a0_writer_write(&w.c, *pk.c)); break;
      case 'P': r = errname(a0_publisher_pub(&w.pub, *pk.c)); break;
      case 'p': if (w.ppub) { r = guarded([&] { w.ppub->pub(pk); }); break; }  // fallthrough
      default: r = guarded([&] { w.cpp->write(pk); });
    }
    ev(J().str("o", "ret").i("p", p).str("r", r).b("wr", flag ? *flag : false).b("kn", flag != nullptr && !nullflag).arr("t", clk(CLOCK_BOOTTIME)).arr("tw", clk(CLOCK_REALTIME)));
  }
};

inline void start() {
  IdTrace::get().events.clear();
  names() = 0;
  acts().clear();
  closed().clear();
  flags().clear();
}
inline void finish(const std::vector<J>& log, bool ok, const std::string& what, std::function<void()> end) {
  if (!ok) ev(J().str("o", "badlog"));
  IdTrace::get().finish(J().objs("log", log).str("what", what), end);
}
}  // namespace wl
