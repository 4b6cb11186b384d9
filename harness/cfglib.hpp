// Users of a configuration topic, recorded for Cfg.tla; shared by the sequential and the scheduled driver.
#pragma once
#include <a0.h>
#include <a0/cfg.h>
#include <a0/cfg.hpp>
#include <nlohmann/json.hpp>
#include <memory>
#include "a0util.hpp"
#include "idtrace.hpp"

namespace cl {
using json = nlohmann::json;
inline void ev(const J& j) { IdTrace::get().ev(j); }

inline std::string digest(const std::string& s) {
  if (s.size() <= 60) return s;
  uint32_t h = 2166136261u;
  for (unsigned char c : s) h = (h ^ c) * 16777619u;
  return "#" + std::to_string(s.size()) + ":" + std::to_string(h);
}
inline std::string enc(const json& j) {
  if (j.is_null()) return "{\"t\":\"n\"}";
  if (!j.is_object()) return J().str("t", "a").str("v", digest(j.dump())).done();
  std::string f = "{";
  for (auto it = j.begin(); it != j.end(); ++it) f += (f.size() > 1 ? "," : "") + J::quote(it.key()) + ":" + enc(it.value());
  return J().str("t", "o").raw("f", f + "}").done();
}
inline std::string enc_text(const std::string& s) {
  json j = s.empty() ? json(json::value_t::discarded) : json::parse(s, nullptr, false, true);
  if (j.is_discarded()) return J().str("t", "x").str("v", digest(s)).done();
  return enc(j);
}
inline const char* NOV() { return "{\"t\":\"n\"}"; }

// the documents by letter
inline std::string doc(char c) {
  switch (c) {
    case 'a': return "{\"a\":1}";
    case 'b': return "{\"b\":{\"x\":1}}";
    case 'c': return "{\"a\":null}";
    case 'd': return "{\"b\":{\"x\":null,\"y\":2},\"c\":0}";
    case 'e': return "[1,2]";
    case 'f': return "{\"a\":{\"x\":{\"z\":null,\"w\":3}}}";
    case 'g': return "5";
    case 'h': return "null";
    case 'i': return "{\"a\":";
    case 'j': return "{}";
    case 'k': return "{\"\\u00e9\\n/\":\"\\u00fc\\\"/\",\"b\":{\"q\":[null,{\"a\":null}]}}";
    case 'l': return "";
    case 'm': return "{\"a\":7,\"b\":{\"y\":1},\"long\":\"" + std::string(300, 'q') + "\"}";
    case 'n': return "{\"b\":\"s\"}";
    case 'Y': return "{\"big\":\"" + std::string(900 * 1024, 'y') + "\"}";
    case 'Z': return "{\"big\":\"" + std::string(1900 * 1024, 'z') + "\"}";
    default: return "\"?\"";
  }
}

struct User {   // one handle, in C or C++
  char kind;
  a0_cfg_t c;
  std::unique_ptr<a0::Cfg> cpp;
  bool open = false;
};

struct World {
  std::string topic = "t";
  size_t size = 0;
  std::function<int()> who = [] { return 1; };
  std::function<void()> between = [] {};
  std::function<a0_time_mono_t(long)> at;      // deadline in ms of the run
  a0_file_options_t fo = A0_FILE_OPTIONS_DEFAULT;
  a0_cfg_topic_t ctopic() { fo.create_options.size = size; return {topic.c_str(), &fo}; }
  a0::CfgTopic ptopic() { a0::File::Options o = a0::File::Options::DEFAULT; o.create_options.size = size; return a0::CfgTopic(topic, o); }

  void open(User& u, char kind) {
    u.kind = kind;
    std::string r = "ok";
    if (kind == 'C') r = errname(a0_cfg_init(&u.c, ctopic()));
    else r = guarded([&] { u.cpp.reset(new a0::Cfg(ptopic())); });
    if (r != "ok") ev(J().str("o", "badopen").str("r", r));
    u.open = true;
  }
  void close(User& u) {
    if (u.kind == 'C') a0_cfg_close(&u.c); else u.cpp.reset();
    u.open = false;
  }
  // W write, I write if empty, P patch, R read, K read waiting, T read waiting until 3 ms
  void op(User& u, char k, const std::string& text, int big) {
    int p = who();
    static const std::map<char, std::string> N = {{'W', "write"}, {'I', "wie"}, {'P', "patch"}, {'R', "read"}, {'K', "bread"}, {'T', "tread"}};
    bool rd = strchr("RKT", k) != nullptr;
    a0::Packet pk(std::unordered_multimap<std::string, std::string>{{"u", "x"}}, text);
    std::string pid(pk.id().data(), pk.id().size());
    ev(J().str("o", "call").i("p", p).str("k", N.at(k)).str("id", rd ? "" : pid).raw("v", rd ? NOV() : enc_text(text)).i("big", big).i("dl", k == 'T' ? 3 : -1));
    between();
    std::string r, id;
    std::string v = NOV();
    bool wr = false;
    a0_time_mono_t dl = at(3);
    if (u.kind == 'C') {
      a0_packet_t out;
      memset(&out, 0, sizeof out);
      // whatever is allocated for one read belongs to the user
      struct Keep { std::vector<std::unique_ptr<std::vector<uint8_t>>> v; } keep;
      a0_alloc_t al = {&keep, [](void* x, size_t n, a0_buf_t* o) {
                         Keep* kp = (Keep*)x;
                         kp->v.emplace_back(new std::vector<uint8_t>(n ? n : 1));
                         *o = {kp->v.back()->data(), n};
                         return (a0_err_t)A0_OK;
                       }, [](void*, a0_buf_t) { return (a0_err_t)A0_OK; }};
      a0_err_t e = A0_OK;
      switch (k) {
        case 'W': e = a0_cfg_write(&u.c, *pk.c); break;
        case 'I': e = a0_cfg_write_if_empty(&u.c, *pk.c, &wr); break;
        case 'P': e = a0_cfg_mergepatch(&u.c, *pk.c); break;
        case 'R': e = a0_cfg_read(&u.c, al, &out); break;
        case 'K': e = a0_cfg_read_blocking(&u.c, al, &out); break;
        case 'T': e = a0_cfg_read_blocking_timeout(&u.c, al, &dl, &out); break;
      }
      r = errname(e);
      if (!e && rd) {
        between();
        id.assign(out.id, strnlen(out.id, 37));
        v = enc_text(std::string((char*)out.payload.data, out.payload.size));
      }
    } else {
      a0::TimeMono t;
      t.c = std::make_shared<a0_time_mono_t>(dl);
      a0::Packet out;
      r = guarded([&] {
        switch (k) {
          case 'W': u.cpp->write(pk); break;
          case 'I': wr = u.cpp->write_if_empty(pk); break;
          case 'P': u.cpp->mergepatch(pk); break;
          case 'R': out = u.cpp->read(); break;
          case 'K': out = u.cpp->read_blocking(); break;
          case 'T': out = u.cpp->read_blocking(t); break;
        }
      });
      if (r == "ok" && rd) {
        between();
        id.assign(out.id().data(), out.id().size());
        v = enc_text(std::string(out.payload().data(), out.payload().size()));
      }
      if (r.compare(0, 4, "EXC:") == 0) r = "MSG";
    }
    ev(J().str("o", "ret").i("p", p).str("r", r).b("wr", wr).str("id", id).raw("v", v));
  }
};

// the value of every frame; standard headers must be there once each
inline bool values(a0_arena_t arena, uint64_t& from, std::vector<J>* out) {
  bool ok = true;
  ok = each_frame(arena, [&](uint64_t seq, a0_flat_packet_t f) {
    if (seq <= from) return;
    from = seq;
    int n1, n2, n3;
    std::string ts = flat_header(f, "a0_transport_seq", &n1);
    flat_header(f, "a0_time_mono", &n2);
    std::string u = flat_header(f, "u", &n3);
    out->push_back(J().str("id", flat_id(f)).raw("v", enc_text(flat_payload(f))).i("tseq", n1 == 1 && n2 == 1 && n3 == 1 && u == "x" ? atol(ts.c_str()) : -1));
  });
  return ok;
}
}  // namespace cl
