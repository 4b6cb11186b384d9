// Clients and servers of remote calls, plain (rpc) and progressive (prpc), recorded for Calls.tla.
#pragma once
#include <a0.h>
#include <a0/rpc.h>
#include <a0/rpc.hpp>
#include <a0/prpc.h>
#include <a0/prpc.hpp>
#include <algorithm>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include "a0util.hpp"
#include "idtrace.hpp"

namespace kl {
inline std::function<void(std::function<void()>)>& excl() { static std::function<void(std::function<void()>)> f = [](std::function<void()> g) { g(); }; return f; }
inline void ev(const J& j) { excl()([&] { IdTrace::get().ev(j); }); }

// what the sender of a packet decides: payload and own headers
inline std::string mine(const std::string& payload, std::vector<std::pair<std::string, std::string>> hs) {
  std::sort(hs.begin(), hs.end());
  std::string s = payload.size() > 200 ? "#" + std::to_string(payload.size()) : payload;
  for (auto& h : hs) if (h.first.compare(0, 3, "a0_")) s += "|" + h.first + "=" + h.second;
  return s;
}
inline std::string mine_c(const a0_packet_t& p) {
  std::vector<std::pair<std::string, std::string>> hs;
  a0_packet_header_iterator_t it;
  a0_packet_t q = p;
  a0_packet_header_iterator_init(&it, &q);
  a0_packet_header_t h;
  while (!a0_packet_header_iterator_next(&it, &h)) hs.push_back({h.key, h.val});
  return mine(std::string((char*)p.payload.data, p.payload.size), hs);
}
inline std::string mine_cpp(const a0::Packet& p) {
  std::vector<std::pair<std::string, std::string>> hs;
  for (auto& h : p.headers()) hs.push_back(h);
  return mine(std::string(p.payload().data(), p.payload().size()), hs);
}
inline std::string id_c(const a0_packet_t& p) { return std::string(p.id, strnlen(p.id, 37)); }
inline std::string id_cpp(const a0::Packet& p) { return std::string(p.id().data(), p.id().size()); }
inline std::string hdr_c(const a0_packet_t& p, const char* key) {
  a0_packet_header_iterator_t it;
  a0_packet_t q = p;
  a0_packet_header_iterator_init(&it, &q);
  a0_packet_header_t h;
  return a0_packet_header_iterator_next_match(&it, key, &h) ? "" : h.val;
}
inline J frame(const std::string& id, const std::string& k, const std::string& rid, const std::string& pay, bool done) {
  return J().str("id", id).str("k", k).str("rid", rid).str("pay", pay).b("done", done);
}

struct World;
struct Handle {
  World* w = nullptr;
  int h = 0;
  char kind = 0;              // S s servers in C, C++; C c clients
  std::string habit;
  void* mem = nullptr;        // for the C structures
  std::shared_ptr<void> cpp;
  int calls = 0;
  std::vector<std::string> sent;               // ids of its requests
  size_t cancelled = 0;
  struct Req { std::string id, pay; a0_rpc_request_t r; a0_prpc_connection_t c; std::shared_ptr<a0::RpcRequest> pr; std::shared_ptr<a0::PrpcConnection> pc; };
  std::vector<Req> kept;
  std::set<std::string> over;                  // requests (of a server) and updates' requests (of a client) dealt with
  std::vector<std::pair<std::string, std::shared_ptr<std::future<a0::Packet>>>> futs;
};

struct World {
  bool prog = false;
  std::string topic = "t";
  size_t size = 0;
  std::function<int()> who;
  std::function<void()> between = [] {};
  std::function<void(std::function<bool()>)> wait;
  std::function<a0_time_mono_t(long)> at;
  a0_file_options_t fo = A0_FILE_OPTIONS_DEFAULT;
  std::map<int, Handle> hs;
  std::vector<a0::Packet> kept_pkts;
  int serial = 0;
  int ntok = 0;

  const char* T() const { return prog ? "a0_prpc_type" : "a0_rpc_type"; }
  const char* I() const { return prog ? "a0_conn_id" : "a0_req_id"; }
  std::string path() const { return topic + (prog ? ".prpc.a0" : ".rpc.a0"); }
  std::string tok(const char* w) { int n; excl()([&] { n = ++ntok; }); return std::string(w) + std::to_string(n); }
  a0::Packet packet(const std::string& t, bool big = false) {
    std::string pay = big ? std::string(size, 'b') : t;
    if (t.back() == '3') pay += std::string(90, 'x');       // sizes differ
    return a0::Packet(std::unordered_multimap<std::string, std::string>{{"u", t}, {"u", "v"}}, pay);
  }

  // --- callbacks
  void request(Handle& x, const std::string& id, const std::string& pay, std::function<std::string()> again, Handle::Req r) {
    ev(J().str("o", "req").i("h", x.h).str("id", id).str("pay", pay));
    between();
    for (char c : x.habit) {
      if (c == 'p' || c == 'd') reply(x, r, c == 'd');
      if (c == 'k') excl()([&] { x.kept.push_back(r); });
      if (c == 's' && x.calls < 2) self(x);
    }
    if (again() != pay) ev(J().str("o", "altered"));
    x.calls++;
    ev(J().str("o", "cbend").i("h", x.h));
    excl()([&] { x.over.insert(id); });
  }
  void oncancel(Handle& x, const std::string& rid) {
    ev(J().str("o", "can").i("h", x.h).str("rid", rid));
    between();
    ev(J().str("o", "cbend").i("h", x.h));
  }
  void update(Handle& x, const std::string& rid, const std::string& id, const std::string& pay, std::function<std::string()> again, bool done) {
    ev(J().str("o", "upd").i("h", x.h).str("rid", rid).str("id", id).str("pay", pay).b("done", done));
    between();
    int n = x.calls++;
    if (x.habit.find('s') != std::string::npos && n < 2) self(x);
    if (x.habit.find('e') != std::string::npos && n < 1) send(x, 'q');
    if (x.habit.find('c') != std::string::npos && n < 1) cancel(x, rid);
    if (again() != pay) ev(J().str("o", "altered"));
    ev(J().str("o", "cbend").i("h", x.h));
    if (done || (n < 1 && x.habit.find('c') != std::string::npos)) excl()([&] { x.over.insert(rid); });
  }
  void self(Handle& x) {
    std::string r = errname(close_c(x));
    ev(J().str("o", "self").i("h", x.h).str("r", r));
  }
  a0_err_t close_c(Handle& x) {
    if (x.kind == 'S') return prog ? a0_prpc_server_close((a0_prpc_server_t*)x.mem) : a0_rpc_server_close((a0_rpc_server_t*)x.mem);
    return prog ? a0_prpc_client_close((a0_prpc_client_t*)x.mem) : a0_rpc_client_close((a0_rpc_client_t*)x.mem);
  }

  // --- calls
  void open(Handle& x, int h, char kind, const std::string& habit, void* mem) {
    x.w = this;
    x.h = h;
    x.kind = kind;
    x.habit = habit;
    x.mem = mem;
    bool can = habit.find('n') == std::string::npos;
    ev(J().str("o", "open").i("h", h).str("kind", tolower(kind) == 's' ? "server" : "client").b("can", can));
    fo.create_options.size = size;
    a0::File::Options pfo = a0::File::Options::DEFAULT;
    pfo.create_options.size = size;
    std::string r = "ok";
    a0_packet_id_callback_t oc = {&x, can ? [](void* u, a0_uuid_t id) { ((Handle*)u)->w->oncancel(*(Handle*)u, std::string(id, strnlen(id, 37))); } : (void (*)(void*, a0_uuid_t))nullptr};
    std::function<void(a0::string_view)> poc;
    Handle* X = &x;
    if (can) poc = [X](a0::string_view id) { X->w->oncancel(*X, std::string(id.data(), id.size())); };
    if (kind == 'S' && !prog) {
      a0_rpc_request_callback_t cb = {&x, [](void* u, a0_rpc_request_t q) {
        Handle* x = (Handle*)u;
        Handle::Req k;
        k.id = id_c(q.pkt);
        k.r = q;
        k.r.pkt.headers_block = {nullptr, 0, nullptr};
        k.r.pkt.payload = {nullptr, 0};
        x->w->request(*x, k.id, mine_c(q.pkt), [&] { return mine_c(q.pkt); }, k);
      }};
      r = errname(a0_rpc_server_init((a0_rpc_server_t*)mem, {topic.c_str(), &fo}, heap(), cb, oc));
    } else if (kind == 'S') {
      a0_prpc_connection_callback_t cb = {&x, [](void* u, a0_prpc_connection_t q) {
        Handle* x = (Handle*)u;
        Handle::Req k;
        k.id = id_c(q.pkt);
        k.c = q;
        k.c.pkt.headers_block = {nullptr, 0, nullptr};
        k.c.pkt.payload = {nullptr, 0};
        x->w->request(*x, k.id, mine_c(q.pkt), [&] { return mine_c(q.pkt); }, k);
      }};
      r = errname(a0_prpc_server_init((a0_prpc_server_t*)mem, {topic.c_str(), &fo}, heap(), cb, oc));
    } else if (kind == 's' && !prog) {
      r = guarded([&] {
        x.cpp.reset(new a0::RpcServer({topic, pfo}, [X](a0::RpcRequest q) {
          Handle::Req k;
          auto p = q.pkt();
          k.id = id_cpp(p);
          k.pr = std::make_shared<a0::RpcRequest>(q);
          k.pay = mine_cpp(p);
          X->w->request(*X, k.id, k.pay, [&] { return mine_cpp(q.pkt()); }, k);
        }, poc));
      });
    } else if (kind == 's') {
      r = guarded([&] {
        x.cpp.reset(new a0::PrpcServer({topic, pfo}, [X](a0::PrpcConnection q) {
          Handle::Req k;
          auto p = q.pkt();
          k.id = id_cpp(p);
          k.pc = std::make_shared<a0::PrpcConnection>(q);
          k.pay = mine_cpp(p);
          X->w->request(*X, k.id, k.pay, [&] { return mine_cpp(q.pkt()); }, k);
        }, poc));
      });
    } else if (kind == 'C') {
      r = errname(prog ? a0_prpc_client_init((a0_prpc_client_t*)mem, {topic.c_str(), &fo}, heap()) : a0_rpc_client_init((a0_rpc_client_t*)mem, {topic.c_str(), &fo}, heap()));
    } else {
      r = guarded([&] {
        if (prog) x.cpp.reset(new a0::PrpcClient(a0::PrpcTopic(topic, pfo))); else x.cpp.reset(new a0::RpcClient(a0::RpcTopic(topic, pfo)));
      });
    }
    if (r != "ok") ev(J().str("o", "badopen").str("r", r));
    ev(J().str("o", "opened").i("h", h));
  }
  void close(Handle& x) {
    keep_check(x);
    ev(J().str("o", "close").i("h", x.h));
    a0_err_t e = A0_OK;
    if (isupper(x.kind)) e = close_c(x);
    else if (x.kind == 's') { if (prog) ((a0::PrpcServer*)x.cpp.get())->c.reset(); else ((a0::RpcServer*)x.cpp.get())->c.reset(); }
    else { if (prog) ((a0::PrpcClient*)x.cpp.get())->c.reset(); else ((a0::RpcClient*)x.cpp.get())->c.reset(); }
    ev(J().str("o", "closed").i("h", x.h).str("r", errname(e)));
  }
  void keep_check(Handle& x) {
    std::vector<Handle::Req> ks;
    excl()([&] { ks = x.kept; });
    for (auto& k : ks) {
      if (k.pr) ev(J().str("o", "kept").str("id", id_cpp(k.pr->pkt())).str("pay", mine_cpp(k.pr->pkt())));
      if (k.pc) ev(J().str("o", "kept").str("id", id_cpp(k.pc->pkt())).str("pay", mine_cpp(k.pc->pkt())));
    }
  }
  void call(const char* k, int h, const J& f, int big, long dl) {
    ev(J().str("o", "call").i("p", who()).str("k", k).i("h", h).raw("f", f.done()).i("big", big).i("dl", dl));
    between();
  }
  void ret(const std::string& r, const std::string& id = "", const std::string& pay = "") {
    ev(J().str("o", "ret").i("p", who()).str("r", r).str("id", id).str("pay", pay));
  }
  // q with callback, n without, f future, b blocking, t blocking until 3 ms, L too large
  std::string send(Handle& x, char how) {
    bool big = how == 'L';
    a0::Packet p = packet(tok("q"), big);
    std::string id = id_cpp(p);
    if (how == 'f' && (prog || x.kind != 'c')) how = 'q';
    const char* k = how == 'n' ? "nsend" : how == 'f' ? "fsend" : how == 'b' || how == 't' ? "bsend" : "send";
    call(k, x.h, frame(id, "request", "", mine_cpp(p), false), big ? 2 : 0, how == 't' ? 3 : -1);
    if (how == 'b' || how == 't') excl()([&] { x.sent.push_back(id); });   // others are cancelled after they were sent
    std::string r, rid, pay;
    bool cb = how == 'q' || how == 'L';
    if (x.kind == 'C' && prog) {
      struct U { Handle* x; std::string id; };
      a0_prpc_progress_callback_t c = {nullptr, nullptr};
      if (cb) c = {new U{&x, id}, [](void* u, a0_packet_t p, bool done) {
        U* d = (U*)u;
        d->x->w->update(*d->x, d->id, id_c(p), mine_c(p), [&] { return mine_c(p); }, done);
      }};
      r = errname(a0_prpc_client_connect((a0_prpc_client_t*)x.mem, *p.c, c));
    } else if (x.kind == 'C') {
      struct U { Handle* x; std::string id; };
      a0_packet_callback_t c = {nullptr, nullptr};
      if (cb) c = {new U{&x, id}, [](void* u, a0_packet_t p) {
        U* d = (U*)u;
        d->x->w->update(*d->x, d->id, id_c(p), mine_c(p), [&] { return mine_c(p); }, true);
      }};
      auto cl = (a0_rpc_client_t*)x.mem;
      a0_packet_t out;
      a0_time_mono_t dl = at(3);
      a0_err_t e = how == 'b' ? a0_rpc_client_send_blocking(cl, *p.c, heap(), &out)
                   : how == 't' ? a0_rpc_client_send_blocking_timeout(cl, *p.c, &dl, heap(), &out) : a0_rpc_client_send(cl, *p.c, c);
      r = errname(e);
      if (!e && (how == 'b' || how == 't')) { rid = id_c(out); pay = mine_c(out); }
    } else if (prog) {
      std::function<void(a0::Packet, bool)> c;
      Handle* X = &x;
      if (cb) c = [X, id](a0::Packet p, bool done) {
        excl()([&] { X->w->kept_pkts.push_back(p); });
        X->w->update(*X, id, id_cpp(p), mine_cpp(p), [&] { return mine_cpp(p); }, done);
      };
      r = guarded([&] { ((a0::PrpcClient*)x.cpp.get())->connect(p, c); });
    } else {
      std::function<void(a0::Packet)> c;
      Handle* X = &x;
      if (cb) c = [X, id](a0::Packet p) {
        excl()([&] { X->w->kept_pkts.push_back(p); });
        X->w->update(*X, id, id_cpp(p), mine_cpp(p), [&] { return mine_cpp(p); }, true);
      };
      auto cl = (a0::RpcClient*)x.cpp.get();
      a0::TimeMono t;
      t.c = std::make_shared<a0_time_mono_t>(at(3));
      a0::Packet out;
      r = guarded([&] {
        if (how == 'b') out = cl->send_blocking(p);
        else if (how == 't') out = cl->send_blocking(p, t);
        else if (how == 'f') { auto f = std::make_shared<std::future<a0::Packet>>(cl->send(p)); excl()([&] { x.futs.push_back({id, f}); }); }
        else cl->send(p, c);
      });
      if (r == "ok" && (how == 'b' || how == 't')) { rid = id_cpp(out); pay = mine_cpp(out); excl()([&] { kept_pkts.push_back(out); }); }
    }
    ret(r, rid, pay);
    if (how != 'b' && how != 't') excl()([&] { x.sent.push_back(id); });
    return id;
  }
  void cancel(Handle& x, std::string rid) {
    call("cancel", x.h, frame("", "cancel", rid, rid, false), 0, -1);
    std::string r;
    if (x.kind == 'C') {
      a0_uuid_t u;
      memset(u, 0, sizeof u);
      memcpy(u, rid.data(), std::min(rid.size(), sizeof(u) - 1));
      r = errname(prog ? a0_prpc_client_cancel((a0_prpc_client_t*)x.mem, u) : a0_rpc_client_cancel((a0_rpc_client_t*)x.mem, u));
    } else {
      // a view needs no terminator
      std::vector<char> v(rid.begin(), rid.end());
      a0::string_view sv(v.data(), v.size());
      r = guarded([&] { if (prog) ((a0::PrpcClient*)x.cpp.get())->cancel(sv); else ((a0::RpcClient*)x.cpp.get())->cancel(sv); });
    }
    ret(r);
  }
  void reply(Handle& x, Handle::Req k, bool done) {
    if (!prog) done = true;
    a0::Packet p = packet(tok("r"));
    call("reply", x.h, frame(id_cpp(p), "update", k.id, mine_cpp(p), done), 0, -1);
    std::string r;
    if (k.pr) r = guarded([&] { k.pr->reply(p); });
    else if (k.pc) r = guarded([&] { k.pc->send(p, done); });
    else r = errname(prog ? a0_prpc_server_send(k.c, *p.c, done) : a0_rpc_server_reply(k.r, *p.c));
    ret(r);
  }
  // packets of others: 0 reply to an unknown request, 1 to a strange id, 2 no type, 3 unknown type, 4 strange cancellation, 5 cancellation by payload only
  void foreign(a0_arena_t arena, int what, const std::string& some) {
    std::string t = tok("z");
    std::string unknown = "01234567-89ab-cdef-0123-456789abcdef";
    std::unordered_multimap<std::string, std::string> h = {{"u", t}};
    std::string pay = t, k = "other", rid;
    bool done = false;
    const char* up = prog ? "progress" : "response";
    switch (what) {
      case 0: h.insert({T(), up}); h.insert({I(), unknown}); k = "update"; rid = unknown; done = !prog; break;
      case 1: h.insert({T(), up}); h.insert({I(), "x"}); break;
      case 2: h.insert({I(), some}); break;
      case 3: h.insert({T(), "bogus"}); h.insert({I(), some}); break;
      case 4: h.insert({T(), "cancel"}); h.insert({I(), unknown}); pay = "ab"; break;
      case 5: h.erase("u"); h.insert({T(), "cancel"}); h.insert({I(), unknown}); pay = unknown; k = "cancel"; rid = unknown; break;
      case 6: h.insert({T(), up}); break;
      case 7: h.insert({T(), prog ? "complete" : "response"}); h.insert({I(), ""}); break;
      case 8: h.insert({T(), "cancel"}); pay = ""; break;
    }
    std::string wire = what == 5 ? std::string(unknown.c_str(), 37) : pay;
    a0::Packet p(h, wire);
    std::string m = what == 5 ? unknown : mine_cpp(p);
    call("raw", 0, frame(id_cpp(p), k, rid, m, done), 0, -1);
    a0_writer_t w;
    a0_err_t e = a0_writer_init(&w, arena);
    if (!e) e = a0_writer_write(&w, *p.c);
    a0_writer_close(&w);
    ret(errname(e));
  }
  // --- the end
  bool frames(a0_arena_t arena, std::vector<J>* out) {
    return each_frame(arena, [&](uint64_t, a0_flat_packet_t f) {
      int nt, ni;
      std::string t = flat_header(f, T(), &nt), rid = flat_header(f, I(), &ni);
      std::vector<std::pair<std::string, std::string>> hs;
      a0_packet_stats_t st;
      a0_flat_packet_stats(f, &st);
      for (size_t n = 0; n < st.num_hdrs; n++) { a0_packet_header_t h; a0_flat_packet_header(f, n, &h); hs.push_back({h.key, h.val}); }
      std::string m = mine(flat_payload(f), hs), k = "other";
      bool done = false;
      if (nt == 1 && t == (prog ? "connect" : "request")) { k = "request"; rid = ""; }
      else if (nt == 1 && (t == "response" || t == "progress" || t == "complete") && ni == 1 && rid.size() == 36) { k = "update"; done = t != "progress"; }
      else if (nt == 1 && t == "cancel" && flat_payload(f).size() == 37) { k = "cancel"; rid = flat_payload(f).c_str(); m = rid; }
      else rid = "";
      out->push_back(frame(flat_id(f), k, rid, m, done));
    });
  }
  void ending(a0_arena_t arena, std::vector<J>* log, bool quiet) {
    for (auto& p : kept_pkts) ev(J().str("o", "kept").str("id", id_cpp(p)).str("pay", mine_cpp(p)));
    if (!frames(arena, log)) ev(J().str("o", "badlog"));
    ev(J().str("o", quiet ? "quiet" : "livelock"));
    for (auto& x : hs)
      for (auto& f : x.second.futs) {
        bool ready = f.second->wait_for(std::chrono::seconds(0)) == std::future_status::ready;
        a0::Packet p;
        std::string bad;
        if (ready) bad = guarded([&] { p = f.second->get(); });
        ready = ready && bad == "ok";
        ev(J().str("o", "fut").i("h", x.second.h).str("rid", f.first).b("ready", ready).str("id", ready ? id_cpp(p) : "").str("pay", ready ? mine_cpp(p) : ""));
      }
  }
};
}  // namespace kl
