// Traces whose configuration is known only at the end (what the log turned out to hold), with ids named by order of appearance.
#pragma once
#include <a0.h>
#include <functional>
#include <map>
#include <memory>
#include "vtrace.hpp"

struct IdTrace {
  std::vector<J> events;
  static IdTrace& get() { static IdTrace t; return t; }
  void ev(const J& j) {
    events.push_back(j);
    VTrace::get().on_crash = [] {
      VTrace::get().begin(J().objs("log", {}));
      for (auto& e : get().events) VTrace::get().ev(e);
    };
  }
  void finish(const J& cfg, std::function<void()> end) {
    VTrace& t = VTrace::get();
    t.begin(cfg);
    for (auto& e : events) t.ev(e);
    std::map<std::string, std::string> ren;
    std::string out;
    auto hex = [](char c) { return isxdigit((unsigned char)c) || c == '-'; };
    for (size_t n = 0; n < t.cur.size();) {
      if (t.cur[n] == '"' && n + 37 < t.cur.size() && t.cur[n + 37] == '"' && t.cur[n + 9] == '-') {
        bool is = true;
        for (size_t j = n + 1; j < n + 37; j++) is = is && hex(t.cur[j]);
        if (is) {
          std::string id = t.cur.substr(n + 1, 36);
          if (!ren.count(id)) ren[id] = "#" + std::to_string(ren.size());
          out += '"' + ren[id] + '"';
          n += 38;
          continue;
        }
      }
      out += t.cur[n++];
    }
    t.cur = out;
    end();
    events.clear();
  }
};

// Calls f for every frame in the log, looking at a copy without any lock; false if it cannot be read.
inline bool each_frame(a0_arena_t orig, std::function<void(uint64_t, a0_flat_packet_t)> f) {
  void* copy = aligned_alloc(64, (orig.buf.size + 63) & ~(size_t)63);
  memcpy(copy, orig.buf.data, orig.buf.size);
  std::shared_ptr<void> hold(copy, free);
  a0_arena_t arena = {{(uint8_t*)copy, orig.buf.size}, A0_ARENA_MODE_READONLY};
  a0_transport_t t;
  a0_transport_locked_t l;
  if (a0_transport_init(&t, arena) || a0_transport_lock(&t, &l)) return false;
  bool empty = true;
  a0_transport_empty(l, &empty);
  if (!empty) {
    a0_transport_jump_head(l);
    while (true) {
      a0_transport_frame_t* fr;
      a0_transport_frame(l, &fr);
      f(fr->hdr.seq, {{fr->data, fr->hdr.data_size}});
      bool more = false;
      a0_transport_has_next(l, &more);
      if (!more) break;
      a0_transport_step_next(l);
    }
  }
  a0_transport_unlock(l);
  return true;
}
inline std::string flat_id(a0_flat_packet_t f) {
  a0_uuid_t* id;
  a0_flat_packet_id(f, &id);
  return std::string(*id, strnlen(*id, 37));
}
inline std::string flat_payload(a0_flat_packet_t f) {
  a0_buf_t p;
  a0_flat_packet_payload(f, &p);
  return std::string((char*)p.data, p.size);
}
inline std::string flat_header(a0_flat_packet_t f, const char* key, int* count = nullptr) {
  a0_flat_packet_header_iterator_t it;
  a0_flat_packet_header_iterator_init(&it, &f);
  a0_packet_header_t h;
  std::string v;
  int n = 0;
  while (!a0_flat_packet_header_iterator_next_match(&it, key, &h)) { v = h.val; n++; }
  if (count) *count = n;
  return v;
}
