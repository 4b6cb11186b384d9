// Packets: serialising, reading in place, deserialising, copying, wrapping (C09).
// usage: packet_seq <exhaustive headers> <random packets> <seed> <out>
#include <a0.h>
#include <a0/packet.h>
#include <a0/packet.hpp>
#include <map>
#include <memory>
#include <set>
#include "a0util.hpp"

typedef std::pair<std::string, std::string> H;
static VTrace& T() { return VTrace::get(); }
static int n_obj, n_it;

static std::string hjson(const std::string& k, const std::string& v) { return "[" + J::quote(k) + "," + J::quote(v) + "]"; }
static std::string hsjson(const std::vector<H>& hs) {
  std::string s = "[";
  for (size_t n = 0; n < hs.size(); n++) { if (n) s += ","; s += hjson(hs[n].first, hs[n].second); }
  return s + "]";
}
static std::vector<long long> payrec(const uint8_t* p, size_t n) {
  std::vector<long long> v;
  if (n <= 48) { for (size_t j = 0; j < n; j++) v.push_back(p[j]); return v; }
  uint32_t h = 2166136261u;
  for (size_t j = 0; j < n; j++) h = (h ^ p[j]) * 16777619u;
  return {-1, (long long)n, (long long)(h & 0x7fffffff)};
}
static std::vector<std::string> chars(const std::string& s) { std::vector<std::string> v; for (char c : s) v.push_back(std::string(1, c)); return v; }

// An allocator that hands out exactly what is asked for, or refuses, leaving what it was given pointing at a guarded area.
struct Al {
  std::string want = "ok";
  size_t asked = 0;
  int calls = 0;
  uint8_t guard[4096];
  Al() { memset(guard, 0xA5, sizeof guard); }
  static a0_err_t fn(void* u, size_t n, a0_buf_t* out) {
    Al* a = (Al*)u;
    a->asked = n;
    a->calls++;
    if (a->want != "ok") {
      if (a->want == "ENOMEM") { a0_err_syscode = ENOMEM; return A0_ERR_SYS; }
      return A0_ERR_FRAME_LARGE;
    }
    *out = {(uint8_t*)malloc(n ? n : 1), n};
    memset(out->data, 0xC3, n);
    return A0_OK;
  }
  static a0_err_t del(void*, a0_buf_t b) { free(b.data); return A0_OK; }
  a0_alloc_t get() { return a0_alloc_t{this, fn, del}; }
  int dirty() { int d = 0; for (uint8_t b : guard) d += b != 0xA5; return d; }
};

struct Pkt {   // a packet with everything it points to in separate exact allocations
  a0_packet_t p;
  int h;
  std::vector<std::vector<H>> blocks;
  std::vector<char*> texts;
  std::vector<a0_packet_header_t*> arrays;
  std::vector<a0_packet_headers_block_t*> chain;
  uint8_t* pay = nullptr;
  char* dup(const std::string& s) { char* c = (char*)malloc(s.size() + 1); memcpy(c, s.c_str(), s.size() + 1); texts.push_back(c); return c; }
  Pkt(const std::vector<std::vector<H>>& bs, const std::string& payload) : blocks(bs) {
    a0_packet_init(&p);
    std::string id(p.id, strnlen(p.id, sizeof p.id));
    T().ev(J().str("o", "fresh").str("id", id).strs("cs", chars(id)));
    std::vector<H> all;
    for (size_t b = 0; b < bs.size(); b++) {
      a0_packet_header_t* arr = bs[b].empty() ? nullptr : (a0_packet_header_t*)malloc(bs[b].size() * sizeof(a0_packet_header_t));
      arrays.push_back(arr);
      for (size_t k = 0; k < bs[b].size(); k++) { arr[k] = {dup(bs[b][k].first), dup(bs[b][k].second)}; all.push_back(bs[b][k]); }
      a0_packet_headers_block_t blk = {arr, bs[b].size(), nullptr};
      if (!b) p.headers_block = blk;
      else {
        auto* c = (a0_packet_headers_block_t*)malloc(sizeof(blk));
        *c = blk;
        (chain.empty() ? &p.headers_block : chain.back())->next_block = c;
        chain.push_back(c);
      }
    }
    if (payload.size()) { pay = (uint8_t*)malloc(payload.size()); memcpy(pay, payload.data(), payload.size()); }
    p.payload = {pay, payload.size()};
    h = ++n_obj;
    T().ev(J().str("o", "make").i("h", h).str("id", id).raw("hs", hsjson(all)).arr("pay", payrec(pay, payload.size())));
  }
  ~Pkt() {
    for (auto* x : texts) free(x);
    for (auto* x : arrays) free(x);
    for (auto* x : chain) free(x);
    free(pay);
  }
};

static void stats(int h, const a0_packet_t& p) {
  a0_packet_stats_t s = {99, 99, 99};
  a0_packet_stats(p, &s);
  T().ev(J().str("o", "stats").i("h", h).i("n", s.num_hdrs).i("c", s.content_size).i("s", s.serial_size));
}
static void fstats(int h, const a0_flat_packet_t& p) {
  a0_packet_stats_t s = {99, 99, 99};
  a0_flat_packet_stats(p, &s);
  T().ev(J().str("o", "stats").i("h", h).i("n", s.num_hdrs).i("c", s.content_size).i("s", s.serial_size));
}

struct It {   // the two kinds of iterators under one roof
  bool flat;
  a0_packet_header_iterator_t a;
  a0_flat_packet_header_iterator_t b;
  int id = ++n_it;
  It(int h, a0_packet_t* p) : flat(false) { a0_packet_header_iterator_init(&a, p); T().ev(J().str("o", "it").i("it", id).i("h", h)); }
  It(int h, a0_flat_packet_t* p) : flat(true) { a0_flat_packet_header_iterator_init(&b, p); T().ev(J().str("o", "it").i("it", id).i("h", h)); }
  bool step(const std::string* key, bool log = true, H* got = nullptr) {
    a0_packet_header_t o = {"?", "?"};
    a0_err_t e = flat ? (key ? a0_flat_packet_header_iterator_next_match(&b, key->c_str(), &o) : a0_flat_packet_header_iterator_next(&b, &o))
                      : (key ? a0_packet_header_iterator_next_match(&a, key->c_str(), &o) : a0_packet_header_iterator_next(&a, &o));
    if (got && !e) *got = {o.key, o.val};
    if (log) {
      J j;
      j.str("o", key ? "match" : "next").i("it", id).str("r", errname(e)).raw("hdr", e ? hjson("", "") : hjson(o.key, o.val));
      if (key) j.str("key", *key);
      T().ev(j);
    }
    return !e;
  }
};

template <class P>
static void pass(int h, P* p, const std::string& id, const uint8_t* pay, size_t npay) {   // the complete pass that fixes the order
  std::vector<H> hs;
  It it(h, p);
  H g;
  while (hs.size() < 100000 && it.step(nullptr, false, &g)) hs.push_back(g);
  T().ev(J().str("o", "obs").i("h", h).str("id", id).raw("hs", hsjson(hs)).arr("pay", payrec(pay, npay)));
}
static void see(int h, a0_packet_t* p) { pass(h, p, std::string(p->id, strnlen(p->id, sizeof p->id)), p->payload.data, p->payload.size); }
static void see(int h, a0_flat_packet_t* f) {
  a0_uuid_t* id = nullptr;
  a0_flat_packet_id(*f, &id);
  a0_buf_t pay = {nullptr, 0};
  a0_flat_packet_payload(*f, &pay);
  pass(h, f, std::string(*id, strnlen(*id, sizeof *id)), pay.data, pay.size);
}

template <class P>
static void iterate(int h, P* p, const std::vector<std::string>& keys, Rng& r, bool mixed) {
  for (auto& k : keys) {
    It it(h, p);
    int n = 0;
    while (it.step(&k) && n++ < 64) {}
    it.step(&k);
  }
  { It it(h, p); int n = 0; while (it.step(nullptr) && n++ < 64) {} it.step(nullptr); it.step(&keys[0]); }
  if (!mixed) return;
  It a(h, p), b(h, p);   // two iterators over the same object, interleaved
  for (int n = 0; n < 12; n++) {
    It& it = r.chance(50) ? a : b;
    if (r.chance(50)) it.step(nullptr); else it.step(&keys[r.below(keys.size())]);
  }
}

static void hdr(int f, const a0_flat_packet_t& fp, size_t n) {
  a0_packet_header_t o = {"?", "?"};
  a0_err_t e = a0_flat_packet_header(fp, n, &o);
  T().ev(J().str("o", "hdr").i("h", f).i("n", n > 1000000 ? 1000000 : n).str("r", errname(e)).raw("hdr", e ? hjson("", "") : hjson(o.key, o.val)));
}

struct Flat { a0_flat_packet_t f; int h; };
static bool ser(int h, const a0_packet_t& p, const std::string& err, Flat* out, bool noout = false) {
  Al al;
  al.want = err;
  a0_flat_packet_t f = {{al.guard, 16}};
  a0_err_t e = a0_packet_serialize(p, al.get(), noout ? nullptr : &f);
  int h2 = ++n_obj;
  T().ev(J().str("o", "derive").str("k", "ser").i("h", h).i("h2", h2).str("e", err).str("r", errname(e)).i("dirty", al.dirty()).i("n", al.asked).i("m", noout ? al.asked : f.buf.size));
  if (e || noout) return false;
  *out = {f, h2};
  return true;
}
struct Copy { a0_packet_t p; a0_buf_t b; int h; };
static bool des(const Flat& f, const std::string& err, Copy* out) {
  Al al;
  al.want = err;
  a0_packet_t p;
  memset(&p, 0x77, sizeof p);
  a0_buf_t b = {al.guard, 16};
  a0_err_t e = a0_packet_deserialize(f.f, al.get(), &p, &b);
  int h2 = ++n_obj;
  T().ev(J().str("o", "derive").str("k", "des").i("h", f.h).i("h2", h2).str("e", err).str("r", errname(e)).i("dirty", al.dirty()).i("n", 0).i("m", 0));
  if (e) return false;
  *out = {p, b, h2};
  return true;
}
static bool deep(int h, const a0_packet_t& in, const std::string& err, Copy* out) {
  Al al;
  al.want = err;
  a0_packet_t p;
  memset(&p, 0x77, sizeof p);
  a0_buf_t b = {al.guard, 16};
  a0_err_t e = a0_packet_deep_copy(in, al.get(), &p, &b);
  int h2 = ++n_obj;
  T().ev(J().str("o", "derive").str("k", "copy").i("h", h).i("h2", h2).str("e", err).str("r", errname(e)).i("dirty", al.dirty()).i("n", 0).i("m", 0));
  if (e) return false;
  *out = {p, b, h2};
  return true;
}

static void bag(int h, const a0::Packet& p) {
  std::vector<H> hs;
  for (auto& e : p.headers()) hs.push_back(e);
  auto id = p.id();
  auto pay = p.payload();
  T().ev(J().str("o", "bag").i("h", h).str("id", std::string(id.data(), id.size())).raw("hs", hsjson(hs)).arr("pay", payrec((const uint8_t*)pay.data(), pay.size())));
}
static void derived(const char* k, int h, int h2) {
  T().ev(J().str("o", "derive").str("k", k).i("h", h).i("h2", h2).str("e", "ok").str("r", "ok").i("dirty", 0).i("n", 0).i("m", 0));
}

static void flat_cpp(const Flat& f) {
  a0::FlatPacket w;
  w.c = std::make_shared<a0_flat_packet_t>(f.f);
  auto id = w.id();
  auto pay = w.payload();
  T().ev(J().str("o", "num").i("h", f.h).i("n", w.num_headers()));
  std::vector<H> hs;
  for (size_t n = 0; n < w.num_headers() && n < 300; n++) {
    std::string k, v;
    std::string r = guarded([&] { auto e = w.header(n); k.assign(e.first.data(), e.first.size()); v.assign(e.second.data(), e.second.size()); });
    T().ev(J().str("o", "hdr").i("h", f.h).i("n", n).str("r", r).raw("hdr", hjson(k, v)));
    hs.push_back({k, v});
  }
  std::string r = guarded([&] { w.header(w.num_headers()); });
  T().ev(J().str("o", "hdr").i("h", f.h).i("n", w.num_headers()).str("r", r).raw("hdr", hjson("", "")));
  if (w.num_headers() <= 300)
    T().ev(J().str("o", "bag").i("h", f.h).str("id", std::string(id.data(), id.size())).raw("hs", hsjson(hs)).arr("pay", payrec((const uint8_t*)pay.data(), pay.size())));
}

static void cpp_of(int h, const a0_packet_t& p) {   // wrapping a C packet
  int released = 0;
  {
    int h2 = ++n_obj;
    a0::Packet w(p, [&](a0_packet_t*) { released++; });
    derived("wrap", h, h2);
    bag(h2, w);
    {
      a0::Packet copy = w;
      w = a0::Packet();
      T().ev(J().str("o", "held").i("n", released));
      bag(h2, copy);
      see(h2, copy.c.get());
      stats(h2, *copy.c);
    }
    T().ev(J().str("o", "released").i("n", released));
  }
  T().ev(J().str("o", "released").i("n", released));
}

static void cpp_make(const std::vector<H>& hs, const std::string& pay, int kind) {
  std::unordered_multimap<std::string, std::string> m;
  for (auto& x : hs) m.insert(x);
  std::unique_ptr<std::string> payload(new std::string(pay));
  std::unique_ptr<a0::Packet> w;
  bool nohdr = false;
  switch (kind) {
    case 0: w.reset(new a0::Packet(m, *payload)); break;
    case 1: w.reset(new a0::Packet(m, a0::string_view(*payload), a0::ref)); break;
    case 2: w.reset(new a0::Packet(*payload)); nohdr = true; break;
    case 3: w.reset(new a0::Packet(a0::string_view(*payload), a0::ref)); nohdr = true; break;
    case 4: w.reset(new a0::Packet()); nohdr = true; *payload = ""; break;
  }
  int h = ++n_obj;
  auto id = w->id();
  std::string ids(id.data(), id.size());
  T().ev(J().str("o", "cmake").i("h", h).str("id", ids).strs("cs", chars(ids)).raw("hs", hsjson(nohdr ? std::vector<H>() : hs)).arr("pay", payrec((const uint8_t*)payload->data(), payload->size())));
  if (kind == 0 || kind == 2 || kind == 4) payload.reset();   // owned by the packet
  m.clear();
  a0::Packet copy = *w;
  w.reset();
  bag(h, copy);
  see(h, copy.c.get());
  stats(h, *copy.c);
  Flat f;
  if (ser(h, *copy.c, "ok", &f)) { fstats(f.h, f.f); see(f.h, &f.f); free(f.f.buf.data); }
}

static void run(const std::vector<std::vector<H>>& bs, const std::string& payload, const std::vector<std::string>& keys, Rng& r, int depth) {
  n_obj = n_it = 0;
  T().begin(J().str("k", "packet"));
  std::vector<H> all;
  for (auto& b : bs) for (auto& x : b) all.push_back(x);
  bool big = all.size() > 40;
  std::unique_ptr<Pkt> p(new Pkt(bs, payload));
  stats(p->h, p->p);
  see(p->h, &p->p);
  if (!big) iterate(p->h, &p->p, keys, r, depth > 0);
  Flat f, f0;
  Copy c, c0, c1;
  if (depth > 0) { ser(p->h, p->p, r.chance(50) ? "ENOMEM" : "LARGE", &f0); deep(p->h, p->p, r.chance(50) ? "ENOMEM" : "LARGE", &c0); }
  if (!ser(p->h, p->p, "ok", &f)) { T().end(); return; }
  if (!deep(p->h, p->p, "ok", &c)) { T().end(); return; }
  if (depth > 0) cpp_of(p->h, p->p);
  p.reset();
  fstats(f.h, f.f);
  see(f.h, &f.f);
  if (!big) iterate(f.h, &f.f, keys, r, depth > 0);
  for (size_t n = 0; n <= all.size() + 1 && n < 60; n++) hdr(f.h, f.f, n);
  for (size_t n : {(size_t)0x7fffffffffffffffull, (size_t)-1, (size_t)-2, (size_t)1 << 60, ((size_t)1 << 63) + 1}) hdr(f.h, f.f, n);
  if (depth > 0) flat_cpp(f);
  see(c.h, &c.p);
  stats(c.h, c.p);
  if (depth > 0) des(f, r.chance(50) ? "ENOMEM" : "LARGE", &c0);
  if (des(f, "ok", &c1)) {
    see(f.h, &f.f);
    memset(f.f.buf.data, 0xDD, f.f.buf.size);
    free(f.f.buf.data);
    see(c1.h, &c1.p);
    stats(c1.h, c1.p);
    if (!big) iterate(c1.h, &c1.p, keys, r, false);
    if (depth > 0) {   // once more around, from what was read back
      Flat g;
      Copy d;
      if (ser(c1.h, c1.p, "ok", &g)) {
        if (deep(c1.h, c1.p, "ok", &d)) { memset(c1.b.data, 0xDD, c1.b.size); see(d.h, &d.p); free(d.b.data); }
        see(g.h, &g.f);
        fstats(g.h, g.f);
        free(g.f.buf.data);
      }
    }
    free(c1.b.data);
  } else free(f.f.buf.data);
  free(c.b.data);
  if (depth > 0) cpp_make(all, payload, (int)r.below(5));
  T().end();
}

int main(int argc, char** argv) {
  if (argc < 5) return 99;
  int maxh = atoi(argv[1]);
  long nrand = atol(argv[2]);
  Rng r(atol(argv[3]));
  VTrace::get().init(argv[4]);
  std::vector<std::string> ks = {"", "a", "ab"}, vs = {"", "x"}, pays = {"", "p", std::string("\0q\0", 3)};
  // every sequence of up to maxh headers, cut into blocks in every way (with and without empty blocks around)
  for (int n = 0; n <= maxh; n++) {
    long total = 1;
    for (int j = 0; j < n; j++) total *= 6;
    for (long w = 0; w < total; w++) {
      std::vector<H> hs;
      long x = w;
      for (int j = 0; j < n; j++) { hs.push_back({ks[x % 3], vs[x / 3 % 2]}); x /= 6; }
      for (int cut = 0; cut < (1 << n); cut++) {
        if (n == 3 && cut % 2 && w % 3) continue;
        std::vector<std::vector<H>> bs(1);
        for (int j = 0; j < n; j++) {
          if (cut >> j & 1) { bs.push_back({}); if ((w + j) % 4 == 0) bs.push_back({}); }
          bs.back().push_back(hs[j]);
        }
        if ((w + cut) % 3 == 1) bs.push_back({});
        run(bs, pays[(w + cut) % 3], {"", "a", "ab", "b"}, r, n < 2 ? 1 : (w + cut) % 8 == 0);
      }
    }
  }
  std::vector<std::string> alpha = {"", "a", "b", "ab", "aa", "A", "key", "a0_dep", "\xc3\xa9", std::string(300, 'k')};
  for (long q = 0; q < nrand; q++) {
    int nb = 1 + (int)r.below(5);
    std::vector<std::vector<H>> bs(nb);
    int cap = q % 50 == 0 ? 400 : q % 7 == 0 ? 24 : 6;
    int nh = (int)r.below(cap);
    for (int j = 0; j < nh; j++) {
      std::string v = alpha[r.below(alpha.size())];
      if (r.chance(20)) v = std::string(r.below(100), (char)(1 + r.below(255)));
      std::string k = cap == 400 ? "k" + std::to_string(r.below(50)) : alpha[r.below(alpha.size())];
      if (cap == 400) v = "v" + std::to_string(j % 97);
      bs[r.below(nb)].push_back({k, v});
    }
    size_t np = r.chance(20) ? 0 : r.chance(80) ? r.below(60) : r.chance(90) ? r.below(5000) : r.below(1 << 20);
    std::string pay(np, 0);
    for (auto& ch : pay) ch = (char)r.next();
    run(bs, pay, {alpha[r.below(alpha.size())], alpha[r.below(alpha.size())], "none"}, r, 1);
  }
  VTrace::get().flush();
  return 0;
}
