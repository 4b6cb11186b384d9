// The map and the provided comparisons and hashes (C20).
// usage: map_seq <length> <random histories> <random length> <seed> <out>
#include <a0.h>
#include <a0/cmp.h>
#include <a0/map.h>
#include <a0/uuid.h>
#include <map>
#include "a0util.hpp"

enum { NK = 24 };
static size_t KS, VS;
static size_t hashes[NK];

static void mkkey(int k, uint8_t* out) { memset(out, 0x5A, KS); out[KS - 1] = (uint8_t)k; }   // keys differ in their last byte only
static a0_err_t hfn(void*, const void* d, size_t* out) { *out = hashes[((const uint8_t*)d)[KS - 1]]; return A0_OK; }
static a0_err_t cfn(void*, const void* a, const void* b, int* out) { *out = memcmp(a, b, KS); return A0_OK; }
static void mkval(int v, uint8_t* out) { for (size_t j = 0; j < VS; j++) out[j] = pat(v, j); if (VS) out[0] = (uint8_t)v; }
// a value with fewer bytes than needed to tell values apart stands for all of them
static int valof(const uint8_t* p) {
  if (!VS) return 0;
  uint8_t want[256];
  mkval(p[0], want);
  return memcmp(want, p, VS) ? -2 : p[0];
}
static int canon(int v) { return VS ? v & 255 : 0; }

struct T {
  a0_map_t m;
  VTrace& t = VTrace::get();
  void open() { a0_map_init(&m, KS, VS, {nullptr, hfn}, {nullptr, cfn}); }
  void close() { a0_map_close(&m); }
  void put(int k, int v) {
    uint8_t kb[128], vb[256];
    mkkey(k, kb); mkval(v, vb);
    t.ev(J().str("o", "put").i("k", k).i("v", canon(v)).str("r", errname(a0_map_put(&m, kb, vb))));
  }
  void del(int k) { uint8_t kb[128]; mkkey(k, kb); t.ev(J().str("o", "del").i("k", k).str("r", errname(a0_map_del(&m, kb)))); }
  void pop(int k) {
    uint8_t kb[128], vb[257];
    mkkey(k, kb);
    memset(vb, 0xEE, sizeof vb);
    a0_err_t e = a0_map_pop(&m, kb, vb);
    if (vb[VS] != 0xEE) t.ev(J().str("o", "overrun"));
    t.ev(J().str("o", "pop").i("k", k).str("r", errname(e)).i("v", e ? -1 : valof(vb)));
  }
  void get(int k, int poke = -1) {
    uint8_t kb[128];
    mkkey(k, kb);
    void* p = nullptr;
    a0_err_t e = a0_map_get(&m, kb, &p);
    t.ev(J().str("o", "get").i("k", k).str("r", errname(e)).i("v", e ? -1 : valof((uint8_t*)p)));
    if (!e && poke >= 0 && VS) { mkval(poke, (uint8_t*)p); t.ev(J().str("o", "poke").i("k", k).i("v", canon(poke))); }
  }
  void has(int k) { uint8_t kb[128]; mkkey(k, kb); bool b = false; a0_map_has(&m, kb, &b); t.ev(J().str("o", "has").i("k", k).b("b", b)); }
  void look() {
    size_t n = 999;
    bool e = false;
    a0_map_size(&m, &n);
    a0_map_empty(&m, &e);
    t.ev(J().str("o", "size").i("n", n).b("e", e));
    a0_map_iterator_t it;
    a0_map_iterator_init(&it, &m);
    std::string es = "[";
    const void* k;
    void* v;
    int c = 0;
    while (!a0_map_iterator_next(&it, &k, &v) && c < 1000) {
      uint8_t kb[128];
      int kk = ((const uint8_t*)k)[KS - 1];
      mkkey(kk, kb);
      if (memcmp(kb, k, KS)) kk = -1;
      if (c++) es += ",";
      es += "[" + std::to_string(kk) + "," + std::to_string(valof((uint8_t*)v)) + "]";
    }
    if (a0_map_iterator_next(&it, &k, &v) != A0_ERR_ITER_DONE) t.ev(J().str("o", "iter-not-done"));
    t.ev(J().str("o", "iter").raw("es", es + "]"));
  }
};

static void hash_mode(Rng& r, int mode) {
  for (int k = 0; k < NK; k++)
    switch (mode) {
      case 0: hashes[k] = 0; break;
      case 1: hashes[k] = k; break;
      case 2: hashes[k] = k % 2 ? (size_t)-1 : 0; break;
      case 3: hashes[k] = k / 2; break;
      case 4: hashes[k] = r.next(); break;
      case 5: hashes[k] = r.below(4); break;
      case 6: hashes[k] = (size_t)-1 - r.below(3); break;
      case 7: hashes[k] = 8 * k; break;
      default: hashes[k] = (r.below(2) << 63) | r.below(16);
    }
}

static void compare(const char* kind, a0_cmp_t c, a0_hash_t h, const void* a, const void* b, const std::vector<long long>& la, const std::vector<long long>& lb, bool hashable) {
  int s = 99, t = 99;
  a0_cmp_eval(c, a, b, &s);
  a0_cmp_eval(c, b, a, &t);
  size_t ha = 1, hb = 2;
  if (hashable) { a0_hash_eval(h, a, &ha); a0_hash_eval(h, b, &hb); } else hb = 1;
  VTrace::get().ev(J().str("o", "cmp").str("k", kind).arr("a", la).arr("b", lb).i("s", (s > 0) - (s < 0)).i("t", (t > 0) - (t < 0)).b("h", ha == hb));
}
static std::vector<long long> bytes(const void* p, size_t n) { std::vector<long long> v; for (size_t i = 0; i < n; i++) v.push_back(((const uint8_t*)p)[i]); return v; }

static void comparisons(Rng& r) {
  auto& T_ = VTrace::get();
  std::vector<uint32_t> u = {0, 1, 2, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff};
  for (int i = 0; i < 6; i++) u.push_back(r.next());
  T_.begin(J().i("n", 0));
  for (auto a : u) for (auto b : u) compare("u32", A0_CMP_U32, A0_HASH_U32, &a, &b, bytes(&a, 4), bytes(&b, 4), true);
  T_.end();
  std::vector<uintptr_t> p = {0, 1, 7, 8, 16, 0x7fffffff, 0x80000000, 0x80000008, 0xffffffff, 0x100000000, 0x100000008, 0x200000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0xffffffff00000000};
  for (int i = 0; i < 6; i++) p.push_back(r.next());
  T_.begin(J().i("n", 0));
  for (auto a : p) for (auto b : p) compare("ptr", A0_CMP_PTR, A0_HASH_PTR, &a, &b, bytes(&a, 8), bytes(&b, 8), true);
  T_.end();
  std::vector<std::string> s = {"", "a", "b", "aa", "ab", "ba", "a\xff", "\x80", "\xff\xff", "abc", "ABC", "abcdefghijk", "abcdefghijl"};
  T_.begin(J().i("n", 0));
  for (auto& a : s) for (auto& b : s) {
    std::string a2 = a, b2 = b;   // equal strings at different addresses
    const char *ca = a2.c_str(), *cb = b2.c_str();
    compare("str", A0_CMP_STR, A0_HASH_STR, &ca, &cb, bytes(ca, a.size()), bytes(cb, b.size()), true);
  }
  T_.end();
  s.push_back(std::string("\0", 1)); s.push_back(std::string("\0\0", 2)); s.push_back(std::string("a\0", 2)); s.push_back(std::string("a\0b", 3));
  T_.begin(J().i("n", 0));
  for (auto& a : s) for (auto& b : s) {
    std::vector<uint8_t> va(a.begin(), a.end()), vb(b.begin(), b.end());   // no terminator to rely on
    a0_buf_t ba = {va.data(), va.size()}, bb = {vb.data(), vb.size()};
    compare("buf", A0_CMP_BUF, A0_HASH_BUF, &ba, &bb, bytes(va.data(), va.size()), bytes(vb.data(), vb.size()), true);
  }
  std::vector<size_t> big = {0, 1ull << 31, 1ull << 32, (1ull << 32) + 1, 1ull << 33, ~0ull};   // sizes alone tell them apart
  for (auto a : big) for (auto b : big) if (a != b) {
    a0_buf_t ba = {nullptr, a}, bb = {nullptr, b};
    compare("bigbuf", A0_CMP_BUF, A0_HASH_BUF, &ba, &bb, bytes(&a, 8), bytes(&b, 8), false);
  }
  T_.end();
  std::vector<std::string> id;
  for (int i = 0; i < 4; i++) { a0_uuid_t x; a0_uuidv4(x); id.push_back(std::string(x, sizeof x)); }
  std::string base = id[0];
  for (int at : {0, 1, 7, 8, 9, 14, 17, 18, 19, 23, 24, 35}) for (char c : {'0', 'f', 'F', 'z', '\x80', '\xff'}) { std::string x = base; x[at] = c; id.push_back(x); }
  T_.begin(J().i("n", 0));
  for (auto& a : id) for (auto& b : id) {
    a0_uuid_t ua, ub;
    memcpy(ua, a.data(), sizeof ua);
    memcpy(ub, b.data(), sizeof ub);
    compare("uuid", A0_CMP_UUID, A0_HASH_UUID, &ua, &ub, bytes(ua, sizeof ua), bytes(ub, sizeof ub), true);
  }
  T_.end();
}

// many entries: the expected content is kept in a std::map
static size_t big_mode;
static a0_err_t bhash(void*, const void* d, size_t* out) {
  uint64_t k = *(uint64_t*)d;
  *out = big_mode == 0 ? k : big_mode == 1 ? k & 0xffff : k * 0x9E3779B97F4A7C15ull >> 20;
  return A0_OK;
}
static a0_err_t bcmp_(void*, const void* a, const void* b, int* o) { *o = memcmp(a, b, 8); return A0_OK; }
static void big(size_t n) {
  auto& T_ = VTrace::get();
  for (big_mode = 0; big_mode < 3; big_mode++) {
    T_.begin(J().i("n", (long)n));
    a0_map_t m;
    a0_map_init(&m, 8, 240, {nullptr, bhash}, {nullptr, bcmp_});
    std::map<uint64_t, uint64_t> want;
    uint8_t v[240] = {0};
    long bad = 0;
    auto put = [&](uint64_t k, uint64_t x) { memcpy(v, &x, 8); memcpy(v + 232, &x, 8); if (a0_map_put(&m, &k, v)) bad++; want[k] = x; };
    for (uint64_t k = 0; k < n; k++) put(k, k * 3);
    size_t cap = 1;
    while (cap <= n * 4) cap *= 2;
    for (uint64_t k = 0; k < 40; k++) put(k * cap, k);            // all where the first one is
    for (uint64_t k = 0; k < n; k += 3) { if (a0_map_del(&m, &k)) bad++; want.erase(k); }
    for (uint64_t k = n; k < n + 2000; k++) put(k, k);
    for (auto& kv : want) {
      void* p;
      if (a0_map_get(&m, &kv.first, &p) || memcmp(p, &kv.second, 8) || memcmp((uint8_t*)p + 232, &kv.second, 8)) bad++;
    }
    for (uint64_t k = 0; k < n; k += 3) { bool b = false; a0_map_has(&m, &k, &b); if (b != (bool)want.count(k)) bad++; }
    a0_map_iterator_t it;
    a0_map_iterator_init(&it, &m);
    const void* k;
    void* p;
    size_t c = 0;
    while (!a0_map_iterator_next(&it, &k, &p)) { c++; if (!want.count(*(uint64_t*)k)) bad++; }
    if (c != want.size()) bad++;
    size_t sz;
    a0_map_size(&m, &sz);
    T_.ev(J().str("o", "big").i("n", (long)sz).i("want", (long)want.size()).i("bad", bad));
    a0_map_close(&m);
    T_.end();
  }
}

int main(int argc, char** argv) {
  if (argc < 6) return 99;
  int len = atoi(argv[1]);
  long nr = atol(argv[2]);
  int rl = atoi(argv[3]);
  Rng rng(atoll(argv[4]));
  VTrace::get().init(argv[5]);
  T t;
  // every history of the given length over three keys
  const int OPS = 10;   // put, del, pop on three keys; overwrite of the first
  for (int mode : {0, 1, 2, 3, 6, 7}) {
    hash_mode(rng, mode);
    KS = mode == 1 ? 3 : mode == 2 ? 16 : 8;
    VS = mode == 3 ? 0 : 8;
    long n = 1;
    for (int i = 0; i < len; i++) n *= OPS;
    for (long x = 0; x < n; x++) {
      VTrace::get().begin(J().i("n", 3));
      t.open();
      long y = x;
      for (int i = 0; i < len; i++, y /= OPS) {
        int op = y % OPS;
        if (op < 3) t.put(op, i + 1);
        else if (op < 6) t.del(op - 3);
        else if (op < 9) t.pop(op - 6);
        else { t.put(3, i); t.put(4, i); }
      }
      for (int k = 0; k < 5; k++) { t.get(k); t.has(k); }
      t.look();
      t.close();
      VTrace::get().end();
    }
  }
  static const size_t ks[] = {1, 2, 4, 7, 8, 9, 16, 17, 24, 100}, vs[] = {0, 1, 3, 8, 15, 16, 17, 40, 200};
  for (long n = 0; n < nr; n++) {
    KS = ks[rng.below(10)];
    VS = vs[rng.below(9)];
    int nk = 2 + rng.below(NK - 2), mode = rng.below(9);
    hash_mode(rng, mode);
    VTrace::get().begin(J().i("n", nk).i("mode", mode).i("ks", KS).i("vs", VS));
    t.open();
    int bias = rng.below(3);
    for (int i = 0; i < rl; i++) {
      int k = rng.below(nk), v = rng.below(250);
      int c = rng.below(20);
      if (c < 6 + bias * 2) t.put(k, v);
      else if (c < 11) { if (rng.chance(50)) t.del(k); else t.pop(k); }
      else if (c < 14) t.get(k, rng.chance(30) ? v : -1);
      else if (c < 17) t.has(k);
      else if (c < 19) t.look();
      else if (rng.chance(5)) { t.close(); t.open(); VTrace::get().ev(J().str("o", "reset")); }
    }
    t.look();
    t.close();
    VTrace::get().end();
  }
  comparisons(rng);
  VTrace::get().flush();
  big(60000);
  return 0;
}
