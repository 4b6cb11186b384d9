// Sequential driver of the transport: random and exhaustive operation sequences, through the C and the C++ interface.
//   transport_seq <what> <n> <seed> <out>
#include <map>
#include <memory>
#include "a0util.hpp"

static VTrace& T = VTrace::get();
static const size_t BUFSZ = 8192;
static const int CANARY = 0x5a;

struct Api {
  virtual ~Api() {}
  virtual void open(int h, uint8_t* buf, size_t size, a0_arena_mode_t m) = 0;
  virtual std::string lock(int h) = 0;
  virtual std::string unlock(int h) = 0;
  virtual std::string alloc(int h, size_t n, a0_transport_frame_t** f) = 0;
  virtual std::string evicts(int h, size_t n, bool* b) = 0;
  virtual std::string commit(int h) = 0;
  virtual std::string clear(int h) = 0;
  virtual std::string resize(int h, size_t n) = 0;
  virtual std::string query(int h, const std::string& q, long long* v) = 0;
  virtual std::string move(int h, const std::string& q) = 0;
  virtual std::string jump(int h, size_t off) = 0;
  virtual std::string frame(int h, a0_transport_frame_t** f) = 0;
};

struct CApi : Api {
  a0_transport_t t[5];
  a0_transport_locked_t lk[5];
  void open(int h, uint8_t* buf, size_t size, a0_arena_mode_t m) override {
    a0_arena_t a = {{buf, size}, m};
    a0_transport_init(&t[h], a);
  }
  std::string lock(int h) override { return errname(a0_transport_lock(&t[h], &lk[h])); }
  std::string unlock(int h) override { return errname(a0_transport_unlock(lk[h])); }
  bool viaalloc = false;
  std::string alloc(int h, size_t n, a0_transport_frame_t** f) override {
    viaalloc = !viaalloc;
    if (viaalloc) return errname(a0_transport_alloc(lk[h], n, f));
    a0_alloc_t al;
    a0_transport_allocator(&lk[h], &al);
    a0_buf_t b;
    a0_err_t e = a0_alloc(al, n, &b);
    if (!e) {
      *f = (a0_transport_frame_t*)(b.data - offsetof(a0_transport_frame_t, data));
      if (b.size != n) return "badbuf";
    }
    return errname(e);
  }
  std::string evicts(int h, size_t n, bool* b) override { return errname(a0_transport_alloc_evicts(lk[h], n, b)); }
  std::string commit(int h) override { return errname(a0_transport_commit(lk[h])); }
  std::string clear(int h) override { return errname(a0_transport_clear(lk[h])); }
  std::string resize(int h, size_t n) override { return errname(a0_transport_resize(lk[h], n)); }
  std::string query(int h, const std::string& q, long long* v) override {
    bool b = false;
    uint64_t u = 0;
    size_t s = 0;
    a0_err_t e;
    if (q == "empty") { e = a0_transport_empty(lk[h], &b); *v = b; }
    else if (q == "nonempty") { e = a0_transport_nonempty(lk[h], &b); *v = b; }
    else if (q == "valid") { e = a0_transport_iter_valid(lk[h], &b); *v = b; }
    else if (q == "has_next") { e = a0_transport_has_next(lk[h], &b); *v = b; }
    else if (q == "has_prev") { e = a0_transport_has_prev(lk[h], &b); *v = b; }
    else if (q == "seq_low") { e = a0_transport_seq_low(lk[h], &u); *v = u; }
    else if (q == "seq_high") { e = a0_transport_seq_high(lk[h], &u); *v = u; }
    else if (q == "used") { e = a0_transport_used_space(lk[h], &s); *v = s; }
    else abort();
    return errname(e);
  }
  std::string move(int h, const std::string& q) override {
    a0_err_t e;
    if (q == "jump_head") e = a0_transport_jump_head(lk[h]);
    else if (q == "jump_tail") e = a0_transport_jump_tail(lk[h]);
    else if (q == "next") e = a0_transport_step_next(lk[h]);
    else e = a0_transport_step_prev(lk[h]);
    return errname(e);
  }
  std::string jump(int h, size_t off) override { return errname(a0_transport_jump(lk[h], off)); }
  std::string frame(int h, a0_transport_frame_t** f) override { return errname(a0_transport_frame(lk[h], f)); }
};

struct CppApi : Api {
  std::unique_ptr<a0::Transport> t[5];
  std::unique_ptr<a0::TransportLocked> lk[5];
  ~CppApi() override { for (auto& l : lk) l.reset(); for (auto& x : t) x.reset(); }
  void open(int h, uint8_t* buf, size_t size, a0_arena_mode_t m) override {
    t[h].reset(new a0::Transport(a0::Arena(a0::Buf(buf, size), m)));
  }
  std::string lock(int h) override { return guarded([&] { lk[h].reset(new a0::TransportLocked(t[h]->lock())); }); }
  std::string unlock(int h) override { return guarded([&] { lk[h].reset(); }); }
  std::string alloc(int h, size_t n, a0_transport_frame_t** f) override { return guarded([&] { *f = lk[h]->alloc(n); }); }
  std::string evicts(int h, size_t n, bool* b) override { return guarded([&] { *b = lk[h]->alloc_evicts(n); }); }
  std::string commit(int h) override { return guarded([&] { lk[h]->commit(); }); }
  std::string clear(int h) override { return guarded([&] { lk[h]->clear(); }); }
  std::string resize(int h, size_t n) override { return guarded([&] { lk[h]->resize(n); }); }
  std::string query(int h, const std::string& q, long long* v) override {
    return guarded([&] {
      if (q == "empty") *v = lk[h]->empty();
      else if (q == "nonempty") *v = !lk[h]->empty();
      else if (q == "valid") *v = lk[h]->iter_valid();
      else if (q == "has_next") *v = lk[h]->has_next();
      else if (q == "has_prev") *v = lk[h]->has_prev();
      else if (q == "seq_low") *v = lk[h]->seq_low();
      else if (q == "seq_high") *v = lk[h]->seq_high();
      else *v = lk[h]->used_space();
    });
  }
  std::string move(int h, const std::string& q) override {
    return guarded([&] {
      if (q == "jump_head") lk[h]->jump_head();
      else if (q == "jump_tail") lk[h]->jump_tail();
      else if (q == "next") lk[h]->step_next();
      else lk[h]->step_prev();
    });
  }
  std::string jump(int h, size_t off) override { return guarded([&] { lk[h]->jump(off); }); }
  std::string frame(int h, a0_transport_frame_t** f) override { return guarded([&] { *f = lk[h]->frame(); }); }
};

struct Run {
  std::unique_ptr<Api> api;
  uint8_t* buf;
  size_t asz;
  bool excl;
  int token = 0;
  std::map<uint64_t, int> tok;          // seq -> token, as written
  std::map<uint64_t, size_t> committed_off;  // offsets handed out
  bool outstanding = false;
  a0_transport_frame_t* of = nullptr;
  size_t on = 0;
  std::map<int, bool> positioned;

  Run(bool cpp, size_t asz_, bool excl_) : asz(asz_), excl(excl_) {
    buf = (uint8_t*)aligned_alloc(64, BUFSZ);
    memset(buf, CANARY, BUFSZ);
    memset(buf, 0, asz);
    if (cpp) api.reset(new CppApi); else api.reset(new CApi);
    T.begin(J().i("asz", asz).str("mode", excl ? "exclusive" : "shared").i("cpp", cpp));
    a0_arena_mode_t m = excl ? A0_ARENA_MODE_EXCLUSIVE : A0_ARENA_MODE_SHARED;
    for (int h : {1, 2}) { api->open(h, buf, asz, m); T.ev(J().str("o", "open").i("p", h).i("h", h)); }
  }
  // An arena as the previous version of the format left it: two flag bytes, a lock of another shape, pages of four words
  // at 56 and 88, which one counts at 120, frames from 144 on.
  Run(bool cpp, size_t asz_, bool excl_, Rng& g) : asz(asz_), excl(excl_) {
    buf = (uint8_t*)aligned_alloc(64, BUFSZ);
    memset(buf, CANARY, BUFSZ);
    for (size_t i = 0; i < asz; i++) buf[i] = g.chance(50) ? 0 : (uint8_t)g.next();
    uint64_t hi = g.chance(15) ? 0 : g.chance(30) ? 1 + g.below(1000000000) : 1 + g.below(40), lo = hi ? hi + 1 : 0, head = 0, tail = 0;
    std::vector<J> fr;
    std::vector<std::pair<size_t, size_t>> at;      // where the frames are, oldest first
    if (hi && !g.chance(15)) {
      size_t off = 144 + 16 * g.below((asz - 144) / 16);
      bool wrapped = false;
      size_t room = asz - 144;
      int most = 1 + (int)g.below(12);
      for (int k = 0; k < most && (uint64_t)k < hi; k++) {
        size_t n = g.chance(30) ? g.below(room) : g.below(room / 4 + 1);
        if (g.chance(15) && off + 40 <= asz) n = asz - off - 40;
        if (off + 40 + n > asz) {
          if (wrapped) break;
          wrapped = true;
          off = 144;
          if (off + 40 + n > asz || (at.size() && off + 40 + n > at[0].first)) { if (at.empty()) { wrapped = false; k--; } else break; }
          if (off + 40 + n > asz) continue;
        }
        if (wrapped && at.size() && off + 40 + n > at[0].first) break;
        if (at.empty()) wrapped = false;
        at.push_back({off, n});
        off = (off + 40 + n + 15) / 16 * 16;
      }
    }
    for (size_t k = 0; k < at.size(); k++) {
      auto* f = (a0_transport_frame_t*)(buf + at[k].first);
      f->hdr.seq = hi - at.size() + 1 + k;
      f->hdr.off = at[k].first;
      f->hdr.next_off = k + 1 < at.size() ? at[k + 1].first : g.chance(50) ? 0 : 144;
      f->hdr.prev_off = k ? at[k - 1].first : g.chance(50) ? 0 : 144;
      f->hdr.data_size = at[k].second;
      int d = at[k].second ? ++token : 0;
      pat_fill(f->data, at[k].second, d);
      tok[f->hdr.seq] = d;
      committed_off[f->hdr.seq] = at[k].first;
      fr.push_back(J().i("seq", f->hdr.seq).i("off", at[k].first).i("n", at[k].second).i("d", d));
    }
    if (!at.empty()) { lo = hi - at.size() + 1; head = at[0].first; tail = at.back().first; }
    uint32_t page = (uint32_t)g.below(2);
    uint64_t live[4] = {lo, hi, head, tail}, other[4] = {lo, hi + 1, head, 144};
    if (g.chance(40)) memcpy(other, live, sizeof live);
    buf[0] = buf[1] = 1;
    memcpy(buf + (page ? 88 : 56), live, sizeof live);
    memcpy(buf + (page ? 56 : 88), other, sizeof other);
    memcpy(buf + 120, &page, sizeof page);
    if (cpp) api.reset(new CppApi); else api.reset(new CApi);
    T.begin(J().i("asz", asz).str("mode", excl ? "exclusive" : "shared").i("cpp", cpp).b("slack", true).i("lo", lo).i("hi", hi).objs("fr", fr));
    if (g.chance(30)) look();
    open(1);
  }
  void open(int h) {
    api->open(h, buf, asz, excl ? A0_ARENA_MODE_EXCLUSIVE : A0_ARENA_MODE_SHARED);
    T.ev(J().str("o", "open").i("p", h).i("h", h));
  }
  // what a readonly user of a copy finds
  void look() {
    std::vector<uint8_t> keep(buf, buf + asz);
    std::unique_ptr<Api> was(new CApi);
    api.swap(was);
    api->open(4, buf, asz, A0_ARENA_MODE_READONLY);
    std::vector<J> fr;
    api->lock(4);
    if (api->move(4, "jump_head") == "ok") {
      for (int k = 0; k < 300; k++) {
        a0_transport_frame_t* f = nullptr;
        if (api->frame(4, &f) != "ok") { fr.push_back(J().i("seq", -1).i("n", -1).i("d", -2).i("off", -1)); break; }
        fr.push_back(J().i("seq", f->hdr.seq).i("n", f->hdr.data_size).i("d", token_of(f)).i("off", (long long)((uint8_t*)f - buf)));
        if (api->move(4, "next") != "ok") break;
      }
    }
    api->unlock(4);
    T.ev(J().str("o", "peek").i("p", 4).i("h", 4).objs("fr", fr));
    api.swap(was);
    memcpy(buf, keep.data(), asz);
  }
  void finish() {
    T.end();
    api.reset();
    free(buf);
  }
  bool ends_at_arena_end(size_t off) { return off + 40 + ((a0_transport_frame_t*)(buf + off))->hdr.data_size == asz; }
  J E(const char* o, int h) { return J().str("o", o).i("p", h).i("h", h); }
  void canary() {
    for (size_t i = asz; i < BUFSZ && i < asz + 1024; i++)
      if (buf[i] != CANARY) { T.ev(J().str("o", "overrun").i("p", 0).i("h", 0).i("at", i)); break; }
  }
  void lock(int h) { auto r = api->lock(h); T.ev(E(r == "ok" ? "lock" : "lockfail", h).str("r", r)); }
  void unlock(int h) { outstanding = false; T.ev(E("unlock", h)); api->unlock(h); }
  // n: real size; log -1 for sizes beyond what the specification's integers hold
  static long long ln(size_t n) { return n > 1000000 ? -1 : (long long)n; }
  bool alloc(int h, size_t n) {
    a0_transport_frame_t* f = nullptr;
    auto r = api->alloc(h, n, &f);
    J e = E("alloc", h).i("n", ln(n)).str("r", r);
    if (r == "ok") {
      long long off = (uint8_t*)f - buf;
      bool sane = off >= 0 && off + 40 <= (long long)BUFSZ;
      if (!sane || ln(n) < 0) { e.i("off", off).i("seq", -1).i("sz", -1); T.ev(e); return false; }
      e.i("off", (long long)f->hdr.off == off ? off : -1).i("seq", f->hdr.seq).i("sz", f->hdr.data_size);
      T.ev(e);
      outstanding = true; of = f; on = n;
      committed_off[f->hdr.seq] = off;
      if (off + 40 + n > asz) return false;  // the specification rejects this; do not write there
      int d = n ? ++token : 0;
      pat_fill(f->data, n, d);
      tok[f->hdr.seq] = d;
      T.ev(E("fill", h).i("d", d));
    } else {
      T.ev(e);
    }
    canary();
    return r == "ok";
  }
  bool evicts(int h, size_t n) {
    bool b = false;
    auto r = api->evicts(h, n, &b);
    T.ev(E("evicts", h).i("n", ln(n)).str("r", r).i("v", b));
    return r == "ok" && b;
  }
  void commit(int h) { outstanding = false; auto r = api->commit(h); T.ev(E("commit", h).str("r", r)); canary(); }
  void clear(int h) { outstanding = false; auto r = api->clear(h); T.ev(E("clear", h).str("r", r)); }
  void resize(int h, size_t n) {
    auto r = api->resize(h, n);
    T.ev(E("resize", h).i("n", n).str("r", r));
    if (r == "ok") {
      if (n < asz) memset(buf + n, CANARY, BUFSZ - n);
      else memset(buf + asz, 0, n - asz);
      asz = n;
    }
  }
  void query(int h, const char* q) { long long v = -1; auto r = api->query(h, q, &v); T.ev(E(r == "ok" ? q : "queryfail", h).i("v", v)); }
  bool move(int h, const char* q) {
    auto r = api->move(h, q);
    T.ev(E(q, h).str("r", r));
    if (r == "ok") positioned[h] = true;
    return r == "ok";
  }
  int token_of(a0_transport_frame_t* f) {
    auto it = tok.find(f->hdr.seq);
    if (f->hdr.data_size == 0) return 0;
    if (f->hdr.data_size > BUFSZ) return -2;
    if (it != tok.end() && pat_is(f->data, f->hdr.data_size, it->second)) return it->second;
    return -2;
  }
  void frame(int h) {
    if (!positioned[h]) return;
    a0_transport_frame_t* f = nullptr;
    auto r = api->frame(h, &f);
    J e = E("frame", h).str("r", r);
    if (r == "ok") {
      long long off = (uint8_t*)f - buf;
      if (off < 0 || off + 40 > (long long)BUFSZ) { e.i("seq", -1).i("off", -1).i("sz", -1).i("d", -2); T.ev(e); return; }
      e.i("seq", f->hdr.seq).i("off", f->hdr.off == (size_t)off ? off : -1).i("sz", f->hdr.data_size).i("d", token_of(f));
    }
    T.ev(e);
  }
  // Everything readable, via handle h, forwards (or backwards and reversed).
  void dump(int h, bool back) {
    std::vector<J> fr;
    long long lo = -1, hi = -1;
    api->query(h, "seq_low", &lo);
    api->query(h, "seq_high", &hi);
    auto r = api->move(h, back ? "jump_tail" : "jump_head");
    T.ev(E(back ? "jump_tail" : "jump_head", h).str("r", r));
    int steps = 0;
    if (r == "ok") {
      positioned[h] = true;
      while (true) {
        a0_transport_frame_t* f = nullptr;
        if (api->frame(h, &f) != "ok") { fr.push_back(J().i("seq", -1).i("n", -1).i("d", -2).i("off", -1)); break; }
        long long off = (uint8_t*)f - buf;
        if (off < 0 || off + 40 > (long long)BUFSZ) { fr.push_back(J().i("seq", -1).i("n", -1).i("d", -2).i("off", -1)); break; }
        J x = J().i("seq", f->hdr.seq).i("n", f->hdr.data_size).i("d", token_of(f)).i("off", off);
        if (back) fr.insert(fr.begin(), x); else fr.push_back(x);
        if (++steps > 300) break;
        r = api->move(h, back ? "prev" : "next");
        if (r != "ok") break;
      }
    }
    T.ev(E("dump", h).objs("fr", fr).i("lo", lo).i("hi", hi));
    // leave the cursor where the specification can follow it
    r = api->move(h, "jump_head");
    T.ev(E("jump_head", h).str("r", r));
  }
};

static void exhaustive(int depth, size_t asz, const std::vector<size_t>& sizes, bool cpp) {
  // alphabet: write each size; abandon an allocation of sizes[0]; clear
  int na = sizes.size() + 2;
  std::vector<int> seq(depth, 0);
  while (true) {
    Run r(cpp, asz, false);
    for (int a : seq) {
      r.lock(1);
      if (a < (int)sizes.size()) {
        r.evicts(1, sizes[a]);
        if (r.alloc(1, sizes[a])) r.commit(1);
      } else if (a == (int)sizes.size()) {
        r.alloc(1, sizes[sizes.size() - 1]);
      } else {
        r.clear(1);
      }
      r.query(1, "used");
      r.query(1, "has_next");
      if (!r.outstanding) {  // a cursor is never put on a frame that is then abandoned
        r.move(1, "next");
        r.frame(1);
      }
      r.unlock(1);
      r.lock(2);
      r.dump(2, false);
      r.unlock(2);
    }
    r.finish();
    int k = depth - 1;
    while (k >= 0 && ++seq[k] == na) seq[k--] = 0;
    if (k < 0) break;
  }
}

static size_t pick_size(Rng& g, size_t asz) {
  switch (g.below(10)) {
    case 0: return 0;
    case 1: return g.below(17);
    case 2: return asz > 184 ? asz - 184 : 0;                      // exactly the whole arena
    case 3: return asz > 184 ? asz - 184 + 1 + g.below(40) : 5;    // just too large
    case 4: return asz > 184 ? asz - 184 - 1 - g.below(20) % (asz - 184) : 1;
    case 5: { static const size_t big[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 39, SIZE_MAX - 40, SIZE_MAX - 41, SIZE_MAX - 183, SIZE_MAX - 184, SIZE_MAX - 200,
                                           SIZE_MAX / 2, SIZE_MAX / 2 + 1, (size_t)1 << 32, ((size_t)1 << 32) - 40, (size_t)1 << 31, SIZE_MAX - 300, SIZE_MAX - 600};
              return big[g.below(sizeof big / sizeof *big)]; }
    default: return g.below((asz - 144) / 2 + 1);
  }
}

static void random_run(uint64_t seed, bool cpp, bool old = false) {
  Rng g(seed);
  static const size_t asizes[] = {144 + 40, 144 + 48, 144 + 96, 144 + 100, 144 + 144, 144 + 200, 144 + 256, 144 + 333, 144 + 512, 144 + 1000, 200, 250, 300};
  size_t asz = asizes[g.below(sizeof asizes / sizeof *asizes)];
  if (g.chance(30)) asz = 184 + g.below(700);
  bool excl = g.chance(20);
  Run r = old ? Run(cpp, asz, excl, g) : Run(cpp, asz, excl);
  int nops = 20 + g.below(50), second = old ? g.below(10) : 0;
  bool same = g.chance(25);                       // equal-sized frames reach exact-fit layouts
  size_t fixed = 8 * g.below(12);
  // sizes that make the frame end exactly at the end of the arena
  for (int k = 0; k < nops; k++) {
    int h = 1 + g.below(2);
    if (old && k == second) r.open(2);
    if (k < second) h = 1;
    if (old && k == 0) { r.lock(1); r.dump(1, g.chance(50)); r.unlock(1); }
    r.lock(h);
    int m = 1 + g.below(4);
    for (int q = 0; q < m; q++) {
      switch (g.below(14)) {
        case 0: case 1: case 2: case 3: case 4: {
          size_t n = same && g.chance(80) ? fixed : pick_size(g, r.asz);
          if (g.chance(15) && !r.committed_off.empty() && r.of) {  // try to hit the end of the arena exactly
            long long off = ((long long)((uint8_t*)r.of - r.buf) + 40 + r.on + 15) / 16 * 16;
            long long x = (long long)r.asz - off - 40 + (long long)g.below(3) - 1;
            if (x >= 0 && x < 4000) n = x;
          }
          bool ev = false;
          if (r.outstanding) { ev = r.evicts(h, n); if (ev) break; }   // a second allocation only if nothing is evicted for it
          else if (g.chance(40)) r.evicts(h, n);
          if (r.alloc(h, n)) { if (excl || g.chance(85)) r.commit(h); }
          break;
        }
        case 5: if (!r.outstanding && g.chance(30)) r.clear(h); break;
        case 6: if (!r.outstanding && g.chance(40)) {
            long long u = 0;
            r.api->query(h, "used", &u);
            size_t n = g.chance(50) ? u + g.below(5) - 2 : 184 + g.below(900);
            if (n < 184 || n > BUFSZ - 1200) break;
            r.resize(h, n);
          }
          break;
        case 7: { static const char* qs[] = {"empty", "nonempty", "seq_low", "seq_high", "used", "valid", "has_next", "has_prev"};
            r.query(h, qs[g.below(8)]); break; }
        case 8: if (!r.outstanding) { r.move(h, "jump_head"); r.frame(h); } break;
        case 9: if (!r.outstanding) { r.move(h, "jump_tail"); r.frame(h); } break;
        case 10: if (!r.outstanding) { r.query(h, "has_next"); r.move(h, "next"); r.frame(h); } break;
        case 11: if (!r.outstanding) { r.query(h, "has_prev"); r.move(h, "prev"); r.frame(h); } break;
        case 12: if (!r.outstanding) r.frame(h); break;
        case 13: if (!r.outstanding) {
            if (g.chance(50)) {   // a place where no frame can be
              static const size_t bad[] = {1, 8, 145, 150, 15, 17};
              size_t off = g.chance(50) ? bad[g.below(6)] : (r.asz - 24 + 15) / 16 * 16 + 16 * g.below(4);
              if (off % 16 == 0 && off + 40 <= r.asz) break;
              auto rr = r.api->jump(h, off);
              T.ev(r.E("jump", h).i("s", 0).i("off", off).str("r", rr));
            } else {
              long long lo, hi;
              r.api->query(h, "seq_low", &lo); r.api->query(h, "seq_high", &hi);
              if (hi == 0 || lo > hi) break;
              long long s = lo + g.below(hi - lo + 1);
              size_t off = r.committed_off[s];
              if (r.ends_at_arena_end(off)) break;  // see jump_exact
              auto rr = r.api->jump(h, off);
              T.ev(r.E("jump", h).i("s", s).i("off", off).str("r", rr));
              if (rr == "ok") { r.positioned[h] = true; r.frame(h); }
            }
          }
          break;
      }
    }
    if (excl && r.outstanding) r.commit(h);
    if (!r.outstanding && g.chance(25)) r.dump(h, g.chance(50));
    r.unlock(h);
  }
  r.lock(1);
  r.dump(1, true);
  r.unlock(1);
  r.finish();
}

// Random access to a frame that takes up the whole arena.
static void jump_exact() {
  Run r(false, 304, false);
  r.lock(1);
  if (r.alloc(1, 304 - 184)) r.commit(1);
  auto rr = r.api->jump(1, 144);
  T.ev(r.E("jump", 1).i("s", 1).i("off", 144).str("r", rr));
  r.unlock(1);
  r.finish();
}

int main(int argc, char** argv) {
  if (argc < 5) return 99;
  std::string what = argv[1];
  int n = atoi(argv[2]);
  uint64_t seed = atoll(argv[3]);
  T.init(argv[4]);
  alarm(200);
  if (what == "exhaustive") {
    exhaustive(n, 144 + 160, {0, 24, 56, 120}, false);
    exhaustive(n, 144 + 144, {8, 40, 104}, false);
    exhaustive(n - 1, 144 + 200, {8, 30, 96, 160}, true);
  } else if (what == "jump_exact") {
    jump_exact();
  } else if (what == "old") {
    for (int k = 0; k < n; k++) random_run(seed * 1000003 + k, k % 4 == 3, true);
  } else {
    for (int k = 0; k < n; k++) random_run(seed * 1000003 + k, k % 4 == 3);
  }
  T.flush();
  return 0;
}
