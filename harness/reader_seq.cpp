// The polling and blocking readers and subscribers, C and C++, over sequential histories (C06).
// usage: reader_seq <root> <length> <random histories> <random length> <seed> <out>
// A history is a string: W write small, B write big, C clear, N create all six modes, 0..5 create one,
// R poll all, K read blocking what is readable and with an expired deadline what is not, a..f / A..F the same for one.
#include <a0.h>

#include <memory>
#include <map>
#include "a0util.hpp"

static const char* INITS[] = {"oldest", "recent", "new"};
static const char* ITERS[] = {"next", "newest"};
static std::map<int, std::string> ids;      // what was written
static std::map<int, int> sizes;

static int payload_of(int d, uint8_t* b) {
  int n = sizes[d];
  memcpy(b, &d, 4);
  pat_fill(b + 4, n - 4, d);
  return n;
}

// which write this is, or -2 if it is none
static long check(const std::string& id, const std::vector<std::pair<std::string, std::string>>& hdrs, const uint8_t* p, size_t n) {
  int d;
  if (n < 4) return -2;
  memcpy(&d, p, 4);
  if (!ids.count(d) || ids[d] != id || (int)n != sizes[d] || !pat_is(p + 4, n - 4, d)) return -2;
  int found = 0;
  for (auto& h : hdrs) {
    if (h.first == "k" + std::to_string(d) && h.second == "v" + std::to_string(d * 7)) found++;
    else if (h.first.compare(0, 3, "a0_")) return -2;
  }
  return found == 1 ? d : -2;
}
static long check_flat(a0_flat_packet_t f) {
  a0_uuid_t* id;
  if (a0_flat_packet_id(f, &id)) return -2;
  a0_packet_stats_t st;
  if (a0_flat_packet_stats(f, &st)) return -2;
  std::vector<std::pair<std::string, std::string>> h;
  for (size_t i = 0; i < st.num_hdrs; i++) {
    a0_packet_header_t hd;
    if (a0_flat_packet_header(f, i, &hd)) return -2;
    h.push_back({hd.key, hd.val});
  }
  a0_buf_t p;
  if (a0_flat_packet_payload(f, &p)) return -2;
  return check(std::string((char*)*id), h, p.data, p.size);
}
static long check_pkt(a0_packet_t p) {
  std::vector<std::pair<std::string, std::string>> h;
  a0_packet_header_iterator_t it;
  a0_packet_header_iterator_init(&it, &p);
  a0_packet_header_t hd;
  while (!a0_packet_header_iterator_next(&it, &hd)) h.push_back({hd.key, hd.val});
  return check(std::string((char*)p.id), h, p.payload.data, p.payload.size);
}
static long check_cpp(a0::Packet p) {
  std::vector<std::pair<std::string, std::string>> h(p.headers().begin(), p.headers().end());
  std::string pl = std::string(p.payload().data(), p.payload().size());
  return check(std::string(p.id().data(), p.id().size()), h, (const uint8_t*)pl.data(), pl.size());
}
static long check_flat_cpp(a0::FlatPacket f) {
  std::vector<std::pair<std::string, std::string>> h;
  for (size_t i = 0; i < f.num_headers(); i++) { auto x = f.header(i); h.push_back({std::string(x.first.data(), x.first.size()), std::string(x.second.data(), x.second.size())}); }
  return check(std::string(f.id().data(), f.id().size()), h, (const uint8_t*)f.payload().data(), f.payload().size());
}

struct Rd {
  virtual std::string can() = 0;
  virtual std::string read(int how, long* d) = 0;  // 0 poll, 1 block, 2 expired deadline
  virtual ~Rd() {}
};
static a0_time_mono_t past() {
  a0_time_mono_t t, o;
  a0_time_mono_now(&t);
  a0_time_mono_add(t, -1000000, &o);
  return o;
}
static void on_flat(void* u, a0_transport_locked_t, a0_flat_packet_t f) {
  long* d = (long*)u;
  *d = *d == -1 ? check_flat(f) : -2;
}

static a0_arena_t g_arena;
static a0_pubsub_topic_t g_topic;
static a0_file_options_t g_fopts;

#define ZC_C(NAME, T, PRE, INITARG)                                                  \
  struct NAME : Rd {                                                                 \
    T r;                                                                             \
    NAME(a0_reader_options_t o) { if (PRE##_init(&r, INITARG, o)) exit(99); }        \
    ~NAME() { PRE##_close(&r); }                                                     \
    std::string can() { bool b = false; auto e = PRE##_can_read(&r, &b); return e ? errname(e) : b ? "1" : "0"; } \
    std::string read(int how, long* d) {                                             \
      a0_zero_copy_callback_t cb = {d, on_flat};                                     \
      auto t = past();                                                               \
      return errname(how == 0 ? PRE##_read(&r, cb) : how == 1 ? PRE##_read_blocking(&r, cb) : PRE##_read_blocking_timeout(&r, &t, cb)); \
    }                                                                                \
  }
ZC_C(CZc, a0_reader_sync_zc_t, a0_reader_sync_zc, g_arena);
ZC_C(CSubZc, a0_subscriber_sync_zc_t, a0_subscriber_sync_zc, g_topic);

// fresh memory for every packet, as the C interface asks of its users
static std::vector<void*> g_mem;
static a0_err_t keep_alloc(void*, size_t size, a0_buf_t* out) {
  out->size = size;
  out->data = (uint8_t*)malloc(size ? size : 1);
  g_mem.push_back(out->data);
  return A0_OK;
}
static a0_alloc_t keep() { return a0_alloc_t{nullptr, keep_alloc, nullptr}; }

#define CP_C(NAME, T, PRE, INITARG)                                                  \
  struct NAME : Rd {                                                                 \
    T r;                                                                             \
    NAME(a0_reader_options_t o) { if (PRE##_init(&r, INITARG, keep(), o)) exit(99); } \
    ~NAME() { PRE##_close(&r); }                                                     \
    std::string can() { bool b = false; auto e = PRE##_can_read(&r, &b); return e ? errname(e) : b ? "1" : "0"; } \
    std::string read(int how, long* d) {                                             \
      a0_packet_t p;                                                                 \
      memset(&p, 0, sizeof p);                                                       \
      auto t = past();                                                               \
      auto e = how == 0 ? PRE##_read(&r, &p) : how == 1 ? PRE##_read_blocking(&r, &p) : PRE##_read_blocking_timeout(&r, &t, &p); \
      if (!e) *d = check_pkt(p);                                                     \
      return errname(e);                                                             \
    }                                                                                \
  }
CP_C(CCp, a0_reader_sync_t, a0_reader_sync, g_arena);
CP_C(CSubCp, a0_subscriber_sync_t, a0_subscriber_sync, g_topic);

static a0::Reader::Options cppopts(a0_reader_options_t o) { return a0::Reader::Options(a0::Reader::Init(o.init), a0::Reader::Iter(o.iter)); }
static a0::Arena cpparena() { return a0::Arena(a0::Buf(g_arena.buf.data, g_arena.buf.size), g_arena.mode); }
static a0::PubSubTopic cpptopic() {
  a0::File::Options fo = a0::File::Options::DEFAULT;
  fo.create_options.size = g_fopts.create_options.size;
  return a0::PubSubTopic(g_topic.name, fo);
}

template <typename R>
struct PpZc : Rd {
  R r;
  template <typename A> PpZc(A a, a0_reader_options_t o) : r(a, cppopts(o)) {}
  std::string can() { bool b = false; auto e = guarded([&] { b = r.can_read(); }); return e != "ok" ? e : b ? "1" : "0"; }
  std::string read(int how, long* d) {
    auto f = [d](a0::TransportLocked, a0::FlatPacket p) { *d = *d == -1 ? check_flat_cpp(p) : -2; };
    return guarded([&] { if (how == 0) r.read(f); else if (how == 1) r.read_blocking(f); else r.read_blocking(a0::TimeMono::now() - std::chrono::milliseconds(1), f); });
  }
};
template <typename R>
struct PpCp : Rd {
  R r;
  template <typename A> PpCp(A a, a0_reader_options_t o) : r(a, cppopts(o)) {}
  std::string can() { bool b = false; auto e = guarded([&] { b = r.can_read(); }); return e != "ok" ? e : b ? "1" : "0"; }
  std::string read(int how, long* d) {
    return guarded([&] {
      a0::Packet p = how == 0 ? r.read() : how == 1 ? r.read_blocking() : r.read_blocking(a0::TimeMono::now() - std::chrono::milliseconds(1));
      *d = check_cpp(p);
    });
  }
};

static Rd* make(int flavour, int mode) {
  a0_reader_options_t o = {(a0_reader_init_t)(mode / 2 == 0 ? A0_INIT_OLDEST : mode / 2 == 1 ? A0_INIT_MOST_RECENT : A0_INIT_AWAIT_NEW),
                           mode % 2 ? A0_ITER_NEWEST : A0_ITER_NEXT};
  switch (flavour) {
    case 0: return new CZc(o);
    case 1: return new CCp(o);
    case 2: return new PpZc<a0::ReaderSyncZeroCopy>(cpparena(), o);
    case 3: return new PpCp<a0::ReaderSync>(cpparena(), o);
    case 4: return new CSubZc(o);
    case 5: return new CSubCp(o);
    case 6: return new PpZc<a0::SubscriberSyncZeroCopy>(cpptopic(), o);
    case 7: return new PpCp<a0::SubscriberSync>(cpptopic(), o);
  }
  return nullptr;
}

static std::string root;
static long serial = 0;

static void history(int flavour, const std::string& ops) {
  auto& T = VTrace::get();
  serial++;
  bool file = flavour >= 4;
  static uint8_t mem[8192] __attribute__((aligned(64)));
  a0_file_t f;
  a0_publisher_t pub;
  a0_writer_t wr;
  std::unique_ptr<a0::Publisher> ppub;
  std::string name = "t" + std::to_string(serial);
  if (file) {
    g_topic = {name.c_str(), &g_fopts};
    g_fopts = A0_FILE_OPTIONS_DEFAULT;
    g_fopts.create_options.size = 2200;
    if (a0_file_open((name + ".pubsub.a0").c_str(), &g_fopts, &f)) exit(99);
    g_arena = f.arena;
    if (flavour >= 6) ppub.reset(new a0::Publisher(cpptopic()));
    else if (a0_publisher_init(&pub, g_topic)) exit(99);
  } else {
    memset(mem, 0, sizeof mem);
    g_arena = {{mem, 144 + 640}, A0_ARENA_MODE_SHARED};
    if (a0_writer_init(&wr, g_arena)) exit(99);
  }
  a0_transport_t tp;
  if (a0_transport_init(&tp, g_arena)) exit(99);
  std::unique_ptr<Rd> rd[6];
  int next = 0;
  alarm(20);
  T.begin(J().i("n", 6).i("flavour", flavour).str("ops", ops));
  auto write = [&](int size) {
    int d = next++;
    sizes[d] = size;
    uint8_t b[4096];
    int n = payload_of(d, b);
    a0_packet_t p;
    a0_packet_init(&p);
    ids[d] = std::string((char*)p.id);
    std::string k = "k" + std::to_string(d), v = "v" + std::to_string(d * 7);
    a0_packet_header_t h = {k.c_str(), v.c_str()};
    p.headers_block = {&h, 1, nullptr};
    p.payload = {b, (size_t)n};
    std::string r;
    if (!file) r = errname(a0_writer_write(&wr, p));
    else if (!ppub) r = errname(a0_publisher_pub(&pub, p));
    else r = guarded([&] { a0::Packet q({{k, v}}, a0::string_view((char*)b, n), a0::ref); ids[d] = std::string(q.id().data(), q.id().size()); ppub->pub(q); });
    a0_transport_locked_t l;
    uint64_t lo = 0, hi = 0;
    a0_transport_lock(&tp, &l);
    a0_transport_seq_low(l, &lo);
    a0_transport_seq_high(l, &hi);
    a0_transport_unlock(l);
    T.ev(J().str("o", r == "ok" ? "w" : "badwrite").i("h", 0).i("d", d).i("lo", lo).i("hi", hi));
  };
  auto create = [&](int m) {
    if (rd[m]) return;
    T.ev(J().str("o", "open").i("h", m + 1).str("init", INITS[m / 2]).str("iter", ITERS[m % 2]).b("thr", false));
    rd[m].reset(make(flavour, m));
    T.ev(J().str("o", "ret").i("h", m + 1).str("r", "ok").i("d", -1).i("t", 0));
  };
  auto poll = [&](int m, bool blocking) {
    if (!rd[m]) return;
    T.ev(J().str("o", "call").i("h", m + 1).str("k", "can").i("dl", -1));
    std::string c = rd[m]->can();
    T.ev(J().str("o", "ret").i("h", m + 1).str("r", c).i("d", -1).i("t", 0));
    int how = !blocking ? 0 : c == "1" ? 1 : 2;
    static const char* K[] = {"read", "block", "tblock"};
    T.ev(J().str("o", "call").i("h", m + 1).str("k", K[how]).i("dl", -1));
    long d = -1;
    std::string r = rd[m]->read(how, &d);
    if (r == "ok" && d == -1) d = -3;
    T.ev(J().str("o", "ret").i("h", m + 1).str("r", r).i("d", d).i("t", 0));
  };
  for (char c : ops) {
    if (c == 'W') write(file ? 8 + (int)(serial % 9) : 8 + (int)(serial % 9));
    else if (c == 'B') write(file ? 1000 : 250);
    else if (c == 'C') {
      a0_transport_locked_t l;
      a0_transport_lock(&tp, &l);
      a0_transport_clear(l);
      a0_transport_unlock(l);
      T.ev(J().str("o", "clear").i("h", 0));
    }
    else if (c == 'N') for (int m = 0; m < 6; m++) create(m);
    else if (c >= '0' && c <= '5') create(c - '0');
    else if (c == 'R' || c == 'K') for (int m = 0; m < 6; m++) poll(m, c == 'K');
    else if (c >= 'a' && c <= 'f') poll(c - 'a', false);
    else if (c >= 'g' && c <= 'l') poll(c - 'g', true);
  }
  for (auto& r : rd) r.reset();
  T.end();
  alarm(0);
  for (void* p : g_mem) free(p);
  g_mem.clear();
  if (file) {
    if (ppub) ppub.reset(); else a0_publisher_close(&pub);
    a0_file_close(&f);
    unlink((root + "/" + name + ".pubsub.a0").c_str());
  } else {
    a0_writer_close(&wr);
  }
}

int main(int argc, char** argv) {
  if (argc < 7) return 99;
  root = argv[1];
  setenv("A0_ROOT", root.c_str(), 1);
  int len = atoi(argv[2]);
  long nrand = atol(argv[3]), rlen = atol(argv[4]);
  Rng rng(atoll(argv[5]));
  VTrace::get().init(argv[6]);
  const std::string al = "WBCRK";
  long total = 1;
  for (int i = 0; i < len; i++) total *= al.size();
  for (long x = 0; x < total; x++) {
    std::string s;
    long y = x;
    for (int i = 0; i < len; i++) { s += al[y % al.size()]; y /= al.size(); }
    for (int pos = 0; pos <= len; pos++) {
      // reading before anything was created is nothing
      if (s.substr(0, pos).find_first_of("RK") != std::string::npos) continue;
      std::string h = s.substr(0, pos) + "N" + s.substr(pos);
      for (int f = 0; f < 8; f++) history(f, h);
    }
  }
  const std::string ral = "WWWWWBBCN012345RKabcdefghijkl";
  for (long n = 0; n < nrand; n++) {
    std::string s;
    for (int i = 0; i < rlen; i++) s += ral[rng.below(ral.size())];
    history((int)rng.below(8), s);
  }
  return 0;
}
