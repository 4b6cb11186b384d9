// Readers and subscribers of every kind against writers and closers under every schedule (C06, C07).
// usage: reader_sim <read|close> <root> <preemptions> <max_runs> <random_runs> <fine> <seed> <out>
// A scenario has readers, written "<kind><init><iter><habit>", what happens before anything runs, and one script per thread.
//   kinds: Z P z p background readers (zero-copy / copying, C / C++), U V u v the same as subscribers,
//          S T s t polling readers, D E d e polling subscribers
//   init: o oldest, r most recent, n new   iter: N next, W newest
//   habit of the callback: - none, s tries to close its own reader, e writes a packet on its first call
//   scripts: w write, b write a big one, c clear, o1 open reader 1, x1 close it, q1 can it read, r1 poll, k1 block, t1 block until 3 ms
#include <a0.h>
#include <memory>
#include "a0util.hpp"
#include "simtrace.hpp"
#include "simfile.hpp"

static const size_t ARENA = 2048, ASZ = 144 + 560;
static a0_arena_t arena;
static a0_transport_t* wt(int p) { return (a0_transport_t*)(sim::shared() + 8192 + 256 * p); }
static void* mem(int r) { return sim::shared() + 12288 + 1024 * r; }
static int next_d;
static std::string root;

struct Scen { std::vector<std::string> rd; std::string pre; std::vector<std::string> th; };
static const Scen* S;
static bool in_block[32];

static bool subs(char k) { return strchr("UVuvDEde", k); }
static bool background(char k) { return strchr("ZPzpUVuv", k); }

static void do_write(int p, int size) {
  a0_transport_locked_t l;
  a0_transport_lock(wt(p), &l);
  int d = next_d++;
  uint8_t b[512];
  memcpy(b, &d, 4);
  pat_fill(b + 4, size - 4, d);
  a0_packet_t k;
  a0_packet_init(&k);
  std::string hk = "k", hv = std::to_string(d);
  a0_packet_header_t h = {hk.c_str(), hv.c_str()};
  k.headers_block = {&h, 1, nullptr};
  k.payload = {b, (size_t)size};
  a0_alloc_t al;
  a0_transport_allocator(&l, &al);
  a0_flat_packet_t fp;
  a0_err_t e = a0_packet_serialize(k, al, &fp);
  if (!e) e = a0_transport_commit(l);
  uint64_t lo, hi;
  a0_transport_seq_low(l, &lo);
  a0_transport_seq_high(l, &hi);
  VTrace::get().ev(J().str("o", e ? "badwrite" : "w").i("h", 0).i("d", d).i("lo", lo).i("hi", hi));
  a0_transport_unlock(l);
}

static long judge(const std::string& k, const std::string& v, size_t nh, const uint8_t* p, size_t n) {
  int d;
  if (n < 4 || nh != 1 || k != "k") return -2;
  memcpy(&d, p, 4);
  if (d < 0 || d >= next_d || v != std::to_string(d) || !pat_is(p + 4, n - 4, d) || (n != 8 && n != 200)) return -2;
  return d;
}
static long judge_flat(a0_flat_packet_t f) {
  a0_packet_stats_t st;
  a0_packet_header_t h;
  a0_buf_t p;
  if (a0_flat_packet_stats(f, &st) || st.num_hdrs != 1 || a0_flat_packet_header(f, 0, &h) || a0_flat_packet_payload(f, &p)) return -2;
  return judge(h.key, h.val, 1, p.data, p.size);
}
static long judge_pkt(a0_packet_t p) {
  if (p.headers_block.size != 1) return -2;
  return judge(p.headers_block.headers[0].key, p.headers_block.headers[0].val, 1, p.payload.data, p.payload.size);
}
static long judge_cpp(const a0::Packet& p) {
  if (p.headers().size() != 1) return -2;
  return judge(p.headers().begin()->first, p.headers().begin()->second, 1, (const uint8_t*)p.payload().data(), p.payload().size());
}

struct Handle {
  char kind;
  std::shared_ptr<void> cpp;
  int calls = 0;
};
static std::vector<Handle> H;

static a0_err_t close_c(int r) {
  switch (H[r].kind) {
    case 'Z': return a0_reader_zc_close((a0_reader_zc_t*)mem(r));
    case 'P': return a0_reader_close((a0_reader_t*)mem(r));
    case 'U': return a0_subscriber_zc_close((a0_subscriber_zc_t*)mem(r));
    case 'V': return a0_subscriber_close((a0_subscriber_t*)mem(r));
    case 'z': return a0_reader_zc_close(((a0::ReaderZeroCopy*)H[r].cpp.get())->c.get());
    case 'p': return a0_reader_close(((a0::Reader*)H[r].cpp.get())->c.get());
    case 'u': return a0_subscriber_zc_close(((a0::SubscriberZeroCopy*)H[r].cpp.get())->c.get());
    case 'v': return a0_subscriber_close(((a0::Subscriber*)H[r].cpp.get())->c.get());
    case 'S': return a0_reader_sync_zc_close((a0_reader_sync_zc_t*)mem(r));
    case 'T': return a0_reader_sync_close((a0_reader_sync_t*)mem(r));
    case 'D': return a0_subscriber_sync_zc_close((a0_subscriber_sync_zc_t*)mem(r));
    case 'E': return a0_subscriber_sync_close((a0_subscriber_sync_t*)mem(r));
    default: return A0_OK;
  }
}

static void callback(int r, const std::function<long()>& get, bool locked) {
  long d = get();
  VTrace::get().ev(J().str("o", "cb").i("h", r + 1).i("d", d));
  H[r].calls++;
  sim::point();
  char habit = S->rd[r][3];
  if (habit == 's' && H[r].calls <= 2) {
    std::string e = errname(close_c(r));
    VTrace::get().ev(J().str("o", "self").i("h", r + 1).str("r", e));
  }
  if (habit == 'e' && H[r].calls == 1 && !locked) do_write(10 + r, 8);
  // what was handed over must not change while the callback runs
  if (get() != d) VTrace::get().ev(J().str("o", "altered").i("h", r + 1));
  VTrace::get().ev(J().str("o", "cbend").i("h", r + 1));
}
static void zc_cb(void* u, a0_transport_locked_t, a0_flat_packet_t f) { callback((int)(intptr_t)u, [&] { return judge_flat(f); }, true); }
static void pkt_cb(void* u, a0_packet_t p) { callback((int)(intptr_t)u, [&] { return judge_pkt(p); }, false); }

static a0_reader_options_t opts_of(int r) {
  char i = S->rd[r][1], t = S->rd[r][2];
  return {i == 'o' ? A0_INIT_OLDEST : i == 'r' ? A0_INIT_MOST_RECENT : A0_INIT_AWAIT_NEW, t == 'N' ? A0_ITER_NEXT : A0_ITER_NEWEST};
}

static a0_file_options_t fopts() {
  a0_file_options_t o = A0_FILE_OPTIONS_DEFAULT;
  o.create_options.size = ASZ;
  return o;
}

static void open_reader(int r) {
  char k = S->rd[r][0];
  H[r].kind = k;
  auto o = opts_of(r);
  a0::Reader::Options po(a0::Reader::Init(o.init), a0::Reader::Iter(o.iter));
  static a0_file_options_t fo;
  fo = fopts();
  a0_pubsub_topic_t topic = {"t", &fo};
  a0::File::Options pfo = a0::File::Options::DEFAULT;
  pfo.create_options.size = ASZ;
  a0::PubSubTopic ptopic("t", pfo);
  a0::Arena pa(a0::Buf(arena.buf.data, arena.buf.size), arena.mode);
  auto zf = [r](a0::TransportLocked, a0::FlatPacket f) { callback(r, [&] { return judge_flat(*f.c); }, true); };
  auto pf = [r](a0::Packet p) { callback(r, [&] { return judge_cpp(p); }, false); };
  void* u = (void*)(intptr_t)r;
  static const char* I[] = {"oldest", "recent", "new"};
  VTrace::get().ev(J().str("o", "open").i("h", r + 1).str("init", I[o.init == A0_INIT_OLDEST ? 0 : o.init == A0_INIT_MOST_RECENT ? 1 : 2])
                       .str("iter", o.iter == A0_ITER_NEXT ? "next" : "newest").b("thr", background(k)));
  a0_err_t e = A0_OK;
  switch (k) {
    case 'Z': e = a0_reader_zc_init((a0_reader_zc_t*)mem(r), arena, o, {u, zc_cb}); break;
    case 'P': e = a0_reader_init((a0_reader_t*)mem(r), arena, heap(), o, {u, pkt_cb}); break;
    case 'U': e = a0_subscriber_zc_init((a0_subscriber_zc_t*)mem(r), topic, o, {u, zc_cb}); break;
    case 'V': e = a0_subscriber_init((a0_subscriber_t*)mem(r), topic, heap(), o, {u, pkt_cb}); break;
    case 'z': H[r].cpp.reset(new a0::ReaderZeroCopy(pa, po, zf)); break;
    case 'p': H[r].cpp.reset(new a0::Reader(pa, po, pf)); break;
    case 'u': H[r].cpp.reset(new a0::SubscriberZeroCopy(ptopic, po, zf)); break;
    case 'v': H[r].cpp.reset(new a0::Subscriber(ptopic, po, pf)); break;
    case 'S': e = a0_reader_sync_zc_init((a0_reader_sync_zc_t*)mem(r), arena, o); break;
    case 'T': e = a0_reader_sync_init((a0_reader_sync_t*)mem(r), arena, heap(), o); break;
    case 's': H[r].cpp.reset(new a0::ReaderSyncZeroCopy(pa, po)); break;
    case 't': H[r].cpp.reset(new a0::ReaderSync(pa, po)); break;
    case 'D': e = a0_subscriber_sync_zc_init((a0_subscriber_sync_zc_t*)mem(r), topic, o); break;
    case 'E': e = a0_subscriber_sync_init((a0_subscriber_sync_t*)mem(r), topic, heap(), o); break;
    case 'd': H[r].cpp.reset(new a0::SubscriberSyncZeroCopy(ptopic, po)); break;
    case 'e': H[r].cpp.reset(new a0::SubscriberSync(ptopic, po)); break;
  }
  VTrace::get().ev(J().str("o", "ret").i("h", r + 1).str("r", errname(e)).i("d", -1).i("t", 0));
}

static void read_reader(int r, char op) {
  char k = H[r].kind;
  static const char* N[] = {"can", "read", "block", "tblock"};
  int how = op == 'q' ? 0 : op == 'r' ? 1 : op == 'k' ? 2 : 3;
  VTrace::get().ev(J().str("o", "call").i("h", r + 1).str("k", N[how]).i("dl", how == 3 ? 3 : -1));
  in_block[sim::self()] = how == 2;
  a0_time_mono_t t;
  uint64_t ns = sim::T0 + 3 * sim::MS;
  t.ts.tv_sec = ns / 1000000000ull;
  t.ts.tv_nsec = ns % 1000000000ull;
  a0::TimeMono pt;
  pt.c = std::make_shared<a0_time_mono_t>(t);
  long d = -1;
  bool can = false;
  a0_packet_t pk;
  memset(&pk, 0, sizeof pk);
  std::string res;
  a0_zero_copy_callback_t cb = {&d, [](void* u, a0_transport_locked_t, a0_flat_packet_t f) { *(long*)u = judge_flat(f); }};
  auto zf = [&](a0::TransportLocked, a0::FlatPacket f) { d = judge_flat(*f.c); };
#define ZC(T, P)                                                                                     \
  { auto x = (T*)mem(r); a0_err_t e;                                                                   \
    if (how == 0) e = P##_can_read(x, &can); else if (how == 1) e = P##_read(x, cb);                     \
    else if (how == 2) e = P##_read_blocking(x, cb); else e = P##_read_blocking_timeout(x, &t, cb);      \
    res = errname(e); break; }
#define CP(T, P)                                                                                     \
  { auto x = (T*)mem(r); a0_err_t e;                                                                   \
    if (how == 0) e = P##_can_read(x, &can); else if (how == 1) e = P##_read(x, &pk);                    \
    else if (how == 2) e = P##_read_blocking(x, &pk); else e = P##_read_blocking_timeout(x, &t, &pk);    \
    if (!e && how) { sim::point(); d = judge_pkt(pk); }                                                  \
    res = errname(e); break; }
#define PZ(T) { auto x = (T*)H[r].cpp.get(); res = guarded([&] { if (how == 0) can = x->can_read(); else if (how == 1) x->read(zf); else if (how == 2) x->read_blocking(zf); else x->read_blocking(pt, zf); }); break; }
#define PC(T) { auto x = (T*)H[r].cpp.get(); res = guarded([&] { if (how == 0) can = x->can_read(); else { a0::Packet p = how == 1 ? x->read() : how == 2 ? x->read_blocking() : x->read_blocking(pt); d = judge_cpp(p); } }); break; }
  switch (k) {
    case 'S': ZC(a0_reader_sync_zc_t, a0_reader_sync_zc)
    case 'T': CP(a0_reader_sync_t, a0_reader_sync)
    case 'D': ZC(a0_subscriber_sync_zc_t, a0_subscriber_sync_zc)
    case 'E': CP(a0_subscriber_sync_t, a0_subscriber_sync)
    case 's': PZ(a0::ReaderSyncZeroCopy)
    case 't': PC(a0::ReaderSync)
    case 'd': PZ(a0::SubscriberSyncZeroCopy)
    case 'e': PC(a0::SubscriberSync)
  }
  in_block[sim::self()] = false;
  if (how == 0 && res == "ok") res = can ? "1" : "0";
  else if (how && res == "ok" && d == -1) d = -3;
  VTrace::get().ev(J().str("o", "ret").i("h", r + 1).str("r", res).i("d", d).i("t", how == 3 ? sim::now_ms() : 0));
}

static void close_reader(int r) {
  VTrace::get().ev(J().str("o", "call").i("h", r + 1).str("k", "close").i("dl", -1));
  a0_err_t e = A0_OK;
  if (H[r].cpp) {
    switch (H[r].kind) {   // destroying the object is what closes it
      case 'z': ((a0::ReaderZeroCopy*)H[r].cpp.get())->c.reset(); break;
      case 'p': ((a0::Reader*)H[r].cpp.get())->c.reset(); break;
      case 'u': ((a0::SubscriberZeroCopy*)H[r].cpp.get())->c.reset(); break;
      case 'v': ((a0::Subscriber*)H[r].cpp.get())->c.reset(); break;
    }
  } else {
    e = close_c(r);
  }
  VTrace::get().ev(J().str("o", "ret").i("h", r + 1).str("r", errname(e)).i("d", -1).i("t", 0));
  // nothing of the handle is used any more
  if (!e && !H[r].cpp) memset(mem(r), 0xEE, 1024);
}

static void step(int p, char op, int r) {
  switch (op) {
    case 'w': do_write(p, 8); break;
    case 'b': do_write(p, 200); break;
    case 'c': {
      a0_transport_locked_t l;
      a0_transport_lock(wt(p), &l);
      a0_transport_clear(l);
      VTrace::get().ev(J().str("o", "clear").i("h", 0));
      a0_transport_unlock(l);
      break;
    }
    case 'o': open_reader(r); break;
    case 'x': close_reader(r); break;
    default: read_reader(r, op);
  }
}
static void script(int p, const std::string& s) {
  for (size_t i = 0; i < s.size(); i++) {
    char op = s[i];
    int r = 0;
    if (i + 1 < s.size() && isdigit((unsigned char)s[i + 1])) r = s[++i] - '1';
    step(p, op, r);
  }
}

int main(int argc, char** argv) {
  if (argc < 9) return 99;
  root = argv[2];
  setenv("A0_ROOT", root.c_str(), 1);
  sim::Config base;
  base.preemptions = atoi(argv[3]);
  base.max_runs = atol(argv[4]);
  base.random_runs = atol(argv[5]);
  base.fine = atoi(argv[6]);
  base.seed = atoll(argv[7]);
  VTrace::get().init(argv[8]);
  std::vector<Scen> scen;
  auto A = [&](std::vector<std::string> rd, std::string pre, std::vector<std::string> th) { scen.push_back({rd, pre, th}); };
  const char* modes[] = {"oN", "oW", "rN", "rW", "nN", "nW"};
  if (!strcmp(argv[1], "read")) {
    int n = 0;
    for (std::string m : modes) {
      for (std::string pre : {"", "ww", "wwc", "wwwww"}) {
        char bk = "ZPzpUVuv"[n % 8], bk2 = "PZpzVUvu"[n % 8], sk = "STstDEde"[n % 8];
        n++;
        std::string B = std::string(1, bk) + m + "-", B2 = std::string(1, bk2) + m + "-", K = std::string(1, sk) + m + "-";
        A({B}, pre, {"o1", "ww"});
        A({B2}, pre, {"o1", "wb", "w"});
        A({B}, pre, {"o1w", "cw"});
        A({B, B2}, pre, {"o1o2", "wbbw"});
        A({K}, pre, {"o1k1k1", "ww"});
        A({K}, pre, {"o1q1r1k1", "wbw"});
        A({K}, pre, {"o1t1t1", "w", "cw"});
        A({K, B}, pre, {"o1k1k1", "o2", "wcw"});
        A({std::string(1, "PpVv"[n % 4]) + m + "e"}, pre, {"o1", "wb"});
      }
    }
  } else {
    int n = 0;
    for (char k : std::string("ZPzpUVuv")) {
      char k2 = "PVUZvpuz"[n % 8];
      const char* m = modes[n % 6];
      n++;
      std::string R = std::string(1, k) + m, Q = std::string(1, k2) + "oN";
      A({R + "-"}, "", {"o1x1"});
      A({R + "-"}, "ww", {"o1x1w", "w"});
      A({R + "-", Q + "-"}, "", {"o1x1", "o2", "w"});
      A({R + "-", Q + "-"}, "w", {"o1o2", "ww", "w"});
      A({R + "-", Q + "-"}, "w", {"o1x1w", "o2x2w"});
      A({R + "-", Q + "-"}, "w", {"o1o2x1w", "ww"});
      if (isupper(k)) {   // the C++ objects are closed by destroying them, which their callbacks cannot do
        A({std::string(1, k) + "oNs"}, "ww", {"o1"});
        A({std::string(1, k) + "oNs"}, "w", {"o1x1", "w"});
        A({std::string(1, k) + "oNs", Q + "-"}, "w", {"o1o2", "w"});
      }
      A({std::string(1, k) + "oNe"}, "w", {"o1x1", "w"});
      A({R + "-", "SoN-"}, "", {"o1x1", "o2k2k2", "ww"});
      // the one to be closed is the last of many that sleep
      A({R + "-", Q + "-", "ZnN-", "PnW-"}, "", {"o4o3o2o1x1w"});
      A({R + "-", Q + "-", "ZnN-", "PnW-"}, "", {"o2o3o4o1x1x4", "w"});
    }
  }
  bool ok = sim::parallel(8, scen.size(), [&](size_t i) {
    S = &scen[i];
    sim::Config c = base;
    c.seed = base.seed * 1000003 + i;
    bool file = false;
    for (auto& r : S->rd) file |= subs(r[0]);
    std::string nm = "t.pubsub.a0";
    // every process its own directory: the file is only a name here, its pages are the simulator's
    std::string dir = root + "/p" + std::to_string(getpid());
    mkdir(dir.c_str(), 0777);
    setenv("A0_ROOT", dir.c_str(), 1);
    auto setup = [&] {
      simfile::start_run();
      next_d = 0;
      memset(in_block, 0, sizeof in_block);
      H.clear();
      H.resize(S->rd.size());
      if (file) {
        a0_file_options_t o = fopts();
        a0_file_t f;
        if (a0_file_open(nm.c_str(), &o, &f)) _exit(99);
        arena = f.arena;
      } else {
        arena = {{sim::shared() + ARENA, ASZ}, A0_ARENA_MODE_SHARED};
      }
      for (int p = 0; p < 15; p++) a0_transport_init(wt(p), arena);
      VTrace::get().begin(J().i("n", S->rd.size()).strs("readers", S->rd).str("pre", S->pre).strs("threads", S->th));
      sim_common_events();
      script(0, S->pre);
      for (size_t k = 0; k < S->th.size(); k++) sim::spawn([&, k] { script((int)k + 1, S->th[k]); }, false);
    };
    auto finish = [&](const sim::Outcome& o) {
      std::vector<long long> stuck;
      for (int b : o.blocked) if (b <= (int)S->th.size() && !in_block[b]) stuck.push_back(b);
      VTrace::get().ev(J().str("o", o.livelock ? "livelock" : "quiet").i("h", 0).arr("stuck", stuck));
      SimTrace::get().end();
      for (auto& h : H) if (h.cpp) new std::shared_ptr<void>(h.cpp);   // never destroyed outside of a run
      simfile::end_run();
    };
    sim::explore(c, setup, finish);
    VTrace::get().flush();
    unlink((dir + "/" + nm).c_str());
    rmdir(dir.c_str());
    fprintf(stderr, "%zu runs=%ld kept=%ld\n", i, SimTrace::get().runs, SimTrace::get().kept);
  });
  return ok ? 0 : 1;
}
