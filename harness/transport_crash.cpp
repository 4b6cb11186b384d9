// Kills a process after every machine instruction that changes the shared arena (or its record of held locks), while it
// runs a script of transport operations, and records what the survivors find.
//   transport_crash <what> <n> <seed> <out>
// The victim is single-stepped with the processor's trap flag; the death is a real process exit, so the kernel's own
// handling of held robust locks takes part.
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <linux/futex.h>
#include <algorithm>
#include <map>
#include <memory>
#include "a0util.hpp"

static VTrace& T = VTrace::get();
static const size_t BUFSZ = 4096;
static uint8_t* shm;                       // the arena
static uint32_t* result;                   // from the victim: [0]=number of steps, [1]=finished, [2..]=changing steps
static const size_t MAXPTS = 60000;

struct Op { std::string o; long n; int d; };
static std::map<int, std::string> content;  // token -> bytes

// ---------------------------------------------------------------- stepping

static volatile long step_no, step_kill, step_on;
static inline void tf_on() { asm volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "cc", "memory"); }
static inline void tf_off() { asm volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "cc", "memory"); }
static uint8_t last_arena[BUFSZ];
static uint8_t last_robust[24];
static size_t watch_size;

static void on_trap(int, siginfo_t*, void*) {
  step_no++;
  if (step_kill > 0) {
    if (step_no == step_kill) syscall(SYS_exit_group, 0);
    return;
  }
  // dry run: note the steps after which something a survivor can see is different
  bool changed = memcmp(last_arena, shm, watch_size) != 0;
  struct robust_list_head* head = nullptr;
  size_t len = 0;
  syscall(SYS_get_robust_list, 0, &head, &len);
  uint8_t now[24] = {0};
  if (head) memcpy(now, head, 24);
  if (memcmp(now, last_robust, 24)) changed = true;
  if (changed) {
    memcpy(last_arena, shm, watch_size);
    memcpy(last_robust, now, 24);
    if (result[0] < MAXPTS) result[2 + result[0]++] = step_no;
  }
}

// ---------------------------------------------------------------- scripts

static a0_arena_t its_arena;
static a0_packet_t prepared[8];  // packets for the "write" operation

static __attribute__((noinline)) void run_ops(a0_transport_t* t, a0_writer_t* w, const Op* ops, size_t n) {
  a0_transport_locked_t lk;
  bool locked = false;
  for (size_t k = 0; k < n; k++) {
    const char c = ops[k].o[0];
    if (c == 'W') { a0_writer_write(w, prepared[ops[k].n]); continue; }   // the writer locks by itself
    if (c == 'I') { a0_transport_t t2; a0_transport_init(&t2, its_arena); continue; }
    if (!locked) { a0_transport_lock(t, &lk); locked = true; }
    switch (c) {
      case 'a': {  // alloc, fill
        a0_transport_frame_t* f;
        if (!a0_transport_alloc(lk, ops[k].n, &f)) {
          // not stepped through: an unfilled frame is invisible, or it is not even once filled
          tf_off();
          for (long j = 0; j < ops[k].n; j++) f->data[j] = pat(ops[k].d, j);
          if (step_on) tf_on();
        }
        break;
      }
      case 'c': a0_transport_commit(lk); break;
      case 'C': a0_transport_clear(lk); break;
      case 'r': a0_transport_resize(lk, ops[k].n); break;
      case 'u': a0_transport_unlock(lk); locked = false; break;
      case 'h': a0_transport_jump_head(lk); break;
      case 'n': a0_transport_step_next(lk); break;
    }
  }
  if (locked) a0_transport_unlock(lk);
}

static int token_of_frame(a0_transport_frame_t* f) {
  size_t n = f->hdr.data_size;
  if (n == 0) return 0;
  if (n > BUFSZ) return -2;
  for (auto& kv : content)
    if (kv.second.size() == n && !memcmp(kv.second.data(), f->data, n)) return kv.first;
  return -2;
}

struct Sess {
  uint8_t* base;
  a0_transport_t t;
  int h;
  void open(int h_, uint8_t* base_, size_t asz, a0_arena_mode_t m) {
    h = h_;
    base = base_;
    a0_arena_t a = {{base, asz}, m};
    a0_transport_init(&t, a);
  }
};

static J E(const char* o, int h) { return J().str("o", o).i("p", h).i("h", h); }

static std::vector<J> collect(Sess& s, a0_transport_locked_t lk, long long* lo, long long* hi, bool back = false) {
  std::vector<J> fr;
  uint64_t u = 0;
  a0_transport_seq_low(lk, &u); *lo = u;
  a0_transport_seq_high(lk, &u); *hi = u;
  if (back ? a0_transport_jump_tail(lk) : a0_transport_jump_head(lk)) return fr;
  while (fr.size() < 60) {
    a0_transport_frame_t* f = nullptr;
    if (a0_transport_frame(lk, &f)) { fr.push_back(J().i("seq", -1).i("n", -1).i("d", -2).i("off", -1)); break; }
    long long off = (uint8_t*)f - s.base;
    if (off < 0 || off + 40 > (long long)BUFSZ) { fr.push_back(J().i("seq", -1).i("n", -1).i("d", -2).i("off", -1)); break; }
    fr.push_back(J().i("seq", f->hdr.seq).i("n", f->hdr.data_size).i("d", token_of_frame(f)).i("off", off));
    if (back ? a0_transport_step_prev(lk) : a0_transport_step_next(lk)) break;
  }
  if (back) std::reverse(fr.begin(), fr.end());
  return fr;
}

static a0_transport_locked_t do_lock(Sess& s) {
  a0_transport_locked_t lk;
  std::string r = errname(a0_transport_lock(&s.t, &lk));
  T.ev(E(r == "ok" ? "lock" : "lockfail", s.h).str("r", r));
  return lk;
}
static void do_unlock(Sess& s, a0_transport_locked_t lk) { T.ev(E("unlock", s.h)); a0_transport_unlock(lk); }

static void dump(Sess& s, a0_transport_locked_t lk) {
  long long lo, hi;
  bool e;
  a0_transport_empty(lk, &e);
  std::vector<J> fr = collect(s, lk, &lo, &hi);
  T.ev(E("jump_head", s.h).str("r", e ? "RANGE" : "ok"));
  T.ev(E("dump", s.h).objs("fr", fr).i("lo", lo).i("hi", hi));
  fr = collect(s, lk, &lo, &hi, true);
  T.ev(E("dump", s.h).objs("fr", fr).i("lo", lo).i("hi", hi));
  std::string r = errname(a0_transport_jump_head(lk));
  T.ev(E("jump_head", s.h).str("r", r));
  size_t used = 0;
  a0_transport_used_space(lk, &used);
  T.ev(E("used", s.h).i("v", used));
}

static void write_one(Sess& s, a0_transport_locked_t lk, size_t n, int d) {
  a0_transport_frame_t* f = nullptr;
  std::string r = errname(a0_transport_alloc(lk, n, &f));
  J e = E("alloc", s.h).i("n", n).str("r", r);
  if (r == "ok") {
    long long off = (uint8_t*)f - s.base;
    e.i("off", off).i("seq", f->hdr.seq).i("sz", f->hdr.data_size);
    T.ev(e);
    if (off < 0 || off + 40 + n > BUFSZ) return;
    for (size_t j = 0; j < n; j++) f->data[j] = pat(d, j);
    std::string b((size_t)n, 0);
    for (size_t j = 0; j < n; j++) b[j] = pat(d, j);
    content[d] = b;
    T.ev(E("fill", s.h).i("d", n ? d : 0));
    r = errname(a0_transport_commit(lk));
    T.ev(E("commit", s.h).str("r", r));
  } else {
    T.ev(e);
  }
}

// What a user that takes no lock finds in a copy of the arena.
static void peek(size_t asz, a0_arena_mode_t m) {
  static uint8_t* copy = (uint8_t*)aligned_alloc(64, BUFSZ);
  memcpy(copy, shm, BUFSZ);
  Sess s;
  s.open(0, copy, asz, m);
  a0_transport_locked_t lk;
  a0_transport_lock(&s.t, &lk);
  long long lo, hi;
  std::vector<J> fr = collect(s, lk, &lo, &hi);
  T.ev(J().str("o", "peek").i("p", 0).i("h", 0).str("as", m == A0_ARENA_MODE_READONLY ? "readonly" : "exclusive").objs("fr", fr));
  a0_transport_unlock(lk);
}

struct Scenario {
  size_t asz;
  std::vector<std::pair<long, int>> pre;   // sizes written beforehand, by the parent
  bool preclear = false;
  std::vector<Op> ops;
  bool exclusive = false;   // the victim opens the arena for itself only
  bool fresh = false;       // the victim finds an arena of null bytes and initialises it
};

static J opj(const Op& o) {
  const char* nm = o.o == "a" ? "alloc" : o.o == "c" ? "commit" : o.o == "C" ? "clear" : o.o == "r" ? "resize" : o.o == "u" ? "unlock" : "none";
  return J().str("o", nm).i("n", o.n).i("d", o.n ? o.d : 0);
}

static std::vector<J> spec_ops(const std::vector<Op>& ops) {
  std::vector<J> out;
  for (auto& o : ops) {
    if (o.o == "W") {   // what a write of the prepared packet amounts to
      out.push_back(opj({"a", (long)content[1000 + o.n].size(), (int)(1000 + o.n)}));
      out.push_back(opj({"c", 0, 0}));
      out.push_back(opj({"u", 0, 0}));
    } else {
      out.push_back(opj(o));
    }
  }
  return out;
}

// Runs the script in a child. kill > 0: it dies after that many steps. Returns the child's pid status.
static void victim(const Scenario& sc, a0_transport_t* inherited, long kill) {
  pid_t pid = fork();
  if (pid == 0) {
    a0_transport_t t;
    a0_writer_t w;
    a0_arena_mode_t m = sc.exclusive ? A0_ARENA_MODE_EXCLUSIVE : A0_ARENA_MODE_SHARED;
    a0_arena_t a = {{shm, sc.asz}, m};
    bool useW = false;
    for (auto& o : sc.ops) useW |= o.o == "W";
    its_arena = a;
    if (sc.fresh) memset(&t, 0, sizeof t);
    else if (inherited && !sc.exclusive) t = *inherited;
    else a0_transport_init(&t, a);
    if (useW) a0_writer_init(&w, a);
    // make the thread's record of held locks exist before stepping starts
    a0_mtx_t dummy = A0_EMPTY;
    a0_mtx_lock(&dummy);
    a0_mtx_unlock(&dummy);
    struct sigaction sa = {};
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, nullptr);
    watch_size = sc.asz;
    memcpy(last_arena, shm, watch_size);
    struct robust_list_head* head = nullptr;
    size_t len = 0;
    syscall(SYS_get_robust_list, 0, &head, &len);
    if (head) memcpy(last_robust, head, 24);
    step_no = 0;
    step_kill = kill;
    const Op* ops = sc.ops.data();
    size_t n = sc.ops.size();
    step_on = 1;
    tf_on();
    run_ops(&t, &w, ops, n);
    tf_off();
    result[1] = 1;
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) T.ev(J().str("o", "signal").i("p", 0).i("h", 0).i("sig", WTERMSIG(st)));
}

// One execution. Returns nothing; writes one trace.
static void execute(const Scenario& sc, long kill, long kill2, Rng& g, bool record) {
  memset(shm, 0, BUFSZ);
  Sess a, b;
  a0_arena_mode_t am = A0_ARENA_MODE_SHARED;
  T.begin(J().i("asz", sc.asz).str("mode", "shared").i("vx", sc.exclusive));
  int tok = 1;
  auto keep = content;
  if (!sc.fresh) {
    a.open(1, shm, sc.asz, am);
    T.ev(E("open", 1));
    auto lk = do_lock(a);
    for (auto& x : sc.pre) { write_one(a, lk, x.first, tok); tok++; }
    if (sc.preclear) { std::string r = errname(a0_transport_clear(lk)); T.ev(E("clear", 1).str("r", r)); write_one(a, lk, 24, tok++); }
    std::string r = errname(a0_transport_jump_head(lk));
    T.ev(E("jump_head", 1).str("r", r));
    do_unlock(a, lk);
  }
  for (auto& o : sc.ops) if (o.o == "a" && o.n) { std::string s(o.n, 0); for (long j = 0; j < o.n; j++) s[j] = pat(o.d, j); content[o.d] = s; }
  result[0] = 0;
  result[1] = 0;
  victim(sc, sc.fresh ? nullptr : &a.t, kill);
  if (kill > 0) {
    T.ev(J().str("o", "died").i("p", 3).i("h", 3).objs("ops", spec_ops(sc.ops)));
    if (kill2 > 0) {
      victim(sc, sc.fresh ? nullptr : &a.t, kill2);
      T.ev(J().str("o", "died").i("p", 3).i("h", 3).objs("ops", spec_ops(sc.ops)));
    }
    peek(sc.asz, A0_ARENA_MODE_READONLY);
    peek(sc.asz, A0_ARENA_MODE_EXCLUSIVE);
    size_t asz = ((size_t*)shm)[17];  // resized by the victim, perhaps (offset 136: arena size)
    (void)asz;
    if (!sc.fresh && g.chance(50)) {   // the handle that was open all along comes first ...
      auto lk = do_lock(a);
      static const char* qs[] = {"valid", "has_next"};
      bool v;
      a0_transport_iter_valid(lk, &v); T.ev(E(qs[0], 1).i("v", v));
      a0_transport_has_next(lk, &v); T.ev(E(qs[1], 1).i("v", v));
      dump(a, lk);
      do_unlock(a, lk);
    }
    b.open(2, shm, sc.asz, am);          // ... or a new one does
    T.ev(E("open", 2));
    auto lk = do_lock(b);
    dump(b, lk);
    write_one(b, lk, 40, 500);
    dump(b, lk);
    do_unlock(b, lk);
    if (!sc.fresh) {
      lk = do_lock(a);
      dump(a, lk);
      write_one(a, lk, 8, 501);
      write_one(a, lk, 70, 502);
      dump(a, lk);
      do_unlock(a, lk);
    }
  }
  if (record) T.end(); else T.discard();
  content = keep;
}

static void all_points(const Scenario& sc, Rng& g, int sample2) {
  execute(sc, 0, 0, g, false);
  if (!result[1]) { fprintf(stderr, "dry run did not finish\n"); T.begin(J().i("asz", 0).str("mode", "shared")); T.ev(J().str("o", "unfinished").i("p", 0).i("h", 0)); T.end(); return; }
  if (getenv("VERBOSE")) fprintf(stderr, "points %u\n", result[0]);
  std::vector<long> pts(result + 2, result + 2 + result[0]);
  for (long k : pts) execute(sc, k, 0, g, true);
  for (int j = 0; j < sample2 && !pts.empty(); j++) execute(sc, pts[g.below(pts.size())], pts[g.below(pts.size())], g, true);
}

static std::vector<Scenario> scenarios() {
  std::vector<Scenario> v;
  auto A = [](long n, int d) { return Op{"a", n, d}; };
  Op c{"c", 0, 0}, u{"u", 0, 0}, C{"C", 0, 0}, h{"h", 0, 0}, nx{"n", 0, 0};
  // append without eviction
  v.push_back({400, {{16, 0}}, false, {A(24, 90), c, u}});
  // an arena that is empty, two writes in one critical section
  v.push_back({400, {}, false, {A(24, 90), c, A(8, 91), c, u}});
  // wrap around, evicting one, evicting several
  v.push_back({144 + 160, {{24, 0}, {24, 0}}, false, {A(24, 90), c, u}});
  v.push_back({144 + 240, {{0, 0}, {8, 0}, {0, 0}, {16, 0}}, false, {A(120, 90), c, u}});
  v.push_back({144 + 200, {{24, 0}, {24, 0}}, false, {A(150, 90), c, u, A(60, 91), c, u}});
  // everything is evicted; exact fit
  v.push_back({144 + 160, {{24, 0}, {24, 0}}, false, {A(120, 90), c, u}});
  // clear, then write; write after an earlier clear
  v.push_back({400, {{16, 0}, {40, 0}}, false, {C, A(24, 90), c, u}});
  v.push_back({400, {{16, 0}, {40, 0}}, true, {A(24, 90), c, u}});
  // abandoned allocation, then another critical section
  v.push_back({400, {{16, 0}}, false, {A(56, 90), u, A(24, 91), c, u}});
  // resize down to what is used, up again is not possible within this buffer
  v.push_back({600, {{16, 0}, {40, 0}}, false, {Op{"r", 300, 0}, A(24, 90), c, u}});
  // reading
  v.push_back({400, {{16, 0}, {40, 0}}, false, {h, nx, u}});
  // first use of an arena
  { Scenario s{400, {}, false, {Op{"I", 0, 0}}}; s.fresh = true; v.push_back(s); }
  // exclusive owner
  { Scenario s{400, {{16, 0}}, false, {A(24, 90), c, u}}; s.exclusive = true; v.push_back(s); }
  { Scenario s{144 + 160, {{24, 0}, {24, 0}}, false, {A(24, 90), c, A(70, 91), c, u}}; s.exclusive = true; v.push_back(s); }
  // the packet writer
  v.push_back({700, {{16, 0}}, false, {Op{"W", 0, 0}}});
  v.push_back({420, {{60, 0}, {60, 0}}, false, {Op{"W", 0, 0}, Op{"W", 1, 0}}});
  return v;
}

static void prepare_packets() {
  static a0_packet_header_t hdrs[1];
  hdrs[0] = {"k", "v"};
  for (int i = 0; i < 2; i++) {
    a0_packet_init(&prepared[i]);
    for (int k = 0; k < 36; k++) prepared[i].id[k] = 'a' + (i * 7 + k) % 20;
    prepared[i].id[36] = 0;
    static char pay[2][30] = {"payload zero", "another one"};
    prepared[i].payload = {(uint8_t*)pay[i], strlen(pay[i])};
    if (i) prepared[i].headers_block = {hdrs, 1, nullptr};
    a0_flat_packet_t fp;
    a0_alloc_t al = heap();
    a0_packet_serialize(prepared[i], al, &fp);
    content[1000 + i] = std::string((char*)fp.buf.data, fp.buf.size);
  }
}

static Scenario random_scenario(Rng& g) {
  Scenario s;
  s.asz = 200 + g.below(400);
  int np = g.below(6);
  for (int k = 0; k < np; k++) s.pre.push_back({(long)g.below(90), 0});
  s.preclear = g.chance(15);
  int sections = 1 + g.below(3), d = 90;
  for (int q = 0; q < sections; q++) {
    int m = 1 + g.below(3);
    for (int k = 0; k < m; k++) {
      if (g.chance(15)) { s.ops.push_back({"C", 0, 0}); continue; }
      s.ops.push_back({"a", (long)g.below((s.asz - 144)), d++});
      if (k + 1 < m || g.chance(85)) s.ops.push_back({"c", 0, 0});
    }
    s.ops.push_back({"u", 0, 0});
  }
  return s;
}

int main(int argc, char** argv) {
  if (argc < 5) return 99;
  std::string what = argv[1];
  int n = atoi(argv[2]);
  uint64_t seed = atoll(argv[3]);
  std::string out = argv[4];
  int W = 8;
  prepare_packets();
  std::vector<Scenario> sc = scenarios();
  if (what == "list") return 0;
  std::vector<pid_t> pids;
  for (int w = 0; w < W; w++) {
    pid_t p = fork();
    if (p == 0) {
      shm = (uint8_t*)mmap(nullptr, BUFSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      result = (uint32_t*)mmap(nullptr, (MAXPTS + 2) * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      T.init(out.c_str());
      alarm(400);
      Rng g(seed * 77 + w);
      for (size_t k = 0; k < sc.size(); k++) if ((int)(k % W) == w) all_points(sc[k], g, n);
      for (int k = 0; k < n; k++) { Rng gs(seed * 7919 + k * W + w); Scenario s = random_scenario(gs); all_points(s, gs, 2); }
      T.flush();
      _exit(0);
    }
    pids.push_back(p);
  }
  int bad = 0;
  for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1; }
  return bad;
}
