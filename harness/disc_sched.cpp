// Discovery under every interleaving of its system calls with changes of the directory tree (C18).
// usage: disc_sched <root> <set> <switches> <max_runs> <random scenarios> <seed> <out>
// A real process runs the discovery; its thread is stopped at every system call that has to do with files (ptrace). In
// between, this process changes the tree, step by step as the scenario says. The process is an unprivileged user.
// Sets: all, close (the discovery is closed in the middle), flood (more changes at once than the kernel keeps).
#include <a0.h>
#include <a0/discovery.hpp>
#include <fcntl.h>
#include <grp.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <time.h>
#include <algorithm>
#include <map>
#include <set>
#include "vtrace.hpp"

static VTrace& T = VTrace::get();
static uid_t user = 54400;
static std::string base;      // the scratch tree

struct Act { char k; std::string p; };   // d directory, f file, h file by a link, p fifo, l link, D link to nothing, - remove all of it, N noise, C close
struct Scen { std::string pat; std::vector<Act> pre, acts; bool rel = false, cpp = false; };

struct Slot { int n; int closed; char s[200][2000]; };
static Slot* slot;
static int cmd[2];

static void on_path(void*, const char* path) {
  int n = slot->n;
  if (n < 200) snprintf(slot->s[n], sizeof slot->s[n], "%s", path);
  slot->n = n + 1;
}
[[noreturn]] static void child(const Scen& sc) {
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) signal(s, SIG_DFL);
  if (setgroups(0, nullptr) || setgid(user) || setuid(user)) _exit(99);
  prctl(PR_SET_DUMPABLE, 1);
  setenv("A0_ROOT", sc.rel ? base.c_str() : "/nonexistent", 1);
  std::string pat = sc.rel ? sc.pat.substr(1) : base + sc.pat;
  ptrace(PTRACE_TRACEME, 0, 0, 0);
  raise(SIGSTOP);
  char b;
  if (sc.cpp) {
    {
      a0::Discovery d(pat, [](const std::string& s) { on_path(nullptr, s.c_str()); });
      if (read(cmd[0], &b, 1) != 1) _exit(98);
    }
    slot->closed = 1;
  } else {
    a0_discovery_t d;
    if (a0_discovery_init(&d, pat.c_str(), {nullptr, on_path})) _exit(97);
    if (read(cmd[0], &b, 1) != 1) _exit(98);
    slot->closed = a0_discovery_close(&d) ? 2 : 1;
  }
  _exit(0);
}

// ---- the tree

static std::vector<std::string> paths;                  // of the scenario, numbered from 1
static std::map<std::string, char> there;
static int num(const std::string& p) {
  for (size_t k = 0; k < paths.size(); k++) if (paths[k] == p) return (int)k + 1;
  return -1;
}
static std::string up(const std::string& p) { return p.substr(0, p.rfind('/')); }
static void put(const std::string& p, char k) {
  if (there.count(p)) _exit(99);
  std::string f = base + p, tmp = up(base) + "/tmp";
  int r = 0, fd;
  // recorded first: the discovery may be running
  T.ev(J().str("o", "put").i("k", num(p)).str("t", k == 'd' ? "d" : k == 'f' || k == 'h' ? "f" : "o"));
  there[p] = k;
  if (k == 'd') r = mkdir(f.c_str(), 0755);
  else if (k == 'f') { r = fd = open(f.c_str(), O_CREAT | O_EXCL | O_RDWR, 0644); close(fd); }
  else if (k == 'h') { fd = open(tmp.c_str(), O_CREAT | O_RDWR, 0644); close(fd); r = link(tmp.c_str(), f.c_str()); unlink(tmp.c_str()); }
  else if (k == 'p') r = mkfifo(f.c_str(), 0644);
  else if (k == 'l') r = symlink((up(base) + "/aside").c_str(), f.c_str());    // an empty directory
  else if (k == 'D') r = symlink("nothing", f.c_str());
  if (r < 0) _exit(99);
}
static void take(const std::string& p) {
  std::vector<std::string> kids;
  for (auto& x : there) if (x.first == p || x.first.compare(0, p.size() + 1, p + "/") == 0) kids.push_back(x.first);
  std::reverse(kids.begin(), kids.end());
  for (auto& x : kids) {
    if (there[x] == 'd') rmdir((base + x).c_str());
    else unlink((base + x).c_str());
    T.ev(J().str("o", "take").i("k", num(x)));
    there.erase(x);
  }
}
static void noise(int n) {
  for (int k = 0; k < n; k++) {
    std::string f = base + "/n/" + std::to_string(k);
    int fd = open(f.c_str(), O_CREAT | O_RDWR, 0644);
    if (fd < 0) _exit(99);
    close(fd);
  }
}
static void unnoise(int n) {
  for (int k = 0; k < n; k++) unlink((base + "/n/" + std::to_string(k)).c_str());
}

// ---- the run

static bool worth(long nr) {
  static const std::set<long> s = {SYS_read, SYS_open, SYS_openat, SYS_stat, SYS_lstat, SYS_newfstatat, SYS_statx, SYS_getdents, SYS_getdents64,
                                   SYS_inotify_add_watch, SYS_inotify_rm_watch, SYS_epoll_wait, SYS_epoll_pwait, SYS_poll, SYS_ppoll, SYS_access};
  return s.count(nr) > 0;
}
static char state_of(pid_t pid, pid_t tid) {
  char n[64], b[512];
  snprintf(n, sizeof n, "/proc/%d/task/%d/stat", pid, tid);
  int fd = open(n, O_RDONLY);
  if (fd < 0) return 'X';
  ssize_t r = read(fd, b, sizeof b - 1);
  close(fd);
  if (r <= 0) return 'X';
  b[r] = 0;
  char* e = strrchr(b, ')');
  return e ? e[2] : 'X';
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Point { int alts, chosen; };
enum { STOPPED, IDLE, GONE, HUNG };

static std::vector<Point> execute(const Scen& sc, const std::vector<int>& prefix, int budget, int flood) {
  std::vector<Point> pts;
  paths.clear();
  there.clear();
  for (auto* l : {&sc.pre, &sc.acts}) for (auto& a : *l) if (strchr("dfhplD", a.k) && num(a.p) < 0) paths.push_back(a.p);
  std::string names = "[";
  auto codes = [](const std::string& s) { std::string o = "["; for (size_t k = 0; k < s.size(); k++) o += (k ? "," : "") + std::to_string((unsigned char)s[k]); return o + "]"; };
  for (size_t k = 0; k < paths.size(); k++) names += (k ? "," : "") + codes(paths[k]);
  T.begin(J().str("pattern", sc.pat).raw("pat", codes(sc.pat)).raw("paths", names + "]"));
  if (flood && mkdir((base + "/n").c_str(), 0755)) _exit(99);
  auto act = [&](const Act& a) {
    if (a.k == '-') take(a.p);
    else if (a.k == 'N') noise(flood);
    else put(a.p, a.k);
  };
  for (auto& a : sc.pre) act(a);
  memset(slot, 0, sizeof *slot);
  if (pipe(cmd)) _exit(99);
  T.flush();
  pid_t pid = fork();
  if (pid < 0) _exit(99);
  if (pid == 0) { close(cmd[1]); child(sc); }
  close(cmd[0]);
  int st;
  pid_t tid = 0;
  bool dead = false, bad = false;
  T.ev(J().str("o", "start"));
  // to the start of the thread
  if (waitpid(pid, &st, 0) != pid) _exit(99);
  if (!WIFSTOPPED(st)) _exit(99);
  if (ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACECLONE | PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL)) _exit(99);
  ptrace(PTRACE_CONT, pid, 0, 0);
  while (!tid && !dead) {
    if (waitpid(pid, &st, 0) != pid) _exit(99);
    if (!WIFSTOPPED(st)) { dead = true; break; }
    if (st >> 8 == (SIGTRAP | (PTRACE_EVENT_CLONE << 8))) {
      unsigned long m;
      ptrace(PTRACE_GETEVENTMSG, pid, 0, &m);
      tid = (pid_t)m;
      if (waitpid(tid, &st, __WALL) != tid) _exit(99);
      ptrace(PTRACE_CONT, pid, 0, 0);
    } else ptrace(PTRACE_CONT, pid, 0, WSTOPSIG(st) == SIGSTOP || WSTOPSIG(st) == SIGTRAP ? 0 : WSTOPSIG(st));
  }
  if (dead) { if (WIFEXITED(st) && WEXITSTATUS(st) == 99) _exit(99); bad = true; }
  int seen = 0;
  long calls = 0;
  bool tgone = false, closing = false;
  auto collect = [&] {
    for (; seen < slot->n && seen < 200; seen++) {
      std::string s = slot->s[seen];
      int k = s.compare(0, base.size(), base) == 0 ? num(s.substr(base.size())) : -1;
      T.ev(J().str("o", "found").i("k", k).str("path", k < 0 ? s : s.substr(base.size())));
    }
  };
  // waits for the thread, which has been let go, to stop or to have nothing to do
  auto settle = [&]() -> int {
    int quiet = 0;
    double t0 = now();
    for (long n = 0;; n++) {
      pid_t w = waitpid(tid, &st, __WALL | WNOHANG);
      if (w == tid) {
        if (!WIFSTOPPED(st)) return GONE;
        return STOPPED;
      }
      if (w < 0) return GONE;
      if (n < 40) continue;
      // both asleep: the starter of the thread may still have something to do with it
      quiet = state_of(pid, pid) == 'S' && state_of(pid, tid) == 'S' ? quiet + 1 : 0;
      if (quiet >= 3) return IDLE;
      if (n % 16 == 0) {
        sched_yield();
        if (waitpid(pid, &st, WNOHANG) == pid) {
          if (!WIFSTOPPED(st)) { dead = true; return GONE; }
          ptrace(PTRACE_CONT, pid, 0, WSTOPSIG(st));
        }
        if (now() - t0 > 10) return HUNG;
      }
    }
  };
  // lets the thread go on to the next call that matters
  bool stopped = true;
  auto advance = [&]() -> int {
    while (true) {
      if (stopped && ptrace(PTRACE_SYSCALL, tid, 0, 0)) return GONE;
      stopped = false;
      int r = settle();
      collect();
      if (r != STOPPED) return r;
      stopped = true;
      int sig = WSTOPSIG(st);
      if (sig != (SIGTRAP | 0x80)) {
        if (sig == SIGSTOP || sig == SIGTRAP) continue;
        bad = true;
        return GONE;
      }
      struct __ptrace_syscall_info i;
      if (ptrace(PTRACE_GET_SYSCALL_INFO, tid, sizeof i, &i) <= 0) _exit(99);
      if (i.op != PTRACE_SYSCALL_INFO_ENTRY) continue;
      if (++calls > 30000) return HUNG;
      if (worth((long)i.entry.nr)) return STOPPED;
    }
  };
  size_t next = 0;
  bool burst = false;     // the last thing that happened was a change
  int s = bad ? GONE : STOPPED;
  while (!bad) {
    if (s == GONE || s == HUNG) break;
    bool more = next < sc.acts.size();
    if (s == IDLE && !more) {
      usleep(1000);
      s = settle();
      collect();
      if (s != STOPPED) break;
      stopped = true;
    }
    int ch = 0;
    bool can_go = s == STOPPED, can_act = more && (!can_go || burst || budget > 0);
    if (can_go && can_act) {
      ch = pts.size() < prefix.size() ? prefix[pts.size()] : 0;
      pts.push_back({2, ch});
    } else ch = can_go ? 0 : 1;
    if (ch == 0) {
      burst = false;
      s = advance();
      continue;
    }
    if (can_go && !burst) budget--;
    burst = true;
    const Act& a = sc.acts[next++];
    if (a.k == 'C') {
      T.ev(J().str("o", "close"));
      closing = true;
      char b = 0;
      if (write(cmd[1], &b, 1) != 1) _exit(99);
      // let the closer get going
      double t0 = now();
      while (state_of(pid, pid) == 'R' && now() - t0 < 1) {}
    } else act(a);
    if (s == IDLE) {
      // it may have been woken; it is then looked at before the next decision
      int r = settle();
      collect();
      if (r == STOPPED) { stopped = true; s = STOPPED; }
      else s = r;
    }
  }
  // a thread that has ended of itself will not announce the rest either
  if (!bad && s == GONE && !dead && !closing)
    while (next < sc.acts.size()) { const Act& a = sc.acts[next++]; if (a.k != 'C') act(a); }
  if (!bad && !dead && (s == IDLE || s == GONE) && !closing) T.ev(J().str("o", "quiet"));
  if (!bad && s == HUNG) { T.ev(J().str("o", "livelock")); bad = true; }
  else if (bad) T.ev(J().str("o", "signal").i("st", st));
  if (!bad) {
    if (!closing) {
      T.ev(J().str("o", "close"));
      char b = 0;
      if (write(cmd[1], &b, 1) != 1) _exit(99);
    }
    // to the end, unsupervised
    tgone = s == GONE;
    if (stopped && !tgone) ptrace(PTRACE_CONT, tid, 0, 0);
    double t0 = now();
    bool over = dead;
    if (dead && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { T.ev(J().str("o", "signal").i("st", st)); bad = true; }
    while (!over) {
      if (!tgone) {
        pid_t w = waitpid(tid, &st, __WALL | WNOHANG);
        if (w == tid && WIFSTOPPED(st)) {
          int sig = WSTOPSIG(st);
          ptrace(PTRACE_CONT, tid, 0, sig == SIGSTOP || sig == SIGTRAP || sig == (SIGTRAP | 0x80) ? 0 : sig);
        } else if (w == tid || w < 0) tgone = true;
      }
      pid_t w = waitpid(pid, &st, WNOHANG);
      if (w == pid && WIFSTOPPED(st)) { int sig = WSTOPSIG(st); ptrace(PTRACE_CONT, pid, 0, sig == SIGSTOP || sig == SIGTRAP ? 0 : sig); }
      else if (w == pid) {
        over = true;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { T.ev(J().str("o", "signal").i("st", st)); bad = true; }
      }
      if (now() - t0 > 10) { T.ev(J().str("o", "hang")); bad = true; break; }
      if (!over) sched_yield();
    }
    collect();
    if (!bad) T.ev(J().str("o", slot->closed == 1 ? "closed" : "badclose"));
  }
  if (!dead) { kill(pid, SIGKILL); while (waitpid(-1, &st, __WALL) > 0) {} }
  close(cmd[1]);
  T.end();
  // clean up without recording
  std::vector<std::string> left;
  for (auto& x : there) left.push_back(x.first);
  std::reverse(left.begin(), left.end());
  for (auto& x : left) if (there[x] == 'd') rmdir((base + x).c_str()); else unlink((base + x).c_str());
  if (flood) { unnoise(flood); rmdir((base + "/n").c_str()); }
  return pts;
}

// ---- scenarios

static std::string named(std::string p) {                // "@" stands for a name of nearly the greatest length
  for (size_t k; (k = p.find('@')) != std::string::npos;) p.replace(k, 1, std::string(253, 'w'));
  return p;
}
static std::vector<Act> acts(const std::string& s) {     // "d/a f/a/x -/a"
  std::vector<Act> v;
  for (size_t i = 0; i < s.size();) {
    size_t e = s.find(' ', i);
    if (e == std::string::npos) e = s.size();
    v.push_back({s[i], named(s.substr(i + 1, e - i - 1))});
    i = e + 1;
  }
  return v;
}
static Scen random_scen(Rng& r, bool close) {
  static const char* pats[] = {"/*.z", "/**/*.z", "/a/*.z", "/a/b/*.z", "/*/x.z", "/a/**/b/*.z", "/a/x.z", "/**/x.z", "/a/*/b/*.z", "/*/**/y", "/a/b/c/*"};
  Scen s;
  s.pat = pats[r.below(sizeof pats / sizeof *pats)];
  s.rel = r.chance(30);
  s.cpp = r.chance(20);
  std::map<std::string, char> t;
  std::vector<std::string> dirs;
  auto step = [&](std::vector<Act>* out) {
    dirs = {""};
    for (auto& x : t) if (x.second == 'd') dirs.push_back(x.first);
    if (!t.empty() && r.chance(22)) {
      auto it = t.begin();
      std::advance(it, (long)r.below(t.size()));
      std::string p = it->first;
      out->push_back({'-', p});
      for (auto i = t.begin(); i != t.end();) if (i->first == p || i->first.compare(0, p.size() + 1, p + "/") == 0) i = t.erase(i); else ++i;
      return;
    }
    std::string d = dirs[r.below(dirs.size())];
    bool dir = r.chance(45) && std::count(d.begin(), d.end(), '/') < 3;
    std::string p = d + (dir ? (r.chance(65) ? "/a" : "/b") : r.chance(65) ? "/x.z" : "/y");
    if (dir && std::count(d.begin(), d.end(), '/') == 2 && r.chance(40)) p = d + "/c";
    if (r.chance(8)) p = d + named(dir ? "/@" : "/@.z");
    if (t.count(p)) return;
    int k = (int)r.below(100);
    char kind = dir ? (k < 92 ? 'd' : k < 95 ? 'f' : k < 97 ? 'D' : 'l') : k < 65 ? 'f' : k < 85 ? 'h' : k < 90 ? 'p' : k < 95 ? 'l' : 'd';
    t[p] = kind;
    out->push_back({kind, p});
  };
  int n = (int)r.below(6);
  for (int k = 0; k < n; k++) step(&s.pre);
  n = 2 + (int)r.below(6);
  for (int k = 0; k < n; k++) step(&s.acts);
  if (close) s.acts.insert(s.acts.begin() + (long)r.below(s.acts.size() + 1), Act{'C', ""});
  return s;
}

int main(int argc, char** argv) {
  if (argc < 8) return 99;
  std::string root = argv[1], set = argv[2];
  int budget = atoi(argv[3]);
  long max_runs = atol(argv[4]);
  int nrandom = atoi(argv[5]);
  uint64_t seed = atoll(argv[6]);
  T.init(argv[7]);
  umask(0);
  std::vector<Scen> scen;
  int flood = 0;
  if (set == "flood") {
    FILE* f = fopen("/proc/sys/fs/inotify/max_queued_events", "r");
    if (f && fscanf(f, "%d", &flood) == 1) flood += 50;
    if (f) fclose(f);
    if (flood > 60000) flood = 60000;
    if (!flood) return 99;
    for (const char* p : {"/**/*.z", "/a/*.z"}) {
      scen.push_back({p, acts("d/a"), acts("N f/a/x.z d/b f/b/x.z")});
      scen.push_back({p, {}, acts("N d/a f/a/x.z")});
      scen.push_back({p, acts("d/a f/a/x.z"), acts("N -/a d/a f/a/y.z")});
    }
    budget = 0;
    max_runs = 1;
  } else {
    const char* c = set == "close" ? " C" : "";
    struct { const char* pat; const char* pre; const char* acts; } fixed[] = {
        {"/*.z", "", "f/x.z h/y.z"}, {"/*.z", "f/x.z", "-/x.z f/x.z"}, {"/**/*.z", "", "d/a f/a/x.z"}, {"/**/*.z", "d/a f/a/x.z", "f/x.z f/a/y.z"},
        {"/**/*.z", "", "d/a d/a/b d/a/b/c f/a/b/c/x.z"}, {"/**/*.z", "d/a d/a/b", "-/a/b d/a/b f/a/b/x.z"}, {"/a/*.z", "", "d/a f/a/x.z"},
        {"/a/*.z", "d/a", "-/a d/a f/a/x.z"}, {"/a/*.z", "d/a f/a/x.z", "-/a f/a -/a d/a f/a/y.z"}, {"/a/b/*.z", "d/a d/a/b", "-/a d/a d/a/b f/a/b/x.z"},
        {"/a/b/*.z", "", "d/a d/a/b f/a/b/x.z"}, {"/a/b/*.z", "d/a", "-/a d/a d/a/b f/a/b/x.z"}, {"/*/x.z", "d/a d/b", "f/a/x.z -/b f/b/y.z"},
        {"/**/x.z", "d/a", "d/x.z f/x.z/x.z -/x.z f/x.z"}, {"/a/x.z", "", "d/a h/a/x.z"}, {"/a/**/b/*.z", "d/a", "d/a/b d/a/b/b f/a/b/b/x.z f/a/b/x.z"},
        {"/a/b/*.z", "D/a", "-/a d/a d/a/b f/a/b/x.z"}, {"/a/b/*.z", "d/a D/a/b", "-/a/b d/a/b f/a/b/x.z"}, {"/a/*.z", "d/a", "-/a D/a -/a d/a f/a/x.z"},
        {"/*.z", "", "f/@.z f/x.z"}, {"/**/*.z", "", "d/@ f/@/@.z f/x.z"}};
    for (auto& f : fixed) {
      if (!strcmp(f.pat, "/*/x.z")) { scen.push_back({f.pat, acts(f.pre), acts("f/a/x.z -/b d/b f/b/x.z")}); continue; }
      std::string a = f.acts;
      scen.push_back({f.pat, acts(f.pre), acts(a + c)});
    }
    if (*c) for (auto& s : scen) { Act a = s.acts.back(); s.acts.pop_back(); s.acts.insert(s.acts.begin() + (long)(seed++ % (s.acts.size() + 1)), a); if (a.k != 'C') { s.acts.insert(s.acts.begin(), Act{'C', ""}); } }
    for (int k = 0; k < nrandom; k++) { Rng r(seed * 7919 + (uint64_t)k); scen.push_back(random_scen(r, *c)); }
  }
  const int W = 8;
  std::vector<pid_t> ws;
  for (int w = 0; w < W; w++) {
    pid_t c = fork();
    if (c == 0) {
      slot = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      std::string top = root + "/" + std::to_string(w);
      base = top + "/w";
      user += (uid_t)w;
      if (mkdir(top.c_str(), 0755) || mkdir(base.c_str(), 0755) || mkdir((top + "/aside").c_str(), 0755)) _exit(99);
      for (size_t i = w; i < scen.size(); i += W) {
        Rng r(seed * 7919 + i);
        std::vector<std::vector<int>> todo = {flood ? std::vector<int>(9, 1) : std::vector<int>()};
        long runs = 0;
        while (!todo.empty() && runs < max_runs) {
          size_t pick = (size_t)r.below(todo.size());
          std::vector<int> pre = todo[pick];
          todo[pick] = todo.back();
          todo.pop_back();
          std::vector<Point> pts = execute(scen[i], pre, budget, flood);
          runs++;
          std::vector<int> cs;
          for (size_t k = 0; k < pts.size(); k++) {
            if (k >= pre.size()) { std::vector<int> x = cs; x.push_back(1); todo.push_back(x); }
            cs.push_back(pts[k].chosen);
          }
        }
        fprintf(stderr, "%zu %s runs=%ld left=%zu\n", i, scen[i].pat.c_str(), runs, todo.size());
      }
      T.flush();
      _exit(0);
    }
    ws.push_back(c);
  }
  int bad = 0;
  for (pid_t c : ws) { int st; waitpid(c, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = WIFEXITED(st) && WEXITSTATUS(st) == 99 ? 99 : 1; }
  _exit(bad);
}
