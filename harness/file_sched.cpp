// Opening files under every interleaving of system calls, with failing system calls and deaths (C16).
// usage: file_sched <root> <preemptions> <faults> <kills> <max_runs> <seed> <out>
// Real processes run the library on a real directory, one system call at a time (ptrace). After every system call the
// name is looked at from outside. Processes run as an unprivileged user and touch nothing but the directory.
// A scenario has what is there before, and one script per process: o r e open shared, readonly, exclusive; O as o in C++;
// x close; X close twice; d remove; t read the log in it (as opened) and scribble over the mapping if it is readonly.
#include <a0.h>
#include <a0/file.hpp>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/reg.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <algorithm>
#include <memory>
#include <set>
#include "a0util.hpp"

static const long MAGIC = 0xA0F16;
static const uid_t NOBODY = 65534;
static VTrace& T = VTrace::get();
struct Scen { char pre; std::vector<std::string> th; bool mixed; };

struct Slot {
  char op;
  char r[32];
  uint64_t ino, fd_ino, stat_ino;
  long size, stat_size;
  bool shared, writable;
  char content[16];
  int fds, maps;
  long frames;
};
static Slot* slots;
static std::string root, dir, path, target;
static long SZ(int p) { return 4096 + 1000 * p; }
static mode_t MODE(int p) { static const mode_t m[] = {0600, 0640, 0666, 0604}; return m[p % 4]; }

static std::string digest(const uint8_t* p, size_t n) {
  bool zero = true;
  uint32_t h = 2166136261u;
  for (size_t i = 0; i < n; i++) { zero = zero && !p[i]; h = (h ^ p[i]) * 16777619u; }
  if (zero) return "zero";
  char b[16];
  snprintf(b, sizeof b, "%08x", h);
  return b;
}

// --- in the child
static void mark(int what) { syscall(SYS_getppid, MAGIC, what); }
static int count_fds() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (d && readdir(d)) n++;
  if (d) closedir(d);
  return n;
}
// mappings of files of the scratch directory; fills the one holding addr
static int count_maps(const void* addr, Slot* s) {
  static char line[8192];
  int n = 0;
  FILE* f = fopen("/proc/self/maps", "r");
  if (!f) return -1;
  while (fgets(line, sizeof line, f)) {
    unsigned long a, b, off, ino;
    char perm[8], dev[32];
    if (sscanf(line, "%lx-%lx %7s %lx %31s %lu", &a, &b, perm, &off, dev, &ino) != 6) continue;
    if (strstr(line, root.c_str())) n++;
    if (addr && (unsigned long)addr >= a && (unsigned long)addr < b) {
      s->ino = ino;
      s->shared = perm[3] == 's';
      s->writable = perm[1] == 'w';
    }
  }
  fclose(f);
  return n;
}
static void child(int p, const std::string& script, bool mixed) {
  Slot* s = &slots[p];
  a0_file_t f;
  memset(&f, 0, sizeof f);
  std::shared_ptr<a0::File> cpp;
  bool open = false, cx = false;
  int base = count_fds();
  a0_time_mono_t warm;
  a0_time_mono_now(&warm);
  for (char k : script) {
    s->op = k;
    s->frames = -1;
    s->ino = s->fd_ino = s->stat_ino = 0;
    mark(1);
    std::string r = "ok";
    bool opening = strchr("oreO", k) != nullptr;
    if (opening) {
      a0_file_options_t o = A0_FILE_OPTIONS_DEFAULT;
      o.create_options.size = SZ(mixed ? p : 0);
      o.create_options.mode = MODE(mixed ? p : 0);
      o.open_options.arena_mode = k == 'r' ? A0_ARENA_MODE_READONLY : k == 'e' ? A0_ARENA_MODE_EXCLUSIVE : A0_ARENA_MODE_SHARED;
      if (k == 'O') {
        cx = true;
        a0::File::Options po = a0::File::Options::DEFAULT;
        po.create_options.size = o.create_options.size;
        po.create_options.mode = o.create_options.mode;
        r = guarded([&] { cpp = std::make_shared<a0::File>(path, po); });
        if (r == "ok") f = *cpp->c;
      } else {
        r = errname(a0_file_open(path.c_str(), &o, &f));
      }
      open = r == "ok";
    } else if (k == 'x' || k == 'X') {
      if (cx) cpp.reset(); else r = errname(a0_file_close(&f));
      open = false;
    } else if (k == 'd') {
      r = errname(a0_file_remove(path.c_str()));
    } else if (k == 't' && open) {
      a0_transport_t t;
      a0_transport_locked_t l;
      s->frames = 0;
      if (!a0_transport_init(&t, f.arena) && !a0_transport_lock(&t, &l)) {
        bool e = true;
        a0_transport_empty(l, &e);
        if (!e) {
          a0_transport_jump_head(l);
          for (bool more = true; more;) {
            a0_transport_frame_t* fr;
            a0_transport_frame(l, &fr);
            if (fr->hdr.data_size == 40 && pat_is(fr->data, 40, (int)fr->hdr.seq)) s->frames++; else s->frames = -1000;
            a0_transport_has_next(l, &more);
            if (more) a0_transport_step_next(l);
          }
        }
        a0_transport_unlock(l);
      }
      memset(f.arena.buf.data, 0x5a, f.arena.buf.size);
    }
    snprintf(s->r, sizeof s->r, "%s", r.c_str());
    mark(2);
    s->fds = count_fds() - base;
    s->maps = count_maps(open ? f.arena.buf.data : nullptr, s);
    if (opening && open) {
      struct stat st;
      s->size = (long)f.arena.buf.size;
      s->stat_size = f.stat.st_size;
      s->stat_ino = f.stat.st_ino;
      if (!fstat(f.fd, &st)) s->fd_ino = st.st_ino;
      snprintf(s->content, sizeof s->content, "%s", digest(f.arena.buf.data, f.arena.buf.size).c_str());
    }
    mark(3);
    if (opening && !open) {     // what a failed open gives can only be refused
      if (!cx) {
        snprintf(s->r, sizeof s->r, "%s", errname(a0_file_close(&f)).c_str());
        mark(4);
      }
      break;
    }
    if (k == 'X' && !cx) {
      snprintf(s->r, sizeof s->r, "%s", errname(a0_file_close(&f)).c_str());
      mark(4);
    }
  }
  _exit(0);
}

// --- in the parent
struct Proc {
  pid_t pid = 0;
  bool alive = false;
  int base_calls = 0;
  bool inside = false;       // within a call of the library
  struct user_regs_struct regs;
};
static bool relevant(const struct user_regs_struct& r) {
  switch (r.orig_rax) {
    case SYS_brk: case SYS_mprotect: case SYS_getrandom: case SYS_futex: case SYS_getpid: case SYS_gettid: case SYS_clock_gettime:
    case SYS_rt_sigprocmask: case SYS_rt_sigaction: case SYS_madvise: case SYS_sched_yield: case SYS_exit_group: case SYS_gettimeofday:
    case SYS_munmap: case SYS_getppid: case SYS_uname:
      return false;
    case SYS_mmap: return (int)r.r8 >= 0;
  }
  return true;
}
static int fault_for(const struct user_regs_struct& r) {
  switch (r.orig_rax) {
    case SYS_open: case SYS_openat: return (r.orig_rax == SYS_open ? r.rsi : r.rdx) & O_CREAT ? ENOSPC : EMFILE;
    case SYS_mmap: return ENOMEM;
    case SYS_fchmod: case SYS_chmod: case SYS_link: case SYS_linkat: case SYS_rename: case SYS_fchmodat: return EPERM;
    case SYS_stat: case SYS_lstat: case SYS_fstat: case SYS_newfstatat: case SYS_statx: return EIO;
    case SYS_close: return 0;
    default: return ENOSPC;
  }
}
static bool is_unlink(long nr) { return nr == SYS_unlink || nr == SYS_unlinkat; }

struct Seen { uint64_t ino; long size; int mode; std::string content; bool operator==(const Seen& o) const { return ino == o.ino && size == o.size && mode == o.mode && content == o.content; } };
static Seen look() {
  struct stat st;
  Seen n = {0, 0, 0, ""};
  int fd = open(path.c_str(), O_RDONLY | O_NONBLOCK);
  if (fd < 0) return n;
  if (!fstat(fd, &st) && S_ISREG(st.st_mode)) {
    std::string b(st.st_size, 0);
    ssize_t got = pread(fd, &b[0], b.size(), 0);
    n = {st.st_ino, st.st_size, (int)(st.st_mode & 07777), got == (ssize_t)b.size() ? digest((uint8_t*)b.data(), b.size()) : "?"};
  }
  close(fd);
  return n;
}
static std::vector<uint64_t> inos;
static std::string ino_name(uint64_t i) {      // by order of appearance
  size_t n = std::find(inos.begin(), inos.end(), i) - inos.begin();
  if (n == inos.size()) inos.push_back(i);
  return "i" + std::to_string(n);
}
static int files_in(const std::string& d, std::set<std::string>* names) {
  int n = 0;
  DIR* dd = opendir(d.c_str());
  if (!dd) return 0;
  while (struct dirent* e = readdir(dd)) {
    std::string nm = e->d_name, full = d + "/" + nm;
    if (nm == "." || nm == "..") continue;
    struct stat st;
    if (lstat(full.c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) n += files_in(full, names);
    else { n++; names->insert(full); }
  }
  closedir(dd);
  return n;
}
static void clean(const std::string& d) {       // within the scratch directory only
  if (d.compare(0, root.size(), root) || d.size() <= root.size() + 1) _exit(99);
  DIR* dd = opendir(d.c_str());
  if (!dd) return;
  while (struct dirent* e = readdir(dd)) {
    std::string nm = e->d_name, full = d + "/" + nm;
    if (nm == "." || nm == "..") continue;
    struct stat st;
    if (lstat(full.c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) clean(full); else unlink(full.c_str());
  }
  closedir(dd);
  rmdir(d.c_str());
}
static void put(const std::string& p, const std::string& data, mode_t m) {
  int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
  if (fd < 0 || write(fd, data.data(), data.size()) != (ssize_t)data.size() || fchmod(fd, m) || fchown(fd, NOBODY, NOBODY)) _exit(99);
  close(fd);
}
static std::string a_log() {    // two committed frames and an unfinished third
  std::string b(8000, '\0');
  std::unique_ptr<uint64_t[]> mem(new uint64_t[1000]);
  memset(mem.get(), 0, 8000);
  a0_arena_t ar = {{(uint8_t*)mem.get(), 8000}, A0_ARENA_MODE_EXCLUSIVE};
  a0_transport_t t;
  a0_transport_locked_t l;
  a0_transport_init(&t, ar);
  a0_transport_lock(&t, &l);
  for (int d = 1; d <= 3; d++) {
    a0_transport_frame_t* fr;
    if (a0_transport_alloc(l, 40, &fr)) _exit(99);
    pat_fill(fr->data, 40, d);
    if (d < 3) a0_transport_commit(l);
  }
  a0_transport_unlock(l);
  memcpy(&b[0], mem.get(), 8000);
  return b;
}

enum Kind { RUN, FAULT, KILL };
struct Choice { Kind k; int p; int pre; };
struct Point { std::vector<Choice> alts; int chosen; };

// Runs one execution following the prefix; returns the decision points met.
static std::vector<Point> execute(const Scen& sc, const std::vector<int>& prefix, int budget[3]) {
  static long serial = 0;
  dir = root + "/d" + std::to_string(getpid()) + "_" + std::to_string(serial++);
  mkdir(dir.c_str(), 0777);
  chmod(dir.c_str(), 0777);
  if (chown(dir.c_str(), NOBODY, NOBODY)) _exit(99);
  path = dir + "/f.a0";
  std::string can = "yes", can_rw = "";
  switch (sc.pre) {
    case 'N': break;
    case 'D': path = dir + "/a/b/f.a0"; break;
    case 'S': path = dir + "//a///f.a0"; break;
    case 'F': put(path, std::string(5000, 'q'), 0640); break;
    case 'T': put(path, a_log(), 0644); break;
    case 'Z': put(path, "", 0644); can = "no"; break;
    case 'I': mkdir(path.c_str(), 0777); chmod(path.c_str(), 0777); can = "no"; break;
    case 'L': put(dir + "/g", std::string(300, 'l'), 0640); if (symlink((dir + "/g").c_str(), path.c_str())) _exit(99); break;
    case 'X': if (symlink((dir + "/none").c_str(), path.c_str())) _exit(99); can = "any"; break;
    case 'W': if (chown(dir.c_str(), 0, 0)) _exit(99); chmod(dir.c_str(), 0755); can = "no"; break;
    case 'R': put(path, std::string(5000, 'r'), 0444); can_rw = "no"; break;
    case 'P': put(dir + "/a", "x", 0666); path = dir + "/a/f.a0"; can = "no"; break;
  }
  inos.assign(1, 0);
  std::set<std::string> before;
  files_in(dir, &before);
  size_t n = sc.th.size();
  memset(slots, 0, sizeof(Slot) * 8);
  std::vector<Proc> ps(n);
  T.begin(J().str("pre", std::string(1, sc.pre)).strs("th", sc.th));
  std::vector<J> evs;
  Seen last = {0, 0, 0, ""};
  auto observe = [&](int p) {
    Seen s = look();
    if (s == last) return;
    T.ev(J().str("o", "see").i("p", p).str("ino", s.ino ? ino_name(s.ino) : "").i("size", s.size).i("mode", s.mode).str("c", s.content));
    last = s;
  };
  observe(-1);
  auto wait_stop = [&](Proc& q) {      // until the next stop; false if it is gone
    int st;
    if (waitpid(q.pid, &st, 0) != q.pid) return false;
    if (WIFEXITED(st) || WIFSIGNALED(st)) {
      q.alive = false;
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) T.ev(J().str("o", "signal").i("p", (int)(&q - &ps[0])));
      return false;
    }
    return true;
  };
  // lets it run to its next system call entry worth a decision
  auto advance = [&](int p) {
    Proc& q = ps[p];
    int steps = 0;
    while (q.alive) {
      if (ptrace(PTRACE_SYSCALL, q.pid, 0, 0)) _exit(99);       // to an entry
      int st;
      if (waitpid(q.pid, &st, 0) != q.pid) _exit(99);
      if (WIFEXITED(st) || WIFSIGNALED(st)) {
        q.alive = false;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) T.ev(J().str("o", "signal").i("p", p));
        return;
      }
      if (WSTOPSIG(st) != (SIGTRAP | 0x80)) {                     // a signal of its own: it crashes
        ptrace(PTRACE_CONT, q.pid, 0, WSTOPSIG(st));
        wait_stop(q);
        if (q.alive) { kill(q.pid, SIGKILL); waitpid(q.pid, &st, 0); q.alive = false; T.ev(J().str("o", "signal").i("p", p)); }
        return;
      }
      ptrace(PTRACE_GETREGS, q.pid, 0, &q.regs);
      if (q.regs.orig_rax == SYS_getppid && (long)q.regs.rdi == MAGIC) {
        Slot& s = slots[p];
        std::string r = s.r;
        bool opening = strchr("oreO", s.op) != nullptr;
        switch (q.regs.rsi) {
          case 1:
            q.inside = true;
            q.base_calls = 0;
            if (opening) {
              std::string c = can;
              if (s.op != 'r' && !can_rw.empty()) c = can_rw;
              T.ev(J().str("o", "open").i("p", p).i("size", SZ(sc.mixed ? p : 0)).i("mode", MODE(sc.mixed ? p : 0)).b("ro", s.op == 'r').str("can", c));
            } else {
              T.ev(J().str("o", s.op == 'd' ? "remove" : s.op == 't' ? "touch" : "close").i("p", p));
            }
            break;
          case 2: q.inside = false; break;
          case 3:
            if (opening)
              T.ev(J().str("o", "opened").i("p", p).str("r", r).str("ino", ino_name(s.ino)).b("same", r != "ok" || (s.ino == s.fd_ino && s.ino == s.stat_ino && s.size == s.stat_size))
                      .i("size", s.size).b("shared", s.shared).b("wr", s.writable).str("c", s.content).i("fds", s.fds).i("maps", s.maps));
            else if (s.op == 'd') T.ev(J().str("o", "removed").i("p", p).str("r", r));
            else if (s.op == 't') T.ev(J().str("o", "touched").i("p", p).i("frames", s.frames));
            else T.ev(J().str("o", "closed").i("p", p).str("r", r).i("fds", s.fds).i("maps", s.maps));
            break;
          case 4: T.ev(J().str("o", "again").i("p", p).str("r", r)); break;
        }
      } else if (q.inside && relevant(q.regs)) {
        if (++q.base_calls > 400) {
          T.ev(J().str("o", "spin").i("p", p));
          kill(q.pid, SIGKILL);
          waitpid(q.pid, &st, 0);
          q.alive = false;
        }
        return;                                                     // it is about to do something
      }
      if (++steps > 100000) _exit(99);
      if (q.regs.orig_rax == SYS_exit_group) continue;
      if (ptrace(PTRACE_SYSCALL, q.pid, 0, 0)) _exit(99);       // past the exit
      if (!wait_stop(q)) return;
    }
  };
  for (size_t p = 0; p < n; p++) {
    T.flush();
    ps[p].pid = fork();
    if (ps[p].pid < 0) _exit(99);
    if (ps[p].pid == 0) {
      for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) signal(s, SIG_DFL);
      if (setgroups(0, nullptr) || setgid(NOBODY) || setuid(NOBODY)) _exit(99);
      prctl(PR_SET_DUMPABLE, 1);
      umask(027);
      ptrace(PTRACE_TRACEME, 0, 0, 0);
      raise(SIGSTOP);
      child((int)p, sc.th[p], sc.mixed);
    }
    int st;
    waitpid(ps[p].pid, &st, 0);
    if (!WIFSTOPPED(st)) _exit(99);
    ptrace(PTRACE_SETOPTIONS, ps[p].pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
    ps[p].alive = true;
  }
  std::vector<Point> pts;
  int left[3] = {budget[0], budget[1], budget[2]};
  for (size_t p = 0; p < n; p++) advance((int)p);    // up to the first system call of its first operation
  int cur = 0;
  while (true) {
    std::vector<Choice> alts;
    bool curok = ps[cur].alive;
    if (curok) alts.push_back({RUN, cur, 0});
    for (size_t p = 0; p < n; p++) if ((int)p != cur && ps[p].alive && (!curok || left[0] > 0)) alts.push_back({RUN, (int)p, curok ? 1 : 0});
    if (alts.empty()) break;
    int c0 = alts[0].p;
    if (curok) {
      if (left[1] > 0 && fault_for(ps[c0].regs)) alts.push_back({FAULT, c0, 0});
      if (left[2] > 0) alts.push_back({KILL, c0, 0});
    }
    int ch = pts.size() < prefix.size() ? prefix[pts.size()] : 0;
    if (ch >= (int)alts.size()) _exit(99);
    pts.push_back({alts, ch});
    Choice c = alts[ch];
    left[0] -= c.pre;
    Proc& q = ps[c.p];
    cur = c.p;
    if (c.k == KILL) {
      left[2]--;
      T.ev(J().str("o", "die").i("p", c.p));
      kill(q.pid, SIGKILL);
      int st;
      waitpid(q.pid, &st, 0);
      q.alive = false;
      observe(c.p);
      continue;
    }
    int e = 0;
    long nr = (long)q.regs.orig_rax;
    if (c.k == FAULT) {
      left[1]--;
      e = fault_for(q.regs);
      q.regs.orig_rax = -1;
      ptrace(PTRACE_SETREGS, q.pid, 0, &q.regs);
    }
    if (ptrace(PTRACE_SYSCALL, q.pid, 0, 0)) _exit(99);
    if (!wait_stop(q)) continue;
    if (e) {
      a0_err_syscode = e;
      T.ev(J().str("o", "fault").i("p", c.p).str("r", errname(A0_ERR_SYS)).b("unlink", is_unlink(nr)));
      ptrace(PTRACE_GETREGS, q.pid, 0, &q.regs);
      q.regs.rax = -(long)e;
      ptrace(PTRACE_SETREGS, q.pid, 0, &q.regs);
    }
    observe(c.p);
    advance(c.p);
  }
  std::set<std::string> after;
  files_in(dir, &after);
  int extra = 0;
  for (auto& f : after) if (!before.count(f) && f != path && f != dir + "/a/f.a0") extra++;
  for (auto& f : before) if (!after.count(f) && f != path) extra += 1000;
  T.ev(J().str("o", "end").i("extra", extra));
  T.end();
  chmod(dir.c_str(), 0777);
  clean(dir);
  return pts;
}

int main(int argc, char** argv) {
  if (argc < 8) return 99;
  root = argv[1];
  chmod(root.c_str(), 0777);
  int budget[3] = {atoi(argv[2]), atoi(argv[3]), atoi(argv[4])};
  long max_runs = atol(argv[5]);
  uint64_t seed = atoll(argv[6]);
  T.init(argv[7]);
  unsetenv("A0_ROOT");
  umask(0);
  std::vector<Scen> scen;
  for (char pre : std::string("NDSFZILXWRPT"))
    for (std::string s : {"ox", "rx", "ex", "Ox", "oX", "oxox", "rtx"}) {
      if (s == "rtx" && pre != 'T' && pre != 'N') continue;
      scen.push_back({pre, {s}, false});
    }
  for (char pre : std::string("NDFR")) {
    scen.push_back({pre, {"o", "o"}, true});
    scen.push_back({pre, {"ox", "rx"}, true});
    scen.push_back({pre, {"O", "e"}, false});
    scen.push_back({pre, {"o", "rxo"}, true});
    if (pre != 'R') scen.push_back({pre, {"o", "d"}, true});
    scen.push_back({pre, {"o", "o", "o"}, true});
  }
  const int W = 8;
  std::vector<pid_t> ws;
  for (int w = 0; w < W; w++) {
    pid_t c = fork();
    if (c == 0) {
      slots = (Slot*)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      for (size_t i = w; i < scen.size(); i += W) {
        Rng r(seed * 7919 + i);
        std::vector<std::vector<int>> todo = {{}};
        long runs = 0;
        while (!todo.empty() && runs < max_runs) {
          size_t pick = (size_t)r.below(todo.size());
          std::vector<int> pre = todo[pick];
          todo[pick] = todo.back();
          todo.pop_back();
          std::vector<Point> pts = execute(scen[i], pre, budget);
          runs++;
          std::vector<int> cs;
          for (size_t k = 0; k < pts.size(); k++) {
            if (k >= pre.size())
              for (int a = 1; a < (int)pts[k].alts.size(); a++) { std::vector<int> x = cs; x.push_back(a); todo.push_back(x); }
            cs.push_back(pts[k].chosen);
          }
        }
        fprintf(stderr, "%zu %c runs=%ld left=%zu\n", i, scen[i].pre, runs, todo.size());
      }
      T.flush();
      _exit(0);
    }
    ws.push_back(c);
  }
  int bad = 0;
  for (pid_t c : ws) { int st; waitpid(c, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = WIFEXITED(st) && WEXITSTATUS(st) == 99 ? 99 : 1; }
  _exit(bad);
}
