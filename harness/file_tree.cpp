// Removal and listing of directory trees. The trees are made by this process in a scratch directory, every operation is
// done by a child that is an unprivileged user owning nothing but the tree, and the tree is looked at after each.
// Arguments: scratch-dir, what (small | random), size of small trees or number of random programs, seed, output.
#include <a0.h>
#include <a0/file.hpp>
#include <errno.h>
#include <grp.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include "vtrace.hpp"

static VTrace& T = VTrace::get();
static const uid_t USER = 54321;
static std::string base;

// What readdir says in the child: types unknown, or a failure after so many entries.
static bool hide_types;
static int fail_after = -1;
static volatile bool* failed;
extern "C" struct dirent* __real_readdir(DIR*);
extern "C" struct dirent* __wrap_readdir(DIR* d) {
  if (fail_after == 0) { *failed = true; errno = EIO; return nullptr; }
  if (fail_after > 0) fail_after--;
  struct dirent* e = __real_readdir(d);
  if (e && hide_types) e->d_type = DT_UNKNOWN;
  return e;
}

typedef std::vector<int> P;   // names, -1 ".", -2 ".."
struct Node { P p; std::string t; int id; std::string m = "rw"; P to; bool abs = false; };
static std::vector<std::string> names;
static std::vector<Node> tree;
static std::map<ino_t, int> ids;

static int id_of_name(const std::string& s) {
  for (size_t k = 0; k < names.size(); k++) if (names[k] == s) return (int)k;
  return -9;
}
static std::string text(int c) { return c == -1 ? "." : c == -2 ? ".." : names[c]; }
static std::string join(const P& p, const char* sep = "/") {
  std::string s;
  for (size_t k = 0; k < p.size(); k++) s += (k ? sep : "") + text(p[k]);
  return s;
}
static std::string kind(mode_t m) { return S_ISDIR(m) ? "d" : S_ISREG(m) ? "f" : S_ISLNK(m) ? "l" : S_ISFIFO(m) ? "p" : "?"; }

// all below a directory, by descriptor; never follows a link
static void each(int fd, const P& at, const std::function<void(int, const std::string&, const P&, const struct stat&)>& f) {
  DIR* d = fdopendir(fd);
  if (!d) _exit(99);
  std::vector<std::string> ns;
  while (struct dirent* e = __real_readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) ns.push_back(e->d_name);
  for (auto& n : ns) {
    struct stat st;
    if (fstatat(dirfd(d), n.c_str(), &st, AT_SYMLINK_NOFOLLOW)) _exit(99);
    P p = at;
    p.push_back(id_of_name(n));
    if (S_ISDIR(st.st_mode)) {
      int sub = openat(dirfd(d), n.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
      if (sub < 0) _exit(99);
      each(sub, p, f);
    }
    f(dirfd(d), n, p, st);
  }
  closedir(d);
}
static int root_fd() {
  int fd = open(base.c_str(), O_RDONLY | O_DIRECTORY);
  if (fd < 0) _exit(99);
  return fd;
}

static void make() {
  ids.clear();
  std::map<int, P> first;
  for (auto& n : tree) {
    if (n.p.empty()) continue;
    int fd = root_fd();
    for (size_t k = 0; k + 1 < n.p.size(); k++) {
      int x = openat(fd, names[n.p[k]].c_str(), O_RDONLY | O_DIRECTORY);
      close(fd);
      if (x < 0) _exit(99);
      fd = x;
    }
    const char* s = names[n.p.back()].c_str();
    bool linked = first.count(n.id);
    int r = 0;
    if (linked) r = linkat(AT_FDCWD, (base + "/" + join(first[n.id])).c_str(), fd, s, 0);
    else if (n.t == "d") r = mkdirat(fd, s, 0755);
    else if (n.t == "l") r = symlinkat(((n.abs ? base + "/" : "") + join(n.to)).c_str(), fd, s);
    else if (n.t == "p") r = mkfifoat(fd, s, 0644);
    else {
      int x = openat(fd, s, O_CREAT | O_EXCL | O_WRONLY, 0644);
      if (x < 0 || write(x, &n.id, sizeof n.id) != sizeof n.id) _exit(99);
      close(x);
    }
    struct stat st;
    if (r || fchownat(fd, s, USER, USER, AT_SYMLINK_NOFOLLOW) || fstatat(fd, s, &st, AT_SYMLINK_NOFOLLOW)) { perror(s); _exit(99); }
    ids[st.st_ino] = n.id;
    first[n.id] = n.p;
    close(fd);
  }
  for (auto& n : tree)
    if (n.t == "d" && n.m != "rw" && chmod((base + "/" + join(n.p)).c_str(), n.m == "ro" ? 0555 : 0)) _exit(99);
}
static void clean() {
  each(root_fd(), {}, [](int fd, const std::string& n, const P&, const struct stat& st) {
    unlinkat(fd, n.c_str(), S_ISDIR(st.st_mode) ? AT_REMOVEDIR : 0);
  });
}
static J jnode(const P& p, const std::string& t, int id) {
  return J().arr("p", {p.begin(), p.end()}).str("t", t).i("id", id);
}
static std::vector<J> look() {
  std::vector<J> out = {jnode({}, "d", 0)};
  each(root_fd(), {}, [&](int fd, const std::string& n, const P& p, const struct stat& st) {
    int id = ids.count(st.st_ino) ? ids[st.st_ino] : -1;
    if (st.st_uid != USER) id = -2;
    if (S_ISREG(st.st_mode)) {
      int c = -1, x = openat(fd, n.c_str(), O_RDONLY | O_NOFOLLOW);
      if (x < 0 || read(x, &c, sizeof c) != sizeof c || c != id || st.st_size != sizeof c) id = -3;
      close(x);
    }
    out.push_back(jnode(p, kind(st.st_mode), id));
  });
  return out;
}

// ---- operations

struct Op {
  std::string o;     // rmall, rm, list
  P p;
  int slash = 0;     // slashes at the end
  bool rel = false, cpp = false, dbl = false;
  bool hide = false;
  int fail = -1;
};
struct Slot { bool failed; bool ok, done; size_t n; char s[1 << 20]; };
static Slot* slot;

static void child(const Op& op) {
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) signal(s, SIG_DFL);
  if (setgroups(0, nullptr) || setgid(USER) || setuid(USER)) _exit(99);
  if (chdir("/")) _exit(99);
  std::string s = join(op.p, op.dbl ? "//" : "/") + std::string(op.slash, '/');
  if (op.rel) setenv("A0_ROOT", base.c_str(), 1);
  else { setenv("A0_ROOT", "/nonexistent", 1); s = base + (s.empty() ? "" : "/" + s); }
  alarm(20);
  hide_types = op.hide;
  fail_after = op.fail;
  failed = &slot->failed;
  if (op.o == "list") {
    a0_file_iter_t it;
    if (a0_file_iter_init(&it, s.c_str())) { slot->ok = false; _exit(0); }
    slot->ok = true;
    std::vector<J> es;
    a0_file_iter_entry_t e;
    a0_err_t r = A0_OK;
    long n = 0;
    while (n++ < 5000 && !(r = a0_file_iter_next(&it, &e))) {
      struct stat st;
      int id = -1;
      if (!lstat(e.fullpath, &st) && ids.count(st.st_ino)) id = ids[st.st_ino];
      es.push_back(J().i("n", id_of_name(e.filename)).str("t", kind(DTTOIF(e.d_type))).i("id", id).b("full", e.fullpath[0] == '/'));
    }
    slot->done = r == A0_ERR_ITER_DONE;
    a0_file_iter_close(&it);
    std::string x = J().objs("ents", es).done();
    if (x.size() > sizeof slot->s) _exit(99);
    memcpy(slot->s, x.data(), x.size());
    slot->n = x.size();
  } else if (op.cpp) {
    slot->ok = true;
    try {
      if (op.o == "rm") a0::File::remove(s);
      else a0::File::remove_all(s);
    } catch (const std::exception&) { slot->ok = false; }
  } else {
    slot->ok = !(op.o == "rm" ? a0_file_remove(s.c_str()) : a0_file_remove_all(s.c_str()));
  }
  _exit(0);
}

static void begin() {
  std::vector<J> ns;
  for (auto& n : tree) ns.push_back(jnode(n.p, n.t, n.id).str("m", n.m).arr("to", {n.to.begin(), n.to.end()}).b("abs", n.abs));
  T.begin(J().objs("tree", ns));
  make();
}
static void perform(const Op& op) {
  size_t longest = 0;
  for (auto& n : tree) longest = std::max(longest, join(n.p).size());
  bool hard = base.size() + join(op.p, "//").size() + longest > 3900;
  memset(slot, 0, offsetof(Slot, s));
  T.flush();
  pid_t c = fork();
  if (c == 0) child(op);
  int st;
  if (c < 0 || waitpid(c, &st, 0) != c) _exit(99);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) _exit(99);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) {
    T.ev(J().str("o", "signal").str("op", op.o).arr("p", {op.p.begin(), op.p.end()}).i("sig", st));
    return;
  }
  J j;
  j.str("o", op.o).arr("p", {op.p.begin(), op.p.end()}).b("slash", op.slash > 0).b("ok", slot->ok).b("hard", hard || slot->failed)
      .b("lenient", op.cpp && op.o == "rm").objs("after", look());
  if (op.o == "list") {
    j.b("done", slot->done);
    std::string x(slot->s, slot->n);
    j.raw("ents", x.empty() ? "[]" : x.substr(8, x.size() - 9));
  }
  T.ev(j);
}
static void finish() { T.end(); clean(); }

// ---- every small tree

static std::vector<std::vector<Node>> all;
static void grow(std::vector<Node> t, int left) {
  all.push_back(t);
  if (!left) return;
  std::vector<P> dirs;
  for (auto& n : t) if (n.t == "d") dirs.push_back(n.p);
  for (auto& d : dirs)
    for (int name = 0; name < 2; name++) {
      P p = d;
      p.push_back(name);
      // in order, so that every tree comes once
      if (t.size() > 1 && !(t.back().p < p)) continue;
      int id = (int)t.size();
      std::vector<Node> ks = {{p, "d", id}, {p, "f", id}};
      for (P to : {P{0}, P{1}, P{0, 0}, P{0, 1}, P{1, 0}}) ks.push_back({p, "l", id, "rw", to, true});
      ks.push_back({p, "l", id, "rw", {-1}});
      if (!d.empty()) ks.push_back({p, "l", id, "rw", {-2}});
      for (auto& k : ks) { auto u = t; u.push_back(k); grow(u, left - 1); }
    }
}

// ---- random trees and programs

static void random_tree(Rng& r) {
  names = {"a", "b", "c", ".h", "...", "..a", " ", "a b", "*", "-rf", "~", "\n", "\xc3\xa9", "%s%n", "x\\", std::string(255, 'n'), "a.a0", "$(x)"};
  tree = {{{}, "d", 0}};
  int id = 1;
  auto add = [&](Node n) {
    for (auto& x : tree) if (x.p == n.p) return false;
    tree.push_back(n);
    return true;
  };
  int want = 3 + (int)r.below(25);
  if (r.chance(4)) {            // a long path
    P p;
    int depth = 10 + (int)r.below(9);
    for (int k = 0; k < depth; k++) { p.push_back(15); add({p, "d", id++}); }
  } else if (r.chance(4)) {     // many levels
    P p;
    for (int k = 0; k < 60; k++) { p.push_back((int)r.below(3)); add({p, "d", id++}); }
  } else if (r.below(400) == 0) {     // many entries
    for (int k = 0; k < 1500; k++) { names.push_back("f" + std::to_string(k)); }
    add({{0}, "d", id++});
    for (int k = 0; k < 1500; k++) tree.push_back({{0, 18 + k}, k % 7 ? "f" : "d", id++});
  }
  for (int k = 0; k < want; k++) {
    std::vector<int> ds;
    for (size_t x = 0; x < tree.size() && x < 100; x++) if (tree[x].t == "d") ds.push_back((int)x);
    P p = tree[ds[r.below(ds.size())]].p;
    size_t depth = p.size();
    p.push_back((int)r.below(r.chance(60) ? 4 : 18));
    int what = (int)r.below(100);
    Node n{p, "d", id};
    if (what < 35) {}
    else if (what < 60) n.t = "f";
    else if (what < 65) n.t = "p";
    else if (what < 72) {       // another name of a file
      for (auto& x : tree) if (x.t == "f" && join(x.p).size() < 3000 && r.chance(50)) { n.t = "f"; n.id = x.id; break; }
    } else {
      n.t = "l";
      n.abs = r.chance(50);
      if (n.abs || r.chance(60)) {
        if (!n.abs) for (size_t u = 0; u < depth; u++) n.to.push_back(-2);
        P q = tree[r.below(std::min(tree.size(), (size_t)100))].p;
        if (join(q).size() > 3000) q.clear();
        n.to.insert(n.to.end(), q.begin(), q.end());
        if (r.chance(10)) n.to.push_back((int)r.below(18));
      } else n.to = {r.chance(50) ? (int)r.below(4) : -1};
      if (!n.abs && n.to.empty()) n.to = {-1};
    }
    if (join(p).size() > 3500) continue;
    if (add(n)) id++;
  }
  if (r.chance(15))
    for (auto& n : tree) if (n.t == "d" && !n.p.empty() && r.chance(15) && join(n.p).size() < 3500) n.m = r.chance(60) ? "ro" : "no";
}
static Op random_op(Rng& r, bool last) {
  Op op;
  int k = (int)r.below(100);
  op.o = k < (last ? 55 : 35) ? "rmall" : k < (last ? 70 : 60) ? "rm" : "list";
  op.p = tree[r.below(tree.size())].p;
  if (op.p.empty() && op.o != "list") op.p = {0};
  if (r.chance(8)) op.p.push_back((int)r.below(5));           // perhaps through a link, or nothing
  else if (r.chance(8) && op.p.size() > 1) op.p.pop_back();
  if (r.chance(10)) {                                         // a detour
    std::vector<P> real;
    for (auto& n : tree) if (n.t == "d" && n.p.size() == 1 && n.m == "rw") real.push_back(n.p);
    if (!real.empty()) { P d = real[r.below(real.size())]; d.push_back(-2); d.insert(d.end(), op.p.begin(), op.p.end()); op.p = d; }
  }
  if (r.chance(6)) op.p.insert(op.p.begin() + (long)r.below(op.p.size() + 1), -1);
  if (r.chance(20)) op.slash = 1 + (int)r.below(2);
  op.rel = r.chance(50) && !op.p.empty();
  op.cpp = r.chance(30);
  op.dbl = r.chance(8);
  op.hide = r.chance(25);
  if (r.chance(6)) op.fail = (int)r.below(8);
  return op;
}

int main(int argc, char** argv) {
  if (argc < 6) return 99;
  std::string dir = argv[1], what = argv[2];
  int size = atoi(argv[3]);
  uint64_t seed = atoll(argv[4]);
  T.init(argv[5]);
  umask(0);
  if (what == "small") grow({{{}, "d", 0}}, size);
  const int W = 8;
  std::vector<pid_t> ws;
  for (int w = 0; w < W; w++) {
    pid_t c = fork();
    if (c == 0) {
      slot = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      std::string top = dir + "/" + std::to_string(w);
      base = top + "/w";
      if (mkdir(top.c_str(), 0755) || mkdir(base.c_str(), 0755) || chown(base.c_str(), USER, USER)) _exit(99);
      if (what == "small") {
        names = {"a", "b"};
        for (size_t k = (size_t)w; k < all.size(); k += W) {
          tree = all[k];
          Rng r(seed * 31 + k);
          std::set<P> ps = {{0}, {1}};
          for (auto& n : tree) if (!n.p.empty()) { ps.insert(n.p); P q = n.p; q.push_back(0); ps.insert(q); }
          for (auto& p : ps)
            for (int s = 0; s < 2; s++) {
              begin();
              for (std::string o : {"list", "rm", "rmall"}) {
                Op op;
                op.o = o; op.p = p; op.slash = s;
                op.rel = r.chance(50); op.cpp = r.chance(20); op.hide = r.chance(30);
                if (o == "rm" && k % 3) continue;
                perform(op);
              }
              finish();
            }
        }
      } else {
        for (int k = w; k < size; k += W) {
          Rng r(seed * 1000003 + (uint64_t)k);
          random_tree(r);
          begin();
          int n = 1 + (int)r.below(4);
          for (int x = 0; x < n; x++) perform(random_op(r, x == n - 1));
          finish();
        }
      }
      T.flush();
      _exit(0);
    }
    ws.push_back(c);
  }
  int bad = 0;
  for (pid_t c : ws) { int st; waitpid(c, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = WIFEXITED(st) && WEXITSTATUS(st) == 99 ? 99 : 1; }
  _exit(bad);
}
