// Path patterns (C19).
// usage: glob_seq <pattern length> <path length> <random> <seed> <out>
#include <a0.h>
#include <a0/pathglob.h>
#include <a0/pathglob.hpp>
#include "a0util.hpp"

typedef long long ll;
static VTrace& T() { return VTrace::get(); }
static std::vector<ll> codes(const std::string& s) { std::vector<ll> v; for (unsigned char c : s) v.push_back(c); return v; }

static std::vector<std::string> texts(const char* alphabet, int n) {
  std::vector<std::string> out = {"/"};
  size_t from = 0;
  for (int k = 0; k < n; k++) {
    size_t to = out.size();
    for (; from < to; from++) for (const char* c = alphabet; *c; c++) out.push_back(out[from] + *c);
  }
  return out;
}

static int evs;
static const char* root;
static void one(const std::string& p, const std::string& s, bool cpp) {
  bool yes = false;
  std::string rp, rs = "none";
  if (cpp) {
    try {
      a0::PathGlob g(p);
      rp = "ok";
      rs = guarded([&] { yes = g.match(s); });
    } catch (std::exception& e) { rp = excname(e); }
  } else {
    auto* g = new a0_pathglob_t;
    memset(g, 0x5A, sizeof *g);
    rp = errname(a0_pathglob_init(g, p.c_str()));
    if (rp == "ok") {
      rs = errname(a0_pathglob_match(g, s.c_str(), &yes));
      a0_pathglob_close(g);
    }
    delete g;
  }
  if (!T().open_) { T().begin(J().i("n", 0)); evs = 0; }
  T().ev(J().str("o", "try").b("cpp", cpp).arr("root", codes(root)).arr("p", codes(p)).arr("s", codes(s)).str("rp", rp).str("rs", rs).b("yes", yes));
  if (++evs >= 40) T().end();
}

int main(int argc, char** argv) {
  if (argc < 6) return 99;
  auto pats = texts("ab*/", atoi(argv[1])), paths = texts("ab/", atoi(argv[2]));
  int nr = atoi(argv[3]);
  Rng rng(atoll(argv[4]));
  T().init(argv[5]);
  std::string pj = "[";
  for (auto& s : paths) { if (pj.size() > 1) pj += ","; pj += "["; for (size_t i = 0; i < s.size(); i++) pj += (i ? "," : "") + std::to_string((int)s[i]); pj += "]"; }
  pj += "]";
  for (size_t k = 0; k < pats.size(); k++) {
    if (!T().open_) { T().begin(J().raw("paths", pj)); evs = 0; }
    std::vector<ll> m;
    a0_pathglob_t g;
    if (a0_pathglob_init(&g, pats[k].c_str())) { T().ev(J().str("o", "refused").arr("p", codes(pats[k]))); T().end(); continue; }
    for (auto& s : paths) {
      bool yes = false;
      a0_err_t e = a0_pathglob_match(&g, s.c_str(), &yes);
      m.push_back(e ? 2 : yes);
    }
    a0_pathglob_close(&g);
    T().ev(J().str("o", "row").arr("p", codes(pats[k])).arr("m", m));
    if (++evs >= 30) T().end();
  }
  if (T().open_) T().end();

  auto seg = [&](bool pattern) {
    std::string s;
    int n = rng.below(rng.chance(20) ? 9 : 4);
    for (int i = 0; i < n; i++) s += pattern && rng.chance(35) ? '*' : "ab.c"[rng.below(4)];
    return s;
  };
  for (const char* r : {"/r", "/dev/shm/alephzero", "", "rel", "/a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t/u/v/w/x/y/z"}) {
    root = r;
    setenv("A0_ROOT", r, 1);
    for (bool cpp : {false, true}) {
      for (const char* p : {"", "*", "**", "a", "/a", "**/a", "/**/a", "/**/*", "a/", "*/", "/", "//", "**/", "/**/", "/**", "a/**", "/r/a", "/r/**/a"})
        for (const char* s : {"", "a", "/a", "/r/a", "r/a", "a/", "/a/", "//", "/", "a/a", "/r/a/a", "*", "/*", "/**/a", "**"}) one(p, s, cpp);
    }
    for (int k = 0; k < nr; k++) {
      std::string s = rng.chance(50) ? "" : "/", p;
      std::vector<std::string> ss;
      int n = 1 + rng.below(rng.chance(10) ? 12 : 5);
      for (int i = 0; i < n; i++) { ss.push_back(seg(false)); s += (i ? "/" : "") + ss[i]; }
      // a pattern made from the path, so that about half of them match
      p = s.size() && s[0] == '/' ? "/" : "";
      bool first = true;
      for (int i = 0; i < n; i++) {
        std::string x = ss[i];
        int c = rng.below(10);
        if (c == 0) { x = "**"; i += rng.below(3); }
        else if (c == 1) x = seg(true);
        else if (c == 2) { if (!first) p += "/"; first = false; p += "**"; }
        else if (c < 6) {
          std::string y;
          for (size_t q = 0; q < x.size(); q++) {
            if (rng.chance(25)) y += '*';
            if (rng.chance(70)) y += x[q];
            else if (rng.chance(70)) y += '*';
          }
          x = y;
        }
        if (!first) p += "/";
        first = false;
        p += x;
      }
      one(p, s, k & 1);
    }
    // depth
    for (int d = 28; d <= 40; d++) for (int shape = 0; shape < 4; shape++) {
      std::string s, p;
      for (int i = 0; i < d; i++) { s += "/a"; p += shape == 0 ? "/a" : shape == 1 ? "/*" : i == 3 ? "/**" : "/a"; }
      if (shape == 3) p = "/**/a";
      one(p, s, d & 1);
      one("/**/a", s + "/", d & 1);
      one(p.substr(1), s.substr(1), d & 1);
    }
    one("/**/a", std::string(1000, 'a') + "/a", false);
    std::string deep;
    for (int i = 0; i < 1000; i++) deep += "/x";
    one("/**/x", deep, false);
    one(deep, "/x", false);
    one(std::string("/") + std::string(24, '*') + "b", std::string("/") + std::string(4, 'a'), false);
  }
  if (T().open_) T().end();
  return 0;
}
