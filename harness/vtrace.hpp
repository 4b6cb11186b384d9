// Recording of executions as one JSON object per line: {"cfg":{...},"ev":[{...},...]}
#pragma once
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <string>
#include <vector>

struct J {  // a JSON object under construction
  std::string s = "{";
  bool first = true;
  void key(const char* k) {
    if (!first) s += ",";
    first = false;
    s += "\"";
    s += k;
    s += "\":";
  }
  J& i(const char* k, long long v) { key(k); s += std::to_string(v); return *this; }
  J& str(const char* k, const std::string& v) {
    key(k);
    s += quote(v);
    return *this;
  }
  J& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
  J& b(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
  J& arr(const char* k, const std::vector<long long>& v) {
    key(k);
    s += "[";
    for (size_t n = 0; n < v.size(); n++) { if (n) s += ","; s += std::to_string(v[n]); }
    s += "]";
    return *this;
  }
  J& strs(const char* k, const std::vector<std::string>& v) {
    key(k);
    s += "[";
    for (size_t n = 0; n < v.size(); n++) { if (n) s += ","; s += quote(v[n]); }
    s += "]";
    return *this;
  }
  J& objs(const char* k, const std::vector<J>& v) {
    key(k);
    s += "[";
    for (size_t n = 0; n < v.size(); n++) { if (n) s += ","; s += v[n].done(); }
    s += "]";
    return *this;
  }
  std::string done() const { return s + "}"; }
  static std::string quote(const std::string& v) {
    std::string o = "\"";
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
      else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += (char)c;
    }
    return o + "\"";
  }
};

// The trace being recorded. If the code under test crashes, what was recorded so far is written out, ending in an event
// that no specification allows.
struct VTrace {
  int fd = -1;
  std::string cur;
  std::string out;
  bool open_ = false, firstev = true;
  long count = 0;
  void (*on_crash)() = nullptr;   // opens a trace from what has been collected elsewhere
  static VTrace& get() { static VTrace t; return t; }
  static void on_signal(int sig) {
    VTrace& t = get();
    if (t.on_crash && !t.open_) { auto f = t.on_crash; t.on_crash = nullptr; f(); }
    char b[64];
    snprintf(b, sizeof b, "{\"o\":\"signal\",\"p\":0,\"h\":0,\"sig\":%d}", sig);
    if (t.open_) {
      if (!t.firstev) t.cur += ",";
      t.cur += b;
      t.cur += "]}\n";
      t.open_ = false;
      t.out += t.cur;
    } else {
      t.out += std::string("{\"cfg\":{\"asz\":0,\"mode\":\"shared\"},\"ev\":[") + b + "]}\n";
    }
    t.flush();
    _exit(0);
  }
  void init(const char* path) {
    fd = ::open(path, O_CREAT | O_WRONLY | O_APPEND, 0644);
    if (fd < 0) { perror("trace file"); exit(99); }
    static char stk[65536 * 4];
    stack_t ss = {};
    ss.ss_sp = stk;
    ss.ss_size = sizeof stk;
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
  }
  void flush() {
    size_t o = 0;
    while (o < out.size()) {
      ssize_t n = ::write(fd, out.data() + o, out.size() - o);
      if (n <= 0) break;
      o += n;
    }
    out.clear();
  }
  void begin(const J& cfg) {
    cur = "{\"cfg\":" + cfg.done() + ",\"ev\":[";
    open_ = true;
    firstev = true;
  }
  void ev(const J& e) {
    if (!firstev) cur += ",";
    firstev = false;
    cur += e.done();
  }
  void discard() { open_ = false; }
  void end() {
    cur += "]}\n";
    open_ = false;
    out += cur;
    count++;
    if (out.size() > (1 << 20)) flush();
  }
  ~VTrace() { if (fd >= 0) flush(); }
};

struct Rng {  // splitmix64
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(int pct) { return (int)below(100) < pct; }
};
