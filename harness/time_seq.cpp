// Times: printing, parsing, adding, comparing (C21).
// usage: time_seq <amount> <seed> <out>
#include <a0.h>
#include <a0/time.h>
#include <a0/time.hpp>
#include <memory>
#include "a0util.hpp"

typedef long long ll;
static VTrace& T() { return VTrace::get(); }
static int evs;
// traces of limited length
static void one(const J& e) {
  if (!T().open_) { T().begin(J().i("n", 0)); evs = 0; }
  T().ev(e);
  if (++evs >= 40) T().end();
}

static ll fl(ll a, ll b) { ll q = a / b; return a % b < 0 ? q - 1 : q; }
static std::vector<ll> mono(const timespec& t) { ll hi = fl(t.tv_sec, 100000); return {hi, t.tv_sec - hi * 100000, t.tv_nsec}; }
static std::vector<ll> offset(ll o) { ll s = fl(o, 1000000000), hi = fl(s, 100000); return {hi, s - hi * 100000, o - s * 1000000000}; }
static std::vector<ll> wall(const timespec& t) { ll d = fl(t.tv_sec, 86400); return {d, t.tv_sec - d * 86400, t.tv_nsec}; }
static std::vector<ll> codes(const std::string& s) { std::vector<ll> v; for (unsigned char c : s) v.push_back(c); return v; }
static timespec ts(ll s, ll n) { timespec t; t.tv_sec = s; t.tv_nsec = n; return t; }

static a0::TimeMono cppm(timespec t) { a0::TimeMono m; a0_time_mono_t x; x.ts = t; m.c = std::make_shared<a0_time_mono_t>(x); return m; }
static a0::TimeWall cppw(timespec t) { a0::TimeWall m; a0_time_wall_t x; x.ts = t; m.c = std::make_shared<a0_time_wall_t>(x); return m; }

// exactly n bytes on the heap, so that reading past them is noticed
struct Exact {
  char* p;
  explicit Exact(size_t n) : p((char*)malloc(n)) {}
  ~Exact() { free(p); }
};

static void mstr(timespec t, bool cpp) {
  std::string s, r;
  if (cpp) r = guarded([&] { s = cppm(t).to_string(); });
  else {
    Exact b(20);
    memset(b.p, 'x', 20);
    a0_time_mono_t m;
    m.ts = t;
    a0_err_t e = a0_time_mono_str(m, b.p);
    r = errname(e);
    if (!e) s = std::string(b.p, strnlen(b.p, 20));
  }
  one(J().str("o", "mstr").b("cpp", cpp).arr("t", mono(t)).str("r", r).arr("s", codes(s)));
}
static void mparse(const std::string& s, bool cpp) {
  timespec t = ts(-1, 0);
  std::string r;
  if (cpp) {
    Exact b(s.size() + 1);       // not terminated: other digits follow
    memcpy(b.p, s.data(), s.size());
    b.p[s.size()] = '7';
    r = guarded([&] { t = a0::TimeMono::parse(a0::string_view(b.p, s.size())).c->ts; });
  } else {
    Exact b(s.size() + 1);
    memcpy(b.p, s.c_str(), s.size() + 1);
    a0_time_mono_t m;
    m.ts = t;
    r = errname(a0_time_mono_parse(b.p, &m));
    t = m.ts;
  }
  one(J().str("o", "mparse").b("cpp", cpp).arr("s", codes(s)).str("r", r).arr("t", r == "ok" ? mono(t) : std::vector<ll>{}));
}
static void madd(timespec t, ll o, int how) {
  timespec u = ts(0, 0);
  std::string r;
  if (how == 0) {
    a0_time_mono_t m, x;
    m.ts = t;
    r = errname(a0_time_mono_add(m, o, &x));
    u = x.ts;
  } else {
    r = guarded([&] {
      a0::TimeMono m = cppm(t);
      std::chrono::nanoseconds d(o);
      if (how == 1) u = (m + d).c->ts;
      else if (how == 2) { m += d; u = m.c->ts; }
      else if (how == 3) u = (m - d).c->ts;
      else { m -= d; u = m.c->ts; }
    });
  }
  one(J().str("o", how < 3 ? "madd" : "msub").i("how", how).arr("t", mono(t)).arr("d", offset(o)).str("r", r).arr("u", mono(u)));
}
static void mcmp(timespec a, timespec b) {
  a0::TimeMono x = cppm(a), y = cppm(b);
  one(J().str("o", "mcmp").arr("a", mono(a)).arr("b", mono(b)).b("lt", x < y).b("le", x <= y).b("eq", x == y).b("ne", x != y).b("ge", x >= y).b("gt", x > y));
}
static void wstr(timespec t, bool cpp) {
  std::string s, r;
  if (cpp) r = guarded([&] { s = cppw(t).to_string(); });
  else {
    Exact b(36);
    memset(b.p, 'x', 36);
    a0_time_wall_t m;
    m.ts = t;
    a0_err_t e = a0_time_wall_str(m, b.p);
    r = errname(e);
    if (!e) s = std::string(b.p, strnlen(b.p, 36));
  }
  one(J().str("o", "wstr").b("cpp", cpp).arr("w", wall(t)).str("r", r).arr("s", codes(s)));
}
static void wparse(const std::string& s, bool cpp) {
  timespec t = ts(-1, 0);
  std::string r;
  if (cpp) {
    std::string rest = "2006-01-02T15:04:05.999999999-00:00";
    rest = rest.substr(std::min(rest.size(), s.size()));      // not terminated: what would complete it follows
    Exact b(s.size() + rest.size() + 1);
    memcpy(b.p, s.data(), s.size());
    memcpy(b.p + s.size(), rest.c_str(), rest.size() + 1);
    r = guarded([&] { t = a0::TimeWall::parse(a0::string_view(b.p, s.size())).c->ts; });
  } else {
    Exact b(s.size() + 1);
    memcpy(b.p, s.c_str(), s.size() + 1);
    a0_time_wall_t m;
    m.ts = t;
    r = errname(a0_time_wall_parse(b.p, &m));
    t = m.ts;
  }
  one(J().str("o", "wparse").b("cpp", cpp).arr("s", codes(s)).str("r", r).arr("w", r == "ok" ? wall(t) : std::vector<ll>{}));
}

int main(int argc, char** argv) {
  if (argc < 4) return 99;
  int amount = atoi(argv[1]);
  Rng rng(atoll(argv[2]));
  T().init(argv[3]);
  std::vector<ll> secs = {0, 1, 2, 59, 60, 86399, 86400, 99999, 100000, 2147483647, 2147483648ll, 4294967295ll, 4294967296ll, 9223372035ll, 9223372036ll, 9223372037ll, 9999999999ll};
  for (ll p = 10; p <= 1000000000; p *= 10) { secs.push_back(p - 1); secs.push_back(p); secs.push_back(p + 1); }
  std::vector<ll> nss = {0, 1, 9, 10, 11, 99, 100, 101, 999, 1000, 99999, 100000, 499999999, 500000000, 854775807, 854775808, 99999999, 100000000, 999999998, 999999999};
  for (ll s : secs) for (ll n : nss) {
    mstr(ts(s, n), false);
    if (n % 3 == 0) mstr(ts(s, n), true);
  }
  for (ll s : {-1ll, -2ll, -100000ll, 10000000000ll, 18446744073ll, 18446744074ll, 20000000000ll, 100000000000ll}) for (ll n : {0ll, 1ll, 999999999ll}) { mstr(ts(s, n), false); mstr(ts(s, n), true); }
  for (int k = 0; k < 400 * amount; k++) mstr(ts(rng.below(10000000000ll) >> rng.below(33), rng.below(1000000000) / (rng.chance(30) ? 1000 : 1)), k & 1);
  // texts
  std::string base = "1234567890123456789";
  for (auto s : {base, std::string("0000000000000000000"), std::string("9999999999999999999"), std::string("9223372036854775807"), std::string("9223372036854775808"), std::string("0000000000000000001"), std::string("0000000001000000000")})
    for (bool c : {false, true}) mparse(s, c);
  for (int at = 0; at < 19; at++) for (char c : {'/', ':', ' ', '-', '+', 'a', '.', '\x80', '\xff', 'x', '\t', '\n'}) { std::string x = base; x[at] = c; mparse(x, false); mparse(x, true); }
  for (int n = 0; n < 19; n++) { mparse(base.substr(0, n), false); mparse(base.substr(0, n), true); }
  for (int k = 0; k < 200 * amount; k++) { std::string x; for (int j = 0; j < 19; j++) x += (char)('0' + rng.below(10)); mparse(x, k & 1); }
  // sums
  std::vector<ll> offs = {0, 1, 2, 999999999, 1000000000, 1000000001, 1999999999, 2000000000, 500000000, 60000000000ll, 2147483647, 2147483648ll, 4294967296ll, 99999999999999ll, 100000000000000ll, 9223372036854775807ll};
  for (ll s : secs) for (ll n : nss) for (ll o : offs) {
    if (amount < 4 && rng.chance(70)) continue;
    int how = rng.below(5);
    madd(ts(s, n), o, how);
    madd(ts(s, n), -o, rng.below(5));
  }
  for (ll n : nss) madd(ts(10000000000ll, n), (-9223372036854775807ll - 1), 0);
  for (int k = 0; k < 400 * amount; k++) madd(ts(rng.below(10000000000ll) >> rng.below(33), rng.below(1000000000)), (ll)(rng.next() >> 1 >> rng.below(63)) * (rng.chance(50) ? 1 : -1), rng.below(5));
  for (ll s : {0ll, 1ll, 4294967296ll, 5ll}) for (ll n : {0ll, 1ll, 999999999ll}) for (ll s2 : {0ll, 1ll, 4294967296ll, 4294967297ll, 5ll}) for (ll n2 : {0ll, 1ll, 2ll, 999999999ll}) mcmp(ts(s, n), ts(s2, n2));
  // wall times
  const ll FIRST = -62167219200ll, LAST = 253402300799ll;
  for (ll s : {FIRST, FIRST + 1, FIRST - 1, LAST, LAST - 1, LAST + 1, -1ll, 0ll, 1ll, -86400ll, -86401ll, 951782400ll, 951868800ll, 4107456000ll, 4107542400ll, 2147483647ll, 2147483648ll, -2147483648ll, -2147483649ll, 4294967296ll, -62135596800ll, -62135596801ll, -30610224000ll, -30610224001ll, 30000000000000ll, -30000000000000ll})
    for (ll n : nss) { wstr(ts(s, n), false); wstr(ts(s, n), true); }
  for (ll d = 10956; d < 10956 + 1500; d += amount < 4 ? 3 : 1) wstr(ts(d * 86400 + (d * 7919) % 86400, d), false);     // from the end of 1999
  for (int k = 0; k < 1000 * amount; k++) wstr(ts(FIRST + (ll)rng.below(LAST - FIRST), nss[rng.below(nss.size())]), k & 1);
  std::string w = "2006-01-02T15:04:05.999999999-00:00";
  auto both = [&](const std::string& s) { wparse(s, false); wparse(s, true); };
  both(w);
  for (size_t at = 0; at < w.size(); at++) for (char c : {'/', ':', ' ', '-', '+', 'a', '.', '\x80', 'Z', '9', '0', '1'}) {
    if (w[at] == c || (at == 10 && (c == 't'))) continue;
    std::string x = w;
    x[at] = c;
    wparse(x, at & 1);
  }
  for (size_t n = 0; n < w.size(); n++) both(w.substr(0, n));
  auto put = [&](std::string x, int at, int v, int width) { char b[12]; snprintf(b, sizeof b, "%0*d", width, v); return x.replace(at, width, b); };
  for (int mo = 0; mo < 100; mo++) wparse(put(w, 5, mo, 2), mo & 1);
  for (int h = 0; h < 100; h++) { wparse(put(w, 11, h, 2), h & 1); wparse(put(w, 14, h, 2), h & 1); wparse(put(w, 17, h, 2), h & 1); }
  for (int y : {0, 1, 4, 100, 400, 1600, 1899, 1900, 1969, 1970, 1999, 2000, 2004, 2023, 2024, 2100, 2400, 9999})
    for (int mo = 1; mo <= 12; mo++) for (int d : {0, 1, 28, 29, 30, 31, 32, 99}) wparse(put(put(put(w, 0, y, 4), 5, mo, 2), 8, d, 2), d & 1);
  for (const char* z : {"+00:00", "-07:00", "+07:00", "-00:01", "-0000x", "Z00000", "-00.00"}) both(w.substr(0, 29) + z);
  for (int k = 0; k < 500 * amount; k++) {
    std::string x = put(put(put(w, 0, rng.below(10000), 4), 5, 1 + rng.below(12), 2), 8, 1 + rng.below(31), 2);
    x = put(put(put(x, 11, rng.below(24), 2), 14, rng.below(60), 2), 17, rng.below(60), 2);
    x = put(x, 20, rng.below(1000000000), 9);
    wparse(x, k & 1);
  }
  if (T().open_) T().end();
  return 0;
}
