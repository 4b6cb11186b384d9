// Topics, roots and paths (C15). Everything happens under the scratch directory given.
// usage: topic_seq <scratch> <random> <seed> <out>
#include <a0.h>
#include <dirent.h>
#include <sys/stat.h>
#include <map>
#include <set>
#include "a0util.hpp"

typedef long long ll;
static VTrace& T() { return VTrace::get(); }
static const std::vector<ll> NONE = {-1};
static std::vector<ll> codes(const std::string& s) { std::vector<ll> v; for (unsigned char c : s) v.push_back(c); return v; }
static std::string js(const std::vector<std::string>& v) {
  std::string o = "[";
  for (auto& s : v) { if (o.size() > 1) o += ","; o += "["; auto c = codes(s); for (size_t i = 0; i < c.size(); i++) o += (i ? "," : "") + std::to_string(c[i]); o += "]"; }
  return o + "]";
}
static int evs;
static void one(const J& e) {
  if (!T().open_) { T().begin(J().i("n", 0)); evs = 0; }
  T().ev(e);
  if (++evs >= 40) T().end();
}
struct Opt {   // a text or nothing
  bool there;
  std::string s;
  Opt() : there(false) {}
  Opt(const char* c) : there(c), s(c ? c : "") {}
  Opt(const std::string& x) : there(true), s(x) {}
  const char* c() const { return there ? s.c_str() : nullptr; }
  std::vector<ll> j() const { return there ? codes(s) : NONE; }
};
static std::string base;   // scratch
static void walk(const std::string& d, std::set<std::string>& files, std::set<std::string>& dirs) {
  DIR* h = opendir(d.c_str());
  if (!h) return;
  while (dirent* e = readdir(h)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = d + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) { dirs.insert(p); walk(p, files, dirs); }
    else files.insert(p);
  }
  closedir(h);
}
static std::set<std::string> files() { std::set<std::string> f, d; walk(base, f, d); return f; }
static std::set<std::string> all() { std::set<std::string> f, d; walk(base, f, d); f.insert(d.begin(), d.end()); return f; }
static std::vector<std::string> minus(const std::set<std::string>& a, const std::set<std::string>& b) { std::vector<std::string> o; for (auto& x : a) if (!b.count(x)) o.push_back(x); return o; }
static void wipe() {   // what this driver and the code under test made below the scratch directory
  std::set<std::string> f, d;
  walk(base, f, d);
  for (auto& x : f) if (!x.compare(0, base.size() + 1, base + "/")) unlink(x.c_str());
  for (auto it = d.rbegin(); it != d.rend(); ++it) if (!it->compare(0, base.size() + 1, base + "/")) rmdir(it->c_str());
}
static void setroot(const Opt& r) { if (r.there) setenv("A0_ROOT", r.s.c_str(), 1); else unsetenv("A0_ROOT"); }
static a0_file_options_t small() { a0_file_options_t o = A0_FILE_OPTIONS_DEFAULT; o.create_options.size = 4096 * 2; return o; }
static a0::File::Options csmall() { auto o = a0::File::Options::DEFAULT; o.create_options.size = 4096 * 2; return o; }
// a view into the middle of a longer text
struct View {
  std::string hold;
  size_t n;
  explicit View(const std::string& s) : hold(s + "XY/{topic}"), n(s.size()) {}
  a0::string_view v() const { return a0::string_view(hold.data(), n); }
};

static void tpath(const Opt& tmpl, const Opt& topic, bool cpp) {
  std::string r, s;
  if (cpp) {
    if (!tmpl.there || !topic.there) return;
    View a(tmpl.s), b(topic.s);
    r = guarded([&] { s = a0::topic_path(a.v(), b.v()); });
  } else {
    const char* p = nullptr;
    a0_err_t e = a0_topic_path(tmpl.c(), topic.c(), &p);
    r = errname(e);
    if (!e) { s = p; free((void*)p); }
  }
  one(J().str("o", "tpath").b("cpp", cpp).arr("tmpl", tmpl.j()).arr("topic", topic.j()).str("r", r).arr("s", codes(s)));
}
static void topen(const Opt& root, const Opt& tmpl, const Opt& topic, bool cpp) {
  setroot(root);
  auto before = files();
  std::string r;
  std::vector<ll> path = NONE;
  std::vector<std::string> made;
  if (cpp) {
    if (!tmpl.there || !topic.there) return;
    View a(tmpl.s), b(topic.s);
    r = guarded([&] { a0::File f = a0::topic_open(a.v(), b.v(), csmall()); path = codes(f.path()); made = minus(files(), before); });
  } else {
    a0_file_t f;
    auto o = small();
    a0_err_t e = a0_topic_open(tmpl.c(), topic.c(), &o, &f);
    r = errname(e);
    if (!e) { path = codes(f.path); made = minus(files(), before); a0_file_close(&f); }
  }
  if (r != "ok") made = minus(files(), before);
  one(J().str("o", "topen").b("cpp", cpp).arr("root", root.j()).arr("tmpl", tmpl.j()).arr("topic", topic.j()).str("r", r).arr("path", path).raw("made", js(made)));
  wipe();
}
static void fopen_(const Opt& root, const Opt& p, bool cpp) {
  setroot(root);
  auto before = files();
  std::string r;
  std::vector<ll> path = NONE;
  if (cpp) {
    if (!p.there) return;
    View a(p.s);
    r = guarded([&] { a0::File f(a.v(), csmall()); path = codes(f.path()); });
  } else {
    a0_file_t f;
    auto o = small();
    a0_err_t e = a0_file_open(p.c(), &o, &f);
    r = errname(e);
    if (!e) { path = codes(f.path); a0_file_close(&f); }
  }
  one(J().str("o", "fopen").b("cpp", cpp).arr("root", root.j()).arr("p", p.j()).str("r", r).arr("path", path).raw("made", js(minus(files(), before))));
  wipe();
}

static const char* PROTO[] = {"pubsub", "rpc", "prpc", "log", "cfg", "deadman"};
static const char* VAR[] = {"A0_TOPIC_TMPL_PUBSUB", "A0_TOPIC_TMPL_RPC", "A0_TOPIC_TMPL_PRPC", "A0_TOPIC_TMPL_LOG", "A0_TOPIC_TMPL_CFG", "A0_TOPIC_TMPL_DEADMAN"};
static const int KINDS[] = {5, 2, 2, 2, 2, 1};
static void nop_pkt(void*, a0_packet_t) {}

// opens and closes one object of the protocol; kind: which of its objects
static std::string touch(int proto, int kind, const std::string& name, bool cpp) {
  auto fo = small();
  auto co = csmall();
  a0_reader_options_t ro = A0_READER_OPTIONS_DEFAULT;
  if (cpp) return guarded([&] {
    switch (proto * 10 + kind) {
      case 0: { a0::Publisher x(a0::PubSubTopic(name, co)); break; }
      case 1: { a0::SubscriberSync x(a0::PubSubTopic(name, co), a0::INIT_OLDEST); break; }
      case 2: { a0::SubscriberSyncZeroCopy x(a0::PubSubTopic(name, co), a0::INIT_OLDEST); break; }
      case 3: { a0::Subscriber x(a0::PubSubTopic(name, co), [](a0::Packet) {}); break; }
      case 4: { a0::SubscriberZeroCopy x(a0::PubSubTopic(name, co), [](a0::TransportLocked, a0::FlatPacket) {}); break; }
      case 10: { a0::RpcServer x(a0::RpcTopic(name, co), [](a0::RpcRequest) {}, [](a0::string_view) {}); break; }
      case 11: { a0::RpcClient x(a0::RpcTopic(name, co)); break; }
      case 20: { a0::PrpcServer x(a0::PrpcTopic(name, co), [](a0::PrpcConnection) {}, [](a0::string_view) {}); break; }
      case 21: { a0::PrpcClient x(a0::PrpcTopic(name, co)); break; }
      case 30: { a0::Logger x(a0::LogTopic(name, co)); break; }
      case 31: { a0::LogListener x(a0::LogTopic(name, co), a0::LogLevel::INFO, [](a0::Packet) {}); break; }
      case 40: { a0::Cfg x(a0::CfgTopic(name, co)); break; }
      case 41: { a0::CfgWatcher x(a0::CfgTopic(name, co), [](a0::Packet) {}); break; }
      case 50: { a0::Deadman x{a0::DeadmanTopic(name)}; break; }
    }
  });
  a0_err_t e = A0_OK;
  a0_pubsub_topic_t pt = {name.c_str(), &fo};
  a0_rpc_topic_t rt = {name.c_str(), &fo};
  a0_prpc_topic_t qt = {name.c_str(), &fo};
  a0_log_topic_t lt = {name.c_str(), &fo};
  a0_cfg_topic_t ct = {name.c_str(), &fo};
  a0_deadman_topic_t dt = {name.c_str()};
  switch (proto * 10 + kind) {
    case 0: { a0_publisher_t x; if (!(e = a0_publisher_init(&x, pt))) a0_publisher_close(&x); break; }
    case 1: { a0_subscriber_sync_t x; if (!(e = a0_subscriber_sync_init(&x, pt, heap(), ro))) a0_subscriber_sync_close(&x); break; }
    case 2: { a0_subscriber_sync_zc_t x; if (!(e = a0_subscriber_sync_zc_init(&x, pt, ro))) a0_subscriber_sync_zc_close(&x); break; }
    case 3: { a0_subscriber_t x; if (!(e = a0_subscriber_init(&x, pt, heap(), ro, {nullptr, nop_pkt}))) a0_subscriber_close(&x); break; }
    case 4: { a0_subscriber_zc_t x; if (!(e = a0_subscriber_zc_init(&x, pt, ro, {nullptr, [](void*, a0_transport_locked_t, a0_flat_packet_t) {}}))) a0_subscriber_zc_close(&x); break; }
    case 10: { a0_rpc_server_t x; if (!(e = a0_rpc_server_init(&x, rt, heap(), {nullptr, [](void*, a0_rpc_request_t) {}}, {nullptr, [](void*, a0_uuid_t) {}}))) a0_rpc_server_close(&x); break; }
    case 11: { a0_rpc_client_t x; if (!(e = a0_rpc_client_init(&x, rt, heap()))) a0_rpc_client_close(&x); break; }
    case 20: { a0_prpc_server_t x; if (!(e = a0_prpc_server_init(&x, qt, heap(), {nullptr, [](void*, a0_prpc_connection_t) {}}, {nullptr, [](void*, a0_uuid_t) {}}))) a0_prpc_server_close(&x); break; }
    case 21: { a0_prpc_client_t x; if (!(e = a0_prpc_client_init(&x, qt, heap()))) a0_prpc_client_close(&x); break; }
    case 30: { a0_logger_t x; if (!(e = a0_logger_init(&x, lt))) a0_logger_close(&x); break; }
    case 31: { a0_log_listener_t x; if (!(e = a0_log_listener_init(&x, lt, heap(), A0_LOG_LEVEL_INFO, ro, {nullptr, nop_pkt}))) a0_log_listener_close(&x); break; }
    case 40: { a0_cfg_t x; if (!(e = a0_cfg_init(&x, ct))) a0_cfg_close(&x); break; }
    case 41: { a0_cfg_watcher_t x; if (!(e = a0_cfg_watcher_init(&x, ct, heap(), {nullptr, nop_pkt}))) a0_cfg_watcher_close(&x); break; }
    case 50: { a0_deadman_t x; if (!(e = a0_deadman_init(&x, dt))) a0_deadman_close(&x); break; }
  }
  return errname(e);
}
static void proto(int p, int kind, const Opt& root, const Opt& tmpl, const std::string& name, bool cpp) {
  setroot(root);
  for (int q = 0; q < 6; q++) if (q == p && tmpl.there) setenv(VAR[q], tmpl.s.c_str(), 1); else unsetenv(VAR[q]);
  auto before = files();
  std::string r = touch(p, kind, name, cpp);
  auto mid = files();
  one(J().str("o", "proto").str("proto", PROTO[p]).i("kind", kind).b("cpp", cpp).arr("root", root.j()).arr("tmpl", tmpl.j()).arr("topic", codes(name)).str("r", r).raw("made", js(minus(mid, before))));
  if (r == "ok")
    for (int k = 0; k < KINDS[p]; k++) {
      r = touch(p, k, name, !cpp);
      one(J().str("o", "again").str("proto", PROTO[p]).i("kind", k).str("r", r).raw("made", js(minus(files(), mid))));
    }
  unsetenv(VAR[p]);
  wipe();
}

static void put(const std::string& p, bool dir) {
  std::string d;
  for (size_t i = 1; i < p.size(); i++) if (p[i] == '/') mkdir(p.substr(0, i).c_str(), 0777);
  if (dir) mkdir(p.c_str(), 0777);
  else { FILE* f = fopen(p.c_str(), "w"); if (f) { fwrite("0123456789abcdef", 1, 16, f); fclose(f); } }
}
// op on path p, with things of that name under every place it could be mistaken for
static void fop(const std::string& op, const Opt& root, const Opt& p, bool cpp) {
  setroot(root);
  bool dir = op != "open" && op != "remove";
  std::vector<std::string> places = {base + "/r1", base + "/r2/deep", base + "/r3", base + "/cwd", base};
  std::string rel = p.s;
  if (p.there && p.s.size()) {
    if (p.s[0] == '/') put(p.s, dir);
    else for (auto& q : places) put(q + "/" + rel, dir);
    if (dir) {
      std::vector<std::string> at;
      if (p.s[0] == '/') at = {p.s};
      else for (auto& q : places) at.push_back(q + "/" + rel);
      int n = 0;
      for (auto& q : at) { put(q + "/e" + std::to_string(n++), false); put(q + "/sub/x", false); }
    }
  }
  auto before = all();
  std::string r;
  std::vector<std::string> hit;
  auto norm = [](std::string s) { std::string o; for (char c : s) if (!(c == '/' && o.size() && o.back() == '/')) o += c; return o; };
  if (op == "open") {
    a0_file_t f;
    auto o = small();
    a0_err_t e = a0_file_open(p.c(), &o, &f);
    r = errname(e);
    if (!e) {
      for (auto& x : before) { struct stat st; if (!stat(x.c_str(), &st) && st.st_ino == f.stat.st_ino) hit.push_back(x); }
      a0_file_close(&f);
      for (auto& x : minus(all(), before)) hit.push_back(x);
    }
  } else if (op == "remove" || op == "remove_all") {
    View v(p.s);
    if (cpp) r = guarded([&] { if (op == "remove") a0::File::remove(v.v()); else a0::File::remove_all(v.v()); });
    else r = errname(op == "remove" ? a0_file_remove(p.c()) : a0_file_remove_all(p.c()));
    auto gone = minus(before, all());
    // of a removed tree only the top counts
    for (auto& x : gone) { bool top = true; for (auto& y : gone) if (x.size() > y.size() && !x.compare(0, y.size() + 1, y + "/")) top = false; if (top) hit.push_back(x); }
  } else {
    a0_file_iter_t it;
    a0_err_t e = a0_file_iter_init(&it, p.c());
    r = errname(e);
    if (!e) {
      a0_file_iter_entry_t en;
      std::set<std::string> parents, names;
      while (!a0_file_iter_next(&it, &en)) {
        std::string full = norm(en.fullpath);
        names.insert(full);
        if (full.substr(full.rfind('/') + 1) != en.filename) parents.insert("?");
        parents.insert(full.substr(0, full.rfind('/')));
      }
      a0_file_iter_close(&it);
      hit.assign(parents.begin(), parents.end());
      if (hit.size() == 1) {      // exactly the entries of that directory
        std::set<std::string> want;
        for (auto& x : before) if (x.size() > hit[0].size() && !x.compare(0, hit[0].size() + 1, hit[0] + "/") && x.find('/', hit[0].size() + 1) == std::string::npos) want.insert(x);
        if (want != names) hit.push_back("other entries");
      }
    }
  }
  one(J().str("o", "fop").str("op", op).b("cpp", cpp).arr("root", root.j()).arr("p", p.j()).str("r", r).raw("hit", js(hit)));
  wipe();
}

int main(int argc, char** argv) {
  if (argc < 5) return 99;
  base = argv[1];
  int nr = atoi(argv[2]);
  Rng rng(atoll(argv[3]));
  T().init(argv[4]);
  for (auto v : VAR) unsetenv(v);
  mkdir((base + "/cwd").c_str(), 0777);
  if (chdir((base + "/cwd").c_str())) return 99;
  auto fresh_cwd = [&] { mkdir((base + "/cwd").c_str(), 0777); if (chdir((base + "/cwd").c_str())) exit(99); };

  std::vector<Opt> tmpls = {Opt(), "", "{topic}", "{topic}.pubsub.a0", "x{topic}", "x{topic}y", "d/{topic}/e", "{topi}", "topic", "{topic", "{{topic}}", "{ topic }", "{TOPIC}", "a{topic", "{topi{topic}c}", "tmpl", "{topic}{topic}", "a/{topic}/b/{topic}.x", "{topic}-{topic}-{topic}", "{topic}.{topic"};
  std::vector<Opt> topics = {Opt(), "", "a", "/a", "//a", "///", "/", "a/b", "a.b", " ", "{topic}", "a{topic}", "{", "a//b", "x/y/z", "\xc3\xa9", "%s%n", std::string(300, 'q'), std::string(5000, 'q')};
  for (int k = 0; k < nr; k++) {
    std::string a, b;
    for (int n = rng.below(6); n > 0; n--) a += rng.chance(40) ? std::string("{topic}") : std::string(1, "a/{}.tc"[rng.below(7)]);
    for (int n = rng.below(6); n > 0; n--) b += "a/{}.tc"[rng.below(7)];
    tmpls.push_back(a);
    topics.push_back(b);
  }
  for (auto& t : tmpls) for (auto& n : topics) { if (n.s.size() > 100 && tmpls.size() > 40 && rng.chance(80)) continue; tpath(t, n, false); tpath(t, n, true); }

  std::vector<Opt> roots = {base + "/r1", base + "/r2/deep", base + "/r3/", "", "rel", "./rel"};
  for (auto& r : roots) for (bool cpp : {false, true}) {
    for (const char* t : {"{topic}.t", "d/{topic}", "{topic}/f", "none"}) for (const char* n : {"a", "a/b", "/a", "", "a.t", "b//c"}) { topen(r, t, n, cpp); fresh_cwd(); }
    topen(r, base + "/abs/{topic}", "a", cpp); fresh_cwd();
    for (auto& p : std::vector<Opt>{Opt(), "", "a", "a/b", "x//y", base + "/q", base + "//q2", base + "/q/w/e"}) { fopen_(r, p, cpp); fresh_cwd(); }
    for (int p = 0; p < 6; p++) for (int k = 0; k < KINDS[p]; k++) {
      proto(p, k, r, Opt(), "a", cpp); fresh_cwd();
      if (k == 0) {
        proto(p, k, r, Opt(), "d/e", cpp); fresh_cwd();
        proto(p, k, r, Opt(), "/d", cpp); fresh_cwd();
        proto(p, k, r, Opt(), "", cpp); fresh_cwd();
      }
      proto(p, k, r, "zz/{topic}.mine", "n", cpp); fresh_cwd();
      if (k == 0) { proto(p, k, r, "", "n", cpp); fresh_cwd(); proto(p, k, r, "nothing", "n", cpp); fresh_cwd(); proto(p, k, r, base + "/abs/{topic}", "n", cpp); fresh_cwd(); }
    }
    for (const char* op : {"open", "remove", "remove_all", "iter"})
      for (auto& p : std::vector<Opt>{Opt(), "", "a", "a/b", base + "/q", base + "/q/w"}) { if (cpp && !p.there) continue; fresh_cwd(); fop(op, r, p, cpp); }
  }
  if (T().open_) T().end();
  if (chdir("/")) return 99;
  wipe();
  return 0;
}
