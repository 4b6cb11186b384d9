#include "sim.hpp"
#include <errno.h>
#include <limits.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <map>
#include <memory>

extern "C" {
long __real_syscall(long, ...);
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
pthread_t __real_pthread_self(void);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __real_memmove(void*, const void*, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_once(pthread_once_t*, void (*)(void));
}

namespace sim {

void (*fs_hook)() = nullptr;

// ------------------------------------------------------------------ coroutines

static const size_t STACK = 128 * 1024;
enum State { RUN, BLOCK, DONE, DEAD };
enum Wait { W_NONE, W_FUTEX, W_PI, W_REQ, W_JOIN, W_COND, W_PMUTEX };

struct Th {
  int id = 0;
  std::function<void()> fn;
  void* (*cfn)(void*) = nullptr;
  void* carg = nullptr;
  bool mortal = false;
  State st = RUN;
  Wait w = W_NONE;
  uint32_t* addr = nullptr;      // futex word slept on
  uint32_t* addr2 = nullptr;     // W_REQ: mutex to be requeued to
  bool requeued = false;
  bool fresh = false;            // has just executed an atomic or a system call
  uint32_t bitset = ~0u;
  uint64_t deadline = 0;         // boot time, 0 = none
  int joinee = 0;
  std::function<bool()> cond;
  pthread_mutex_t* pm = nullptr;
  int res = 0;                   // result of the blocking call (errno or 0)
  void* sp = nullptr;
  uint8_t* stack = nullptr;
  std::vector<uint8_t> tls;
  struct robust_list_head* robust = nullptr;
  int streak = 0;
  long last = 0;   // when it last got its turn
  int tid() const { return 1000 + id; }
};

static std::vector<std::unique_ptr<Th>> ths;
static Th* cur = nullptr;
static void* main_sp = nullptr;
static std::vector<uint8_t*> stacks;
static uint8_t* tls_block = nullptr;
static size_t tls_size = 0;
static std::vector<uint8_t> tls_init, tls_main;
static uint64_t now_ns;
static uint8_t* shm = nullptr;
static const size_t SHM = 1 << 16;
static std::vector<std::pair<uintptr_t, uintptr_t>> regions;
static std::map<uintptr_t, uintptr_t> heap;      // what the library has allocated
static std::function<void(int)> death_cb;
static std::map<pthread_mutex_t*, int> pmutex;  // holder
static struct robust_list_head* main_robust = nullptr;

static int tls_cb(struct dl_phdr_info* info, size_t, void*) {
  for (int i = 0; i < info->dlpi_phnum; i++)
    if (info->dlpi_phdr[i].p_type == PT_TLS && info->dlpi_name[0] == 0) {
      tls_block = (uint8_t*)info->dlpi_tls_data;
      tls_size = info->dlpi_phdr[i].p_memsz;
      tls_init.assign(tls_size, 0);
      const uint8_t* img = (const uint8_t*)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr);
      __real_memcpy(tls_init.data(), img, info->dlpi_phdr[i].p_filesz);
    }
  return info->dlpi_name[0] == 0 ? 1 : 0;
}

extern "C" void sim_switch(void** save, void* to);
asm(R"(
.text
.globl sim_switch
sim_switch:
  push %rbp
  push %rbx
  push %r12
  push %r13
  push %r14
  push %r15
  mov %rsp, (%rdi)
  mov %rsi, %rsp
  pop %r15
  pop %r14
  pop %r13
  pop %r12
  pop %rbx
  pop %rbp
  ret
)");

static void to_main() {
  Th* t = cur;
  if (tls_size) { __real_memcpy(t->tls.data(), tls_block, tls_size); __real_memcpy(tls_block, tls_main.data(), tls_size); }
  cur = nullptr;
  sim_switch(&t->sp, main_sp);
}

static void to_thread(Th* t) {
  if (tls_size) { __real_memcpy(tls_main.data(), tls_block, tls_size); __real_memcpy(tls_block, t->tls.data(), tls_size); }
  cur = t;
  sim_switch(&main_sp, t->sp);
}

static void wake_joiners(Th* t) {
  for (auto& o : ths) if (o->st == BLOCK && o->w == W_JOIN && o->joinee == t->id) { o->st = RUN; o->w = W_NONE; o->res = 0; }
}

static void entry() {
  Th* t = cur;
  if (t->cfn) t->cfn(t->carg); else t->fn();
  t->st = DONE;
  wake_joiners(t);
  to_main();
  abort();
}

static Th* make(bool mortal) {
  Th* t = new Th;
  t->id = ths.size() + 1;
  t->mortal = mortal;
  ths.emplace_back(t);
  if (stacks.empty()) {
    uint8_t* p = (uint8_t*)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(p, 4096, PROT_NONE);
    stacks.push_back(p + 4096);
  }
  t->stack = stacks.back();
  stacks.pop_back();
  t->tls = tls_init;
  uintptr_t top = (uintptr_t)(t->stack + STACK) & ~15ull;
  void** sp = (void**)top;
  *--sp = nullptr;             // alignment
  *--sp = (void*)entry;
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  t->sp = sp;
  return t;
}

// ------------------------------------------------------------------ schedule

struct Choice { int taken; int n; };
enum Kind { C_CONT, C_SWITCH, C_KILL, C_TICK, C_KILLBLOCKED, C_SPUR };
struct Alt { Kind k; int who; };

static Config cfg;
static std::vector<std::pair<int, int>> path;   // (taken, number of alternatives) along this run
static size_t depth;
static std::vector<int> prefix;
static bool random_mode;
static uint64_t rng;
static int sw_pct, kill_pm, tick_pm;
static int used_pre, used_kill, used_tick, used_spur;
static long points;
static bool livelock;

static uint64_t rnd() {
  uint64_t z = (rng += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

static bool timed_sleeper(uint64_t* at) {
  bool any = false;
  for (auto& t : ths) if (t->st == BLOCK && t->deadline) { if (!any || t->deadline < *at) *at = t->deadline; any = true; }
  return any;
}

static int pick(const std::vector<Alt>& a) {
  if (a.size() == 1) return 0;
  int c;
  if (random_mode) {
    // first alternative is the default
    c = 0;
    int r = rnd() % 1000;
    if (a[0].k == C_CONT) {
      if (r < sw_pct * 10) {
        std::vector<int> sw;
        for (size_t i = 1; i < a.size(); i++) if (a[i].k == C_SWITCH) sw.push_back(i);
        if (!sw.empty()) c = sw[rnd() % sw.size()];
      }
    } else {
      std::vector<int> sw;
      for (size_t i = 0; i < a.size(); i++) if (a[i].k == C_SWITCH) sw.push_back(i);
      if (!sw.empty()) c = sw[rnd() % sw.size()];
    }
    r = rnd() % 1000;
    for (size_t i = 0; i < a.size(); i++) {
      if ((a[i].k == C_KILL || a[i].k == C_KILLBLOCKED) && r < kill_pm) { c = i; break; }
      if ((a[i].k == C_TICK || a[i].k == C_SPUR) && r >= 1000 - tick_pm) { c = i; break; }
    }
    return c;
  }
  if (depth < prefix.size()) c = prefix[depth]; else c = 0;
  if (c >= (int)a.size()) { fprintf(stderr, "sim: schedule prefix does not apply (nondeterministic run)\n"); _exit(99); }
  path.push_back({c, (int)a.size()});
  depth++;
  return c;
}

// ------------------------------------------------------------------ kernel: time

static std::function<void(long, const std::vector<int>&)> tick_cb;
static void tick() {
  uint64_t at = 0;
  if (!timed_sleeper(&at)) return;
  if (tick_cb) {
    // Only while nobody can run is being asleep a statement about the code: otherwise someone may be half way through
    // releasing what the sleeper needs.
    std::vector<int> asleep;
    bool busy = false;
    for (auto& t : ths) if (t->st == RUN) busy = true;
    for (auto& t : ths) if (!busy && t->st == BLOCK && t->w != W_COND) asleep.push_back(t->id);
    tick_cb((long)((at - T0 + MS - 1) / MS), asleep);
  }
  if (at > now_ns) now_ns = at;
  for (auto& t : ths)
    if (t->st == BLOCK && t->deadline && t->deadline <= now_ns) { t->st = RUN; t->w = W_NONE; t->res = ETIMEDOUT; t->deadline = 0; }
}

// ------------------------------------------------------------------ kernel: futex

static uint32_t ld(uint32_t* a) { return __atomic_load_n(a, __ATOMIC_SEQ_CST); }
static void st(uint32_t* a, uint32_t v) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }

static std::deque<Th*> fifo;  // order in which sleepers arrived

static void enqueue(Th* t) { fifo.push_back(t); }
static void dequeue(Th* t) { for (auto it = fifo.begin(); it != fifo.end(); ++it) if (*it == t) { fifo.erase(it); return; } }

static void run_again(Th* t, int res) { t->st = RUN; t->w = W_NONE; t->res = res; t->deadline = 0; dequeue(t); }

static bool has_pi_waiter(uint32_t* a) {
  for (Th* t : fifo) if (t->st == BLOCK && t->addr == a && (t->w == W_PI || (t->w == W_REQ && t->requeued))) return true;
  return false;
}
static Th* top_pi_waiter(uint32_t* a) {
  for (Th* t : fifo) if (t->st == BLOCK && t->addr == a && (t->w == W_PI || (t->w == W_REQ && t->requeued))) return t;
  return nullptr;
}

static bool alive_tid(uint32_t tid) {
  if (tid == 1000) return true;
  for (auto& t : ths) if ((uint32_t)t->tid() == tid) return t->st != DEAD;
  return false;
}

// Give the lock to the longest waiter. keep: flags of the old word that stay.
static bool hand_over(uint32_t* a, uint32_t keep) {
  Th* t = top_pi_waiter(a);
  if (!t) return false;
  run_again(t, 0);
  st(a, keep | FUTEX_WAITERS | t->tid());
  return true;
}

static int futex_wake(uint32_t* a, int n, uint32_t bitset = ~0u) {
  int done = 0;
  std::vector<Th*> v;
  for (Th* t : fifo) if (t->st == BLOCK && t->addr == a) {
    if (t->w != W_FUTEX) { if (v.empty()) { errno = EINVAL; return -1; } break; }
    if ((t->bitset & bitset) && done < n) { v.push_back(t); done++; }
  }
  for (Th* t : v) run_again(t, 0);
  return done;
}

static uint64_t abs_boot(const struct timespec* ts, int clk);

static int block(Wait w, uint32_t* addr, uint64_t deadline);

static int mytid() { return cur ? cur->tid() : 1000; }

static long fail(int e) { errno = e; return -1; }

static bool bad_ts(const struct timespec* ts) { return ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000; }

static const int LOCK_PI2 = 13;  // not in every header

static long do_futex(uint32_t* uaddr, int op, uint32_t val, const struct timespec* ts, uint32_t* uaddr2, uint32_t val3) {
  int cmd = op & 127;
  uint32_t val2 = (uint32_t)(uintptr_t)ts;
  switch (cmd) {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET: {
      uint64_t dl = 0;
      if (ts) {
        if (bad_ts(ts)) return fail(EINVAL);
        if (cmd == FUTEX_WAIT) dl = now_ns + ts->tv_sec * 1000000000ull + ts->tv_nsec;
        else dl = abs_boot(ts, (op & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC);
      }
      if (ld(uaddr) != val) return fail(EAGAIN);
      if (ts && dl <= now_ns) return fail(ETIMEDOUT);
      if (!cur) { fprintf(stderr, "sim: sleeping during setup\n"); _exit(98); }
      cur->bitset = cmd == FUTEX_WAIT_BITSET ? val3 : ~0u;
      int r = block(W_FUTEX, uaddr, dl);
      return r ? fail(r) : 0;
    }
    case FUTEX_WAKE: return futex_wake(uaddr, (int)val);
    case FUTEX_WAKE_BITSET: return val3 ? futex_wake(uaddr, (int)val, val3) : fail(EINVAL);
    case FUTEX_REQUEUE:
    case FUTEX_CMP_REQUEUE: {
      if (cmd == FUTEX_CMP_REQUEUE && ld(uaddr) != val3) return fail(EAGAIN);
      int n = futex_wake(uaddr, (int)val);
      if (n < 0) return n;
      std::vector<Th*> v;
      for (Th* t : fifo) if (t->st == BLOCK && t->addr == uaddr && t->w == W_FUTEX && v.size() < val2) v.push_back(t);
      for (Th* t : v) { t->addr = uaddr2; dequeue(t); enqueue(t); }
      return n + (int)v.size();
    }
    case LOCK_PI2:
    case FUTEX_LOCK_PI:
    case FUTEX_TRYLOCK_PI: {
      uint64_t dl = 0;
      if (cmd != FUTEX_TRYLOCK_PI && ts) {
        if (bad_ts(ts)) return fail(EINVAL);
        dl = abs_boot(ts, cmd == FUTEX_LOCK_PI || (op & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC);
      }
      while (true) {
        uint32_t v = ld(uaddr);
        if ((v & FUTEX_TID_MASK) == (uint32_t)mytid()) return fail(EDEADLK);
        if (!(v & FUTEX_TID_MASK) && !has_pi_waiter(uaddr)) {
          st(uaddr, (v & FUTEX_OWNER_DIED) | (v & FUTEX_WAITERS & 0) | mytid());
          return 0;
        }
        if (cmd == FUTEX_TRYLOCK_PI) return fail(EAGAIN);
        if ((v & FUTEX_TID_MASK) && !alive_tid(v & FUTEX_TID_MASK)) return fail(ESRCH);
        st(uaddr, v | FUTEX_WAITERS);
        if (ts && dl <= now_ns) return fail(ETIMEDOUT);
        if (!cur) { fprintf(stderr, "sim: lock blocks during setup\n"); _exit(98); }
        int r = block(W_PI, uaddr, dl);
        return r ? fail(r) : 0;
      }
    }
    case FUTEX_UNLOCK_PI: {
      uint32_t v = ld(uaddr);
      if ((v & FUTEX_TID_MASK) != (uint32_t)mytid()) return fail(EPERM);
      if (!hand_over(uaddr, 0)) st(uaddr, 0);
      return 0;
    }
    case FUTEX_CMP_REQUEUE_PI: {
      if (val != 1) return fail(EINVAL);
      if (uaddr == uaddr2) return fail(EINVAL);
      if (ld(uaddr) != val3) return fail(EAGAIN);
      int count = 0;
      std::vector<Th*> v;
      for (Th* t : fifo) if (t->st == BLOCK && t->addr == uaddr) {
        if (t->w != W_REQ || t->requeued || t->addr2 != uaddr2) return fail(EINVAL);
        v.push_back(t);
      }
      for (Th* t : v) {
        if (count - 1 >= (int)val2) break;
        uint32_t m = ld(uaddr2);
        count++;
        if (!(m & FUTEX_TID_MASK) && !has_pi_waiter(uaddr2)) {  // free: it gets the lock right away
          st(uaddr2, (m & FUTEX_OWNER_DIED) | (val2 ? FUTEX_WAITERS : 0) | t->tid());
          run_again(t, 0);
        } else {
          if (!alive_tid(m & FUTEX_TID_MASK)) return fail(ESRCH);
          st(uaddr2, m | FUTEX_WAITERS);
          t->addr = uaddr2;
          t->requeued = true;
          dequeue(t);
          enqueue(t);
        }
      }
      return count;
    }
    case FUTEX_WAIT_REQUEUE_PI: {
      uint64_t dl = 0;
      if (ts) {
        if (bad_ts(ts)) return fail(EINVAL);
        dl = abs_boot(ts, (op & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC);
      }
      if (uaddr == uaddr2) return fail(EINVAL);
      if (ld(uaddr) != val) return fail(EAGAIN);
      if (ts && dl <= now_ns) return fail(ETIMEDOUT);
      if (!cur) { fprintf(stderr, "sim: sleeping during setup\n"); _exit(98); }
      cur->addr2 = uaddr2;
      cur->requeued = false;
      int r = block(W_REQ, uaddr, dl);
      return r ? fail(r) : 0;
    }
    default:
      fprintf(stderr, "sim: futex operation %d is not simulated\n", cmd);
      _exit(99);
  }
}

// Death: what the kernel does with the locks a thread leaves behind.
static void futex_death(Th* t, uint32_t* a, bool pending) {
  uint32_t v = ld(a);
  uint32_t owner = v & FUTEX_TID_MASK;
  if (pending && !owner) { int e = errno; futex_wake(a, 1); errno = e; return; }
  if (owner != (uint32_t)t->tid()) return;
  st(a, (v & FUTEX_WAITERS) | FUTEX_OWNER_DIED);
  if (has_pi_waiter(a)) { hand_over(a, FUTEX_OWNER_DIED); return; }
  if (v & FUTEX_WAITERS) { int e = errno; futex_wake(a, 1); errno = e; }
}

static void kill_thread(Th* t) {
  // its thread-local record, wherever it currently is
  uint8_t* tls = (t == cur) ? tls_block : t->tls.data();
  State old = t->st;
  if (old == BLOCK) dequeue(t);
  t->st = DEAD;
  t->deadline = 0;
  if (t->robust) {
    auto at = [&](void* p) -> void* {  // translate an address inside the thread-local block
      uint8_t* q = (uint8_t*)p;
      if (q >= tls_block && q < tls_block + tls_size) return tls + (q - tls_block);
      return p;
    };
    struct robust_list_head* h = (struct robust_list_head*)at(t->robust);
    struct robust_list* pend = h->list_op_pending;
    struct robust_list* e = h->list.next;
    int limit = 2048;
    while (e && e != &t->robust->list && --limit) {
      struct robust_list* nxt = e->next;
      if (e != pend) futex_death(t, (uint32_t*)((uint8_t*)e + h->futex_offset), false);
      e = nxt;
    }
    if (pend) futex_death(t, (uint32_t*)((uint8_t*)pend + h->futex_offset), true);
  }
  // priority-inheritance locks it owned without having recorded them are handed on too
  for (bool again = true; again;) {
    again = false;
    for (Th* o : fifo)
      if (o->st == BLOCK && (o->w == W_PI || (o->w == W_REQ && o->requeued)) && (ld(o->addr) & FUTEX_TID_MASK) == (uint32_t)t->tid()) {
        hand_over(o->addr, FUTEX_OWNER_DIED);
        again = true;
        break;
      }
  }
  for (auto& m : pmutex) if (m.second == t->id) m.second = -1;
  if (death_cb) death_cb(t->id);
  wake_joiners(t);
}

// ------------------------------------------------------------------ choosing what happens next

static long turn;
// Who could run, longest waiting first: the default choice is fair.
static std::vector<Th*> by_turn() {
  std::vector<Th*> v;
  for (auto& t : ths) if (t->st == RUN) v.push_back(t.get());
  std::stable_sort(v.begin(), v.end(), [](Th* a, Th* b) { return a->last < b->last; });
  return v;
}

// Called in a thread at a point where it could go on.
static void decide() {
  Th* me = cur;
  if (!me) return;
  if (++points > 60000) {
    livelock = true;
    to_main();  // never resumed
  }
  std::vector<Alt> a;
  bool others = false;
  for (auto& t : ths) if (t.get() != me && t->st == RUN) others = true;
  bool forced = ++me->streak > 400 && others;
  if (!forced) a.push_back({C_CONT, me->id});
  if (forced || random_mode || used_pre < cfg.preemptions)
    for (Th* t : by_turn()) if (t != me && (!forced || a.empty())) a.push_back({C_SWITCH, t->id});
  if (!forced) {
    if (me->mortal && used_kill < cfg.kills) a.push_back({C_KILL, me->id});
    uint64_t at;
    if (used_tick < cfg.ticks && (random_mode || used_pre < cfg.preemptions) && timed_sleeper(&at)) a.push_back({C_TICK, 0});
  }
  if (a.size() == 1 && a[0].k == C_CONT) return;
  Alt x = a[pick(a)];
  switch (x.k) {
    case C_CONT: return;
    case C_SWITCH:
      if (!forced) used_pre++;
      me->streak = 0;
      // back to the scheduler with a request to run that thread
      me->res = 0;
      {
        extern int next_thread;
        next_thread = x.who;
      }
      to_main();
      return;
    case C_KILL:
      used_kill++;
      kill_thread(me);
      to_main();
      abort();
    case C_TICK:
      used_tick++;
      used_pre++;
      tick();
      return;
    default: return;
  }
}

int next_thread = 0;

static int block(Wait w, uint32_t* addr, uint64_t deadline) {
  Th* me = cur;
  me->st = BLOCK;
  me->w = w;
  me->addr = addr;
  me->deadline = deadline;
  me->streak = 0;
  me->res = 0;
  enqueue(me);
  to_main();
  dequeue(me);
  me->deadline = 0;
  return me->res;
}

// The scheduler proper: runs outside of threads.
static void run_all(Outcome* out) {
  while (true) {
    if (livelock) break;
    Th* nxt = nullptr;
    if (next_thread) {
      nxt = ths[next_thread - 1].get();
      next_thread = 0;
      if (nxt->st != RUN) nxt = nullptr;
    }
    if (!nxt) {
      // a harness-level condition may have come true
      for (auto& t : ths) if (t->st == BLOCK && t->w == W_COND && t->cond()) { t->st = RUN; t->w = W_NONE; }
      for (auto& t : ths) if (t->st == BLOCK && t->w == W_PMUTEX && pmutex[t->pm] == 0) { t->st = RUN; t->w = W_NONE; }
      std::vector<Alt> a;
      for (Th* t : by_turn()) a.push_back({C_SWITCH, t->id});
      uint64_t at;
      bool timer = timed_sleeper(&at);
      if (timer && (a.empty() || used_tick < cfg.ticks)) a.push_back({C_TICK, 0});
      if (!a.empty() && used_kill < cfg.kills)
        for (auto& t : ths) if (t->st == BLOCK && t->mortal && t->w != W_COND) a.push_back({C_KILLBLOCKED, t->id});
      if (used_spur < cfg.spurious)
        for (auto& t : ths) if (t->st == BLOCK && t->w == W_FUTEX) a.push_back({C_SPUR, t->id});
      if (a.empty()) break;
      if (a.size() == 1 && a[0].k == C_SPUR) break;
      Alt x = a[pick(a)];
      if (x.k == C_TICK) { used_tick++; tick(); continue; }
      if (x.k == C_KILLBLOCKED) { used_kill++; kill_thread(ths[x.who - 1].get()); continue; }
      if (x.k == C_SPUR) { used_spur++; run_again(ths[x.who - 1].get(), EINTR); continue; }
      nxt = ths[x.who - 1].get();
    }
    nxt->streak = 0;
    nxt->last = ++turn;
    to_thread(nxt);
  }
  out->blocked.clear();
  out->livelock = livelock;
  for (auto& t : ths) if (t->st == BLOCK || (livelock && t->st == RUN)) out->blocked.push_back(t->id);
}

// ------------------------------------------------------------------ public interface

int spawn(std::function<void()> fn, bool mortal) {
  Th* t = make(mortal);
  t->fn = std::move(fn);
  return t->id;
}
int self() { return cur ? cur->id : 0; }
uint64_t clock_step;
long now_ms() { return (long)((now_ns - T0) / MS); }
uint8_t* shared() { return shm; }
size_t shared_size() { return SHM; }
void region(void* p, size_t n) { regions.push_back({(uintptr_t)p, (uintptr_t)p + n}); }
void point() { decide(); }
int tid_of(int t) { return 1000 + t; }
void on_death(std::function<void(int)> f) { death_cb = std::move(f); }
void on_tick(std::function<void(long, const std::vector<int>&)> f) { tick_cb = std::move(f); }
bool finished(int t) { return ths[t - 1]->st == DONE; }
bool dead(int t) { return ths[t - 1]->st == DEAD; }
bool sleeping(int t) { return ths[t - 1]->st == BLOCK; }
void mortal(bool on) { if (cur) cur->mortal = on; }
void wait_for(std::function<bool()> cond) {
  if (!cur) return;
  if (cond()) return;
  cur->cond = std::move(cond);
  cur->st = BLOCK;
  cur->w = W_COND;
  cur->deadline = 0;
  to_main();
}

static void reset() {
  for (auto& t : ths) stacks.push_back(t->stack);
  ths.clear();
  fifo.clear();
  regions.clear();
  heap.clear();
  pmutex.clear();
  cur = nullptr;
  next_thread = 0;
  death_cb = nullptr;
  tick_cb = nullptr;
  now_ns = T0;
  path.clear();
  depth = 0;
  used_pre = used_kill = used_tick = used_spur = 0;
  points = 0;
  livelock = false;
  __real_memset(shm, 0, SHM);
  if (tls_size) __real_memcpy(tls_block, tls_main.data(), tls_size);
}

static void init_once() {
  static bool done = false;
  if (done) return;
  done = true;
  dl_iterate_phdr(tls_cb, nullptr);
  shm = (uint8_t*)mmap(nullptr, SHM, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  tls_main.assign(tls_size, 0);
  if (tls_size) __real_memcpy(tls_main.data(), tls_block, tls_size);
}

Outcome explore(const Config& c, std::function<void()> setup, std::function<void(const Outcome&)> finish) {
  init_once();
  cfg = c;
  Outcome o;
  prefix.clear();
  random_mode = false;
  // Systematic part. A prefix of choices is replayed, then defaults are taken; the deepest choice with alternatives left
  // is changed next.
  // Few forced switches first, so that a capped search has seen the simplest schedules everywhere.
  bool more = false;
  for (int bound = 0; bound <= c.preemptions && o.runs < c.max_runs; bound++) {
   cfg.preemptions = bound;
   prefix.clear();
   more = true;
   while (more && o.runs < c.max_runs) {
    reset();
    setup();
    run_all(&o);
    finish(o);
    o.runs++;
    more = false;
    for (int i = (int)path.size() - 1; i >= 0; i--)
      if (path[i].first + 1 < path[i].second) {
        prefix.clear();
        for (int j = 0; j < i; j++) prefix.push_back(path[j].first);
        prefix.push_back(path[i].first + 1);
        more = true;
        break;
      }
   }
  }
  o.truncated = more;
  random_mode = true;
  for (long r = 0; r < c.random_runs; r++) {
    reset();
    rng = c.seed * 0x9E3779B97F4A7C15ull + r * 0xD1B54A32D192ED03ull;
    rnd();
    static const int sws[] = {3, 8, 20, 45};
    static const int kl[] = {0, 8, 30, 80};
    static const int tk[] = {0, 2, 15, 60};
    sw_pct = sws[rnd() % 4];
    kill_pm = kl[rnd() % 4];
    tick_pm = tk[rnd() % 4];
    setup();
    run_all(&o);
    finish(o);
    o.runs++;
  }
  reset();
  return o;
}

bool parallel(int workers, size_t n, std::function<void(size_t)> job) {
  std::map<pid_t, size_t> live;
  size_t next = 0;
  bool ok = true;
  while (next < n || !live.empty()) {
    while ((int)live.size() < workers && next < n) {
      fflush(stdout);
      pid_t p = fork();
      if (p == 0) {
        job(next);
        fflush(stdout);
        _exit(0);
      }
      live[p] = next++;
    }
    int stt;
    pid_t p = wait(&stt);
    if (p > 0 && live.count(p)) {
      if (!WIFEXITED(stt) || WEXITSTATUS(stt)) {
        fprintf(stderr, "job %zu ended with status %x\n", live[p], stt);
        ok = false;
      }
      live.erase(p);
    }
  }
  return ok;
}

static uint64_t clk_off(int clk) {
  // the clocks disagree, so that a deadline in the wrong clock shows
  switch (clk) {
    case CLOCK_BOOTTIME: return 0;
    case CLOCK_MONOTONIC: return (uint64_t)-(300ll * 1000000000ll + 123456789);
    default: return 1600000000ull * 1000000000ull + 987654321;
  }
}
static uint64_t abs_boot(const struct timespec* ts, int clk) {
  return (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec - clk_off(clk);
}

static inline bool interesting(const void* p) {
  uintptr_t a = (uintptr_t)p;
  if (a >= (uintptr_t)shm && a < (uintptr_t)shm + SHM) return true;
  for (auto& r : regions) if (a >= r.first && a < r.second) return true;
  if (!cfg.fine || heap.empty()) return false;
  auto it = heap.upper_bound(a);
  return it != heap.begin() && a < (--it)->second;
}
// Without "fine", plain accesses are points only right after an atomic or a system call: that is where a lock may just
// have been released.
static inline void access(const void* p) {
  if (cur && (cfg.fine || (cur->fresh)) && interesting(p)) { cur->fresh = false; decide(); }
}
static inline void atomic_access(const void* p) {
  if (cur && interesting(p)) { decide(); cur->fresh = true; }
}
}  // namespace sim

using namespace sim;

// ------------------------------------------------------------------ wrapped calls

extern "C" {

void* sim_malloc(size_t n) { void* p = malloc(n); if (p) heap[(uintptr_t)p] = (uintptr_t)p + n; return p; }
void* sim_calloc(size_t k, size_t n) { void* p = calloc(k, n); if (p) heap[(uintptr_t)p] = (uintptr_t)p + k * n; return p; }
void sim_free(void* p) { heap.erase((uintptr_t)p); free(p); }
void* sim_realloc(void* o, size_t n) { heap.erase((uintptr_t)o); void* p = realloc(o, n); if (p) heap[(uintptr_t)p] = (uintptr_t)p + n; return p; }

long __wrap_syscall(long nr, ...) {
  va_list ap;
  va_start(ap, nr);
  long a[6];
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  switch (nr) {
    case SYS_gettid: return shm ? mytid() : __real_syscall(nr);
    case SYS_set_robust_list:
      if (!shm) return __real_syscall(nr, a[0], a[1]);
      if (cur) cur->robust = (struct robust_list_head*)a[0]; else main_robust = (struct robust_list_head*)a[0];
      return 0;
    case SYS_futex:
      if (cur) { decide(); cur->fresh = true; }
      return do_futex((uint32_t*)a[0], (int)a[1], (uint32_t)a[2], (const struct timespec*)a[3], (uint32_t*)a[4], (uint32_t)a[5]);
    default: return __real_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
  }
}

int __wrap_clock_gettime(clockid_t c, struct timespec* ts) {
  if (!shm) return __real_clock_gettime(c, ts);
  now_ns += sim::clock_step;
  uint64_t t = now_ns + clk_off(c);
  ts->tv_sec = t / 1000000000ull;
  ts->tv_nsec = t % 1000000000ull;
  return 0;
}

int __wrap_pthread_create(pthread_t* out, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  if (cur) decide();
  Th* t = make(false);
  t->cfn = fn;
  t->carg = arg;
  *out = (pthread_t)(uintptr_t)(0x7f0000000000ull + t->id);
  if (cur) decide();
  return 0;
}

int __wrap_pthread_join(pthread_t p, void** r) {
  if (r) *r = nullptr;
  int id = (int)((uintptr_t)p - 0x7f0000000000ull);
  if (id < 1 || id > (int)ths.size()) { return ESRCH; }
  if (cur) decide();
  Th* t = ths[id - 1].get();
  if (cur == t) return EDEADLK;
  if (t->st == DONE || t->st == DEAD) return 0;
  if (!cur) { fprintf(stderr, "sim: join outside of a thread\n"); _exit(98); }
  cur->joinee = id;
  cur->st = BLOCK;
  cur->w = W_JOIN;
  cur->streak = 0;
  to_main();
  return 0;
}

pthread_t __wrap_pthread_self(void) {
  if (!cur) return __real_pthread_self();
  return (pthread_t)(uintptr_t)(0x7f0000000000ull + cur->id);
}

int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!cur) { if (shm && pmutex[m] == 0) { return 0; } return shm ? 0 : __real_pthread_mutex_lock(m); }
  decide();
  while (pmutex[m] != 0) {
    cur->pm = m;
    cur->st = BLOCK;
    cur->w = W_PMUTEX;
    cur->streak = 0;
    to_main();
  }
  pmutex[m] = cur->id;
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!cur) return 0;
  decide();
  if (pmutex[m] != 0) return EBUSY;
  pmutex[m] = cur->id;
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!cur) return 0;
  pmutex[m] = 0;
  for (auto& t : ths) if (t->st == BLOCK && t->w == W_PMUTEX && t->pm == m) { t->st = RUN; t->w = W_NONE; }
  decide();
  return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { pmutex.erase(m); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { pmutex.erase(m); return 0; }
int __wrap_pthread_once(pthread_once_t* o, void (*fn)(void)) { return __real_pthread_once(o, fn); }

static int pc_wait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  uint32_t* a = (uint32_t*)c;
  uint32_t v = ld(a);
  __wrap_pthread_mutex_unlock(m);
  if (cur) decide();
  long r = do_futex(a, FUTEX_WAIT_BITSET | FUTEX_CLOCK_REALTIME, v, ts, nullptr, ~0u);
  int e = r < 0 && errno == ETIMEDOUT ? ETIMEDOUT : 0;
  __wrap_pthread_mutex_lock(m);
  return e;
}
static int pc_wake(pthread_cond_t* c, int n) {
  if (cur) decide();
  uint32_t* a = (uint32_t*)c;
  st(a, ld(a) + 1);
  futex_wake(a, n);
  return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return pc_wait(c, m, nullptr); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return pc_wait(c, m, ts); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { return pc_wake(c, 1); }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { return pc_wake(c, 0x7fffffff); }

int __wrap_sched_yield(void) {
  if (cur) { cur->streak = 1000000; decide(); }
  return 0;
}
static void sleep_until(uint64_t dl) {
  if (!cur) { if (dl > now_ns) now_ns = dl; return; }
  decide();
  static uint32_t nobody;
  block(W_FUTEX, &nobody, dl);
}
int __wrap_usleep(useconds_t us) { sleep_until(now_ns + us * 1000ull); return 0; }
int __wrap_nanosleep(const struct timespec* ts, struct timespec*) {
  sleep_until(now_ns + ts->tv_sec * 1000000000ull + ts->tv_nsec);
  return 0;
}

void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (cur && n) { access(s); access(d); }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (cur && n) { access(s); access(d); }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (cur && n) access(d);
  return __real_memset(d, c, n);
}

// ------------------------------------------------------------------ what -fsanitize=thread calls

void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void*) {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void AnnotateHappensBefore(const char*, int, void*) {}
void AnnotateHappensAfter(const char*, int, void*) {}
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}

#define RW(n) \
  void __tsan_read##n(void* p) { access(p); } \
  void __tsan_write##n(void* p) { access(p); } \
  void __tsan_unaligned_read##n(void* p) { access(p); } \
  void __tsan_unaligned_write##n(void* p) { access(p); } \
  void __tsan_volatile_read##n(void* p) { access(p); } \
  void __tsan_volatile_write##n(void* p) { access(p); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p); } \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { if (n) access(p); }
void __tsan_write_range(void* p, unsigned long n) { if (n) access(p); }

#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T* p, int) { atomic_access((const void*)p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##b##_store(volatile T* p, T v, int) { atomic_access((const void*)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { atomic_access((const void*)p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { atomic_access((const void*)p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { atomic_access((const void*)p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { atomic_access((const void*)p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { atomic_access((const void*)p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { atomic_access((const void*)p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { atomic_access((const void*)p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { atomic_access((const void*)p); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { atomic_access((const void*)p); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T c, T v, int, int) { atomic_access((const void*)p); __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
