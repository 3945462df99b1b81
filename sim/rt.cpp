#include "rt.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <new>
#include <unordered_map>

namespace sim {

const char *const kFsOpName[F_NOPS] = {"open-read", "open-write", "write", "close", "read", "stat", "mkdir", "unlink", "rename", "readdir"};
const char *const kFaultName[FS_NKINDS] = {"command-nonzero-exit", "command-signal", "command-spawn-failure", "fs-error", "fs-short-write", "kill", "mid-build-edit", "clock-jump", "spurious-wakeup", "chunked-output", "callback-failure", "thread-starved"};

Shm *shm = nullptr;
bool g_on = false;
thread_local int t_rt = 0;
Plan plan;
uint64_t g_step = 0;
uint64_t g_next_preempt = ~0ull;
uint32_t g_stack_gen[kMaxT];

uint64_t fnv(const std::string &s, uint64_t h) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
std::string hex(uint64_t v) { char b[32]; snprintf(b, sizeof b, "%016llx", (unsigned long long)v); return b; }

// ------------------------------------------------------------ threads
enum State { RUN, BLOCKED, DONE };
struct Th {
  int id = 0;
  State st = RUN;
  const void *obj = nullptr;   // what it is blocked on
  uint64_t deadline = 0;       // 0: none
  bool timed_out = false;
  volatile int go = 0;
  int64_t prio = 0;
  pthread_t real{};
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
  void *ret = nullptr;
  bool detached = false, joined = false;
};
static Th *g_th[kMaxT];
static int g_nth = 0;
static int g_cur = 0;
static thread_local Th *t_self = nullptr;
static uint64_t g_now = 0;
static Rng g_rs(1), g_re(2);
static uint64_t g_points = 0, g_events = 0;
static size_t g_trace_pos = 0;
static int64_t g_prio_low = 0;
static std::vector<uint64_t> g_pct_points;
static void (*g_crash_hook)() = nullptr;
static bool g_fair = false;
static int64_t g_clock_off = 0;

static long raw_futex(volatile int *a, int op, int v) {
  long r;
  register long r10 asm("r10") = 0;
  register long r8 asm("r8") = 0;
  register long r9 asm("r9") = 0;
  asm volatile("syscall" : "=a"(r) : "0"(SYS_futex), "D"(a), "S"((long)op), "d"((long)v), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void park(Th *t) {
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) raw_futex(&t->go, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
}
static void unpark(Th *t) {
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  raw_futex(&t->go, FUTEX_WAKE_PRIVATE, 1);
}

int self_id() { return t_self ? t_self->id : -1; }
uint64_t now() { return g_now + (uint64_t)g_clock_off; }
uint64_t rnd(uint64_t n) { return g_re.below(n); }
uint64_t fresh_mtime() { return (now() / 1000000) * 1000000 + (++shm->uniq % 1000000); }
void set_crash_hook(void (*fn)()) { g_crash_hook = fn; }

void logf(const char *fmt, ...) {
  InRt g;
  if (!shm) return;
  size_t cap = kLogCap - shm->loglen;
  if (cap < 2) return;
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(shm->log + shm->loglen, cap, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if ((size_t)n >= cap) n = (int)cap - 1;
  shm->loglen += (size_t)n;
  if (shm->loglen < kLogCap - 1) { shm->log[shm->loglen++] = '\n'; }
}
void note(const char *fmt, ...) {
  InRt g;
  if (!shm) return;
  size_t l = strlen(shm->note);
  if (l + 2 >= sizeof shm->note) return;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(shm->note + l, sizeof shm->note - l, fmt, ap);
  va_end(ap);
}

static void dump_counters() {
  shm->steps = g_step; shm->points = g_points; shm->events = g_events;
  shm->sim_end = g_now; shm->nthreads = (uint32_t)g_nth;
}
void finish(int status, int code) {
  ++t_rt;
  dump_counters();
  shm->status = (uint32_t)status;
  g_on = false;
  syscall(SYS_exit_group, code);
  __builtin_unreachable();
}

static void hash_switch(int from, int to) {
  uint64_t h = shm->sched_hash;
  h ^= (uint64_t)(from * 257 + to) + g_points * 1315423911ull;
  h *= 1099511628211ull;
  shm->sched_hash = h ^ (h >> 29);
  shm->switches++;
}

static void sample_preempt() {
  if (plan.strategy == S_TRACE) {
    g_next_preempt = g_trace_pos < plan.trace.size() ? plan.trace[g_trace_pos].step : ~0ull;
    return;
  }
  if (plan.strategy == S_PCT) {
    g_next_preempt = g_pct_points.empty() ? ~0ull : g_pct_points.back();
    return;
  }
  if (!plan.mem_gap) { g_next_preempt = ~0ull; return; }
  double u = g_rs.unit();
  uint64_t gap = 1 + (uint64_t)(-(double)plan.mem_gap * __builtin_log(1.0 - u * 0.999999));
  g_next_preempt = g_step + gap;
}

static void wake_timers() {
  for (int i = 0; i < g_nth; i++) {
    Th *t = g_th[i];
    if (t->st == BLOCKED && t->deadline && t->deadline <= g_now) { t->st = RUN; t->timed_out = true; t->obj = nullptr; t->deadline = 0; }
  }
}

[[noreturn]] static void hang(int status, const char *why) {
  note("%s at step %llu:", why, (unsigned long long)g_step);
  for (int i = 0; i < g_nth; i++)
    if (g_th[i]->st != DONE) note(" T%d=%s", i, g_th[i]->st == RUN ? "runnable" : "blocked");
  logf("HANG %s", why);
  finish(status, 97);
}

// Chooses the next thread.  force: the current thread cannot continue (or yields).
static int choose(bool can_stay, bool yielding, bool allow_switch) {
  static int cand[kMaxT];
  int n = 0;
  for (;;) {
    n = 0;
    for (int i = 0; i < g_nth; i++)
      if (g_th[i]->st == RUN && (i != g_cur || can_stay)) cand[n++] = i;
    if (n) break;
    uint64_t best = 0;
    for (int i = 0; i < g_nth; i++)
      if (g_th[i]->st == BLOCKED && g_th[i]->deadline && (!best || g_th[i]->deadline < best)) best = g_th[i]->deadline;
    if (!best) hang(2, "deadlock: no runnable thread");
    if (best > g_now) g_now = best;
    wake_timers();
    can_stay = true;
  }
  bool cur_ok = g_th[g_cur]->st == RUN && can_stay;
  // default policy
  int def = -1;
  if (cur_ok && !yielding) def = g_cur;
  else {
    for (int k = 1; k <= g_nth && def < 0; k++) {
      int i = (g_cur + k) % g_nth;
      for (int j = 0; j < n; j++) if (cand[j] == i) { def = i; break; }
    }
  }
  int pick = def;
  if (n > 1 || (n == 1 && cand[0] != def)) {
    switch (g_fair && plan.strategy != S_TRACE ? (int)S_RANDOM : plan.strategy) {
    case S_TRACE:
      while (g_trace_pos < plan.trace.size() && plan.trace[g_trace_pos].step < g_step) g_trace_pos++;
      if (g_trace_pos < plan.trace.size() && plan.trace[g_trace_pos].step == g_step) {
        int w = plan.trace[g_trace_pos].tid;
        for (int j = 0; j < n; j++) if (cand[j] == w) pick = w;
        g_trace_pos++;
      }
      break;
    case S_SEQ:
      if (cur_ok && yielding && !g_rs.chance(0.1)) pick = g_cur;
      else if (!cur_ok || yielding) pick = cand[g_rs.below((uint64_t)n)];
      break;
    case S_RR:
      if (allow_switch) {
        for (int k = 1; k <= g_nth; k++) {
          int i = (g_cur + k) % g_nth; bool f = false;
          for (int j = 0; j < n; j++) if (cand[j] == i) f = true;
          if (f) { pick = i; break; }
        }
      }
      break;
    case S_PCT: {
      if (yielding) g_th[g_cur]->prio = --g_prio_low;
      int64_t bp = INT64_MIN;
      for (int j = 0; j < n; j++) if (g_th[cand[j]]->prio > bp) { bp = g_th[cand[j]]->prio; pick = cand[j]; }
      break;
    }
    default:
      if (cur_ok && yielding && !g_fair && !g_rs.chance(0.25)) pick = g_cur;
      else if (!cur_ok || yielding) {
        pick = cand[g_rs.below((uint64_t)n)];
        if (pick == plan.victim && n > 1 && !g_fair && g_rs.below(64)) { do pick = cand[g_rs.below((uint64_t)n)]; while (pick == plan.victim); shm->fault[FS_STARVE]++; }
      } else if (allow_switch) {
        pick = cand[g_rs.below((uint64_t)n)];
        if (pick == plan.victim && n > 1 && !g_fair && g_rs.below(64)) { pick = def; shm->fault[FS_STARVE]++; }
      }
    }
  }
  if (pick != def) {
    if (shm->ndev < kDevCap) shm->dev[shm->ndev++] = Deviation{g_step, pick};
    else shm->devovf++;
  }
  return pick;
}

static void switch_to(int id) {
  if (id == g_cur) return;
  Th *me = t_self, *to = g_th[id];
  hash_switch(g_cur, id);
  g_cur = id;
  bool done = me->st == DONE;
  unpark(to);
  if (!done) park(me);
}

static void tick(bool is_point) {
  g_step++;
  if (is_point) {
    g_points++;
    g_now += 700;
    if ((g_points & 15) == 0) wake_timers();
    if (!g_fair && (g_points > plan.point_budget / 2 || g_step > plan.step_budget / 2)) { g_fair = true; plan.p_point = 0.5; plan.mem_gap = 3000; }
    if (g_points > plan.point_budget) hang(3, "no termination within the point budget");
  }
  if (g_step > plan.step_budget) hang(3, "no termination within the step budget");
}

void point(const char *) {
  if (!g_on || !t_self) return;
  InRt g;
  tick(true);
  bool sw;
  if (plan.strategy == S_TRACE || plan.strategy == S_PCT || plan.strategy == S_RR) sw = true;
  else if (plan.strategy == S_SEQ && !g_fair) sw = false;
  else sw = g_rs.chance(plan.p_point);
  if (!sw) return;
  int p = choose(true, false, true);
  sample_preempt();
  switch_to(p);
}

void mem_preempt() {
  if (!g_on || !t_self) return;
  InRt g;
  if (g_step > plan.step_budget) hang(3, "no termination within the step budget");
  if (plan.strategy == S_PCT) {
    while (!g_pct_points.empty() && g_pct_points.back() <= g_step) { g_pct_points.pop_back(); t_self->prio = --g_prio_low; }
  }
  int p = choose(true, false, true);
  sample_preempt();
  switch_to(p);
}

void yield_point() {
  if (!g_on || !t_self) return;
  InRt g;
  tick(true);
  int p = choose(true, true, true);
  sample_preempt();
  switch_to(p);
}

static void block(const void *obj, uint64_t deadline) {
  Th *t = t_self;
  tick(true);
  t->st = BLOCKED; t->obj = obj; t->deadline = deadline; t->timed_out = false;
  int p = choose(false, true, true);
  sample_preempt();
  switch_to(p);
}
static void wake(Th *t) { t->st = RUN; t->obj = nullptr; t->deadline = 0; }

void sleep_ns(uint64_t ns) {
  if (!g_on || !t_self) return;
  InRt g;
  block(nullptr, g_now + (ns ? ns : 1));
}

uint64_t event(const char *what) {
  if (!g_on || !t_self) return 0;
  InRt g;
  uint64_t e = ++g_events;
  for (auto &m : plan.edits)
    if (!m.done && m.event <= e) {
      m.done = true;
      write_file(m.path, m.content, m.mtime ? m.mtime : fresh_mtime());
      shm->fault[FS_EDIT]++;
      logf("EDIT %s", m.path.c_str());
    }
  if (plan.clock_jump && plan.clock_jump_event == e) {
    g_clock_off += plan.clock_jump;
    shm->fault[FS_CLOCK]++;
  }
  if (plan.crash_event && e == plan.crash_event) {
    logf("KILL %s", what);
    shm->fault[FS_KILL]++;
    if (g_crash_hook) g_crash_hook();
    finish(1, 137);
  }
  point(what);
  return e;
}

// ------------------------------------------------------------ stacks
static char *g_stacks = nullptr;
const char *stack_pool_base() { return g_stacks; }
static bool g_slot_used[kMaxT];
static int slot_alloc() {
  for (int i = 0; i < kMaxT; i++) if (!g_slot_used[i]) { g_slot_used[i] = true; g_stack_gen[i]++; return i; }
  note("harness: out of stack slots");
  finish(4, 98);
}
static std::unordered_map<int, int> g_slot_of;
uint64_t event_count() { return g_events; }

void start(const Plan &p, Shm *s) {
  ++t_rt;
  plan = p;
  shm = s;
  g_rs = Rng(p.seed * 2 + 1);
  g_re = Rng(p.seed * 2 + 7919);
  g_now = p.clock_start;
  shm->sim_start = g_now;
  g_stacks = (char *)mmap((void *)0x200000000000ull, kStackSlot * kMaxT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (g_stacks == MAP_FAILED) { perror("stacks"); _exit(99); }
  Th *t = new Th;
  t->id = 0; t->real = pthread_self();
  g_th[0] = t; g_nth = 1; g_cur = 0; t_self = t;
  t->prio = (int64_t)g_rs.below(1000);
  if (p.strategy == S_PCT) {
    for (int i = 0; i < p.pct_depth; i++) g_pct_points.push_back(1 + g_rs.below(p.mem_gap ? p.mem_gap * 20 : 60000));
    for (size_t i = 0; i < g_pct_points.size(); i++) for (size_t j = i + 1; j < g_pct_points.size(); j++) if (g_pct_points[j] > g_pct_points[i]) std::swap(g_pct_points[i], g_pct_points[j]);
  }
  if (p.race) race_init();
  g_on = true;
  sample_preempt();
  --t_rt;
}

// ------------------------------------------------------------ sync object state
struct Mutex { int owner = -1; int depth = 0; };
static std::unordered_map<const void *, Mutex> &mutexes() { static auto *m = new std::unordered_map<const void *, Mutex>; return *m; }
struct Rw { int writer = -1; int readers = 0; };
static std::unordered_map<const void *, Rw> &rws() { static auto *m = new std::unordered_map<const void *, Rw>; return *m; }
static std::unordered_map<const void *, int> &onces() { static auto *m = new std::unordered_map<const void *, int>; return *m; }

static void wake_all_on(const void *obj) {
  for (int i = 0; i < g_nth; i++) if (g_th[i]->st == BLOCKED && g_th[i]->obj == obj) wake(g_th[i]);
}
static void wake_some_on(const void *obj, int n) {
  while (n-- > 0) {
    int c[kMaxT], k = 0;
    for (int i = 0; i < g_nth; i++) if (g_th[i]->st == BLOCKED && g_th[i]->obj == obj) c[k++] = i;
    if (!k) return;
    // which waiter is woken is an environment choice: deterministic under replay
    wake(g_th[c[rnd((uint64_t)k)]]);
  }
}

void wait_on(const void *obj) { if (!g_on || !t_self) return; InRt g; block(obj, 0); }
void wake_on(const void *obj) { if (!g_on) return; InRt g; wake_all_on(obj); }
}  // namespace sim

// ------------------------------------------------------------ runtime heap
// Allocations of the simulator itself come from an arena of their own, so the
// addresses the program under test sees do not depend on plan or history.
namespace sim {
constexpr uintptr_t kArenaLo = 0x300000000000ull;
constexpr size_t kArenaSize = 64ull << 30;
static char *g_arena = nullptr, *g_arena_end = nullptr;
struct FreeNode { FreeNode *next; };
static FreeNode *g_free[64];
static void *arena_alloc(size_t n) {
  if (!g_arena) {
    void *p = mmap((void *)kArenaLo, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) _exit(99);
    g_arena = (char *)p; g_arena_end = g_arena + kArenaSize;
  }
  int c = 5;
  while ((1ull << c) < n + 16) c++;
  if (FreeNode *f = g_free[c]) { g_free[c] = f->next; return f; }
  char *p = g_arena;
  if (p + (1ull << c) > g_arena_end) _exit(99);
  g_arena += 1ull << c;
  *(uint64_t *)p = (uint64_t)c;
  return p + 16;
}
static bool in_arena(void *p) { return (uintptr_t)p >= kArenaLo && (uintptr_t)p < kArenaLo + kArenaSize; }
static void arena_free(void *p) {
  int c = (int)*(uint64_t *)((char *)p - 16);
  FreeNode *f = (FreeNode *)p;
  f->next = g_free[c];
  g_free[c] = f;
}
}  // namespace sim
void *operator new(size_t n) {
  if (sim::t_rt) return sim::arena_alloc(n);
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept {
  if (!p) return;
  if (sim::in_arena(p)) sim::arena_free(p); else free(p);
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

using namespace sim;
#define SIM_ON (sim::g_on && sim::t_self && sim::t_rt == 0)

// In-runtime code (t_rt>0) is never descheduled while holding a lock, so its
// own lock calls may go to the real primitives, which are then uncontended.
#define REAL(name, ...) \
  static decltype(&name) fn_ = nullptr; \
  if (!fn_) fn_ = (decltype(&name))dlsym(RTLD_NEXT, #name)

extern "C" {

int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!SIM_ON) { REAL(pthread_mutex_lock); return fn_(m); }
  point("lock");
  InRt g;
  auto *mx = &mutexes()[m];
  bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
  if (mx->owner == t_self->id && rec) { mx->depth++; return 0; }
  while (mx->owner != -1) { block(m, 0); mx = &mutexes()[m]; }
  mx->owner = t_self->id; mx->depth = 1;
  hb_acquire(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!SIM_ON) { REAL(pthread_mutex_trylock); return fn_(m); }
  point("trylock");
  InRt g;
  auto *mx = &mutexes()[m];
  bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
  if (mx->owner == t_self->id && rec) { mx->depth++; return 0; }
  if (mx->owner != -1) return EBUSY;
  mx->owner = t_self->id; mx->depth = 1;
  hb_acquire(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!SIM_ON) { REAL(pthread_mutex_unlock); return fn_(m); }
  {
    InRt g;
    auto *mx = &mutexes()[m];
    if (mx->owner != t_self->id) return EPERM;
    if (--mx->depth > 0) return 0;
    hb_release(m);
    mutexes().erase(m);
    wake_all_on(m);
  }
  point("unlock");
  return 0;
}
static int cond_wait_impl(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline) {
  InRt g;
  hb_release(m);
  mutexes().erase(m);
  wake_all_on(m);
  int r = 0;
  if (plan.spurious > 0 && g_re.chance(plan.spurious)) {
    shm->fault[FS_SPURIOUS]++;
    block(nullptr, g_now + 1);
  } else {
    block(c, deadline);
    if (t_self->timed_out) r = ETIMEDOUT;
  }
  Mutex *mx = &mutexes()[m];
  while (mx->owner != -1) { block(m, 0); mx = &mutexes()[m]; }
  mx->owner = t_self->id; mx->depth = 1;
  hb_acquire(m);
  return r;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!SIM_ON) { REAL(pthread_cond_wait); return fn_(c, m); }
  return cond_wait_impl(c, m, 0);
}
static uint64_t abs_deadline(const struct timespec *ts) {
  uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
  uint64_t n = now();
  return g_now + (t > n ? t - n : 1);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (!SIM_ON) { REAL(pthread_cond_timedwait); return fn_(c, m, ts); }
  return cond_wait_impl(c, m, abs_deadline(ts));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
  if (!SIM_ON) { REAL(pthread_cond_clockwait); return fn_(c, m, k, ts); }
  return cond_wait_impl(c, m, abs_deadline(ts));
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (!SIM_ON) { REAL(pthread_cond_signal); return fn_(c); }
  { InRt g; wake_some_on(c, 1); }
  point("signal");
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!SIM_ON) { REAL(pthread_cond_broadcast); return fn_(c); }
  { InRt g; wake_all_on(c); }
  point("broadcast");
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) {
  if (!SIM_ON) { REAL(pthread_cond_destroy); return fn_(c); }
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  if (!SIM_ON) { REAL(pthread_rwlock_rdlock); return fn_(l); }
  point("rdlock");
  InRt g;
  while (rws()[l].writer != -1) block(l, 0);
  rws()[l].readers++;
  hb_acquire(l);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  if (!SIM_ON) { REAL(pthread_rwlock_wrlock); return fn_(l); }
  point("wrlock");
  InRt g;
  while (rws()[l].writer != -1 || rws()[l].readers) block(l, 0);
  rws()[l].writer = t_self->id;
  hb_acquire(l);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
  if (!SIM_ON) { REAL(pthread_rwlock_tryrdlock); return fn_(l); }
  InRt g;
  if (rws()[l].writer != -1) return EBUSY;
  rws()[l].readers++;
  hb_acquire(l);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
  if (!SIM_ON) { REAL(pthread_rwlock_trywrlock); return fn_(l); }
  InRt g;
  if (rws()[l].writer != -1 || rws()[l].readers) return EBUSY;
  rws()[l].writer = t_self->id;
  hb_acquire(l);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!SIM_ON) { REAL(pthread_rwlock_unlock); return fn_(l); }
  {
    InRt g;
    auto &r = rws()[l];
    if (r.writer == t_self->id) r.writer = -1; else if (r.readers > 0) r.readers--;
    hb_release(l);
    wake_all_on(l);
  }
  point("rwunlock");
  return 0;
}
int pthread_once(pthread_once_t *o, void (*f)(void)) {
  if (!SIM_ON) { REAL(pthread_once); return fn_(o, f); }
  {
    InRt g;
    // *o: 0 not run, 2 done; the table only holds calls in progress (objects
    // come and go at the same address)
    for (;;) {
      if (*o == 2) { hb_acquire(o); return 0; }
      if (!onces().count(o)) break;
      block(o, 0);
    }
    onces()[o] = 1;
  }
  struct Undo { pthread_once_t *o; bool ok = false; ~Undo() { InRt g; onces().erase(o); if (ok) { *o = 2; hb_release(o); } wake_all_on(o); } } u{o};
  f();
  u.ok = true;
  return 0;
}
// function-local statics
int __cxa_guard_acquire(long long *gv) {
  volatile char *b = (volatile char *)gv;
  if (!SIM_ON) {
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
    b[1] = 1;
    return 1;
  }
  InRt g;
  for (;;) {
    if (b[0]) { hb_acquire(gv); return 0; }
    if (!b[1]) { b[1] = 1; return 1; }
    block(gv, 0);
  }
}
void __cxa_guard_release(long long *gv) {
  volatile char *b = (volatile char *)gv;
  b[1] = 0;
  __atomic_store_n(b, 1, __ATOMIC_RELEASE);
  if (SIM_ON) { InRt g; hb_release(gv); wake_all_on(gv); }
}
void __cxa_guard_abort(long long *gv) {
  ((volatile char *)gv)[1] = 0;
  if (SIM_ON) { InRt g; wake_all_on(gv); }
}

static void *thread_main(void *p) {
  Th *t = (Th *)p;
  t_rt = 1;
  t_self = t;
  park(t);
  t_rt = 0;
  void *r = t->fn(t->arg);
  t_rt = 1;
  t->ret = r;
  tick(true);
  t->st = DONE;
  wake_all_on(t);
  int nx = choose(false, true, true);
  sample_preempt();
  switch_to(nx);
  return r;
}
int pthread_create(pthread_t *out, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
  REAL(pthread_create);
  if (!SIM_ON) return fn_(out, nullptr, fn, arg);
  {
    InRt g;
    if (g_nth >= kMaxT) { note("harness: too many threads"); finish(4, 98); }
    Th *t = new Th;
    t->id = g_nth; t->fn = fn; t->arg = arg;
    t->prio = (int64_t)g_rs.below(1000);
    int slot = slot_alloc();
    g_slot_of[t->id] = slot;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, g_stacks + (size_t)slot * kStackSlot, kStackSlot);
    hb_thread_create(t_self->id, t->id);
    g_th[g_nth++] = t;
    int r = fn_(&t->real, &at, thread_main, t);
    if (r) { note("harness: pthread_create failed %d", r); finish(4, 98); }
    *out = t->real;
  }
  point("create");
  return 0;
}
static Th *find_thread(pthread_t p) {
  for (int i = g_nth - 1; i >= 0; i--) if (g_th[i]->real == p && !g_th[i]->joined) return g_th[i];
  return nullptr;
}
int pthread_join(pthread_t p, void **ret) {
  REAL(pthread_join);
  if (!SIM_ON) return fn_(p, ret);
  point("join");
  InRt g;
  Th *t = find_thread(p);
  if (!t) return ESRCH;
  if (t == t_self) return EDEADLK;
  while (t->st != DONE) block(t, 0);
  hb_thread_join(t_self->id, t->id);
  fn_(p, nullptr);
  t->joined = true;
  g_slot_used[g_slot_of[t->id]] = false;
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t p) {
  REAL(pthread_detach);
  if (!SIM_ON) return fn_(p);
  InRt g;
  Th *t = find_thread(p);
  if (t) t->detached = true;
  return fn_(p);
}

int sched_yield(void) {
  if (!SIM_ON) return (int)syscall(SYS_sched_yield);
  yield_point();
  return 0;
}
int nanosleep(const struct timespec *rq, struct timespec *) {
  if (!SIM_ON) { struct timespec z = *rq; return (int)syscall(SYS_nanosleep, &z, nullptr); }
  sleep_ns((uint64_t)rq->tv_sec * 1000000000ull + (uint64_t)rq->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec *rq, struct timespec *) {
  if (!SIM_ON) { struct timespec z = *rq; return (int)syscall(SYS_nanosleep, &z, nullptr); }
  uint64_t t = (uint64_t)rq->tv_sec * 1000000000ull + (uint64_t)rq->tv_nsec;
  if (flags & TIMER_ABSTIME) { uint64_t n = now(); t = t > n ? t - n : 1; }
  sleep_ns(t);
  return 0;
}
int usleep(useconds_t us) {
  struct timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
int clock_gettime(clockid_t k, struct timespec *ts) {
  if (!sim::g_on || !sim::t_self) return (int)syscall(SYS_clock_gettime, k, ts);
  uint64_t n = now();
  ts->tv_sec = (time_t)(n / 1000000000ull);
  ts->tv_nsec = (long)(n % 1000000000ull);
  return 0;
}
time_t time(time_t *out) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (out) *out = ts.tv_sec;
  return ts.tv_sec;
}

// std::thread::hardware_concurrency, std::random_device
unsigned _ZNSt6thread20hardware_concurrencyEv() { return sim::g_on ? (unsigned)plan.workers : 2; }
unsigned _ZNSt13random_device9_M_getvalEv(void *) { return sim::g_on ? (unsigned)g_re.next() : 4; }
int getentropy(void *b, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)g_re.next(); return 0; }
uint32_t arc4random(void) { return (uint32_t)g_re.next(); }
pid_t getpid(void) { return sim::g_on ? 4242 : (pid_t)::syscall(SYS_getpid); }

static long raw_syscall6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "0"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && SIM_ON) {
    int op = (int)b & 0x7f & ~FUTEX_CLOCK_REALTIME;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      point("futex");
      InRt g;
      if (*(volatile int *)a != (int)c) { errno = EAGAIN; return -1; }
      uint64_t dl = 0;
      if (d) {
        const struct timespec *ts = (const struct timespec *)d;
        if (op == FUTEX_WAIT_BITSET) dl = abs_deadline(ts);
        else dl = g_now + (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec + 1;
      }
      block((const void *)a, dl);
      if (t_self->timed_out) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      { InRt g; wake_some_on((const void *)a, (int)c); }
      point("futex-wake");
      return 0;
    }
  }
  if (n == SYS_gettid && sim::g_on && t_self) return 10000 + t_self->id;
  long r = raw_syscall6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
}  // extern "C"
