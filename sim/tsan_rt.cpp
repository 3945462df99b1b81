// Own runtime behind -fsanitize=thread instrumentation: preemption points at
// memory accesses and a vector-clock happens-before race detector.
#include "rt.h"

#include <dlfcn.h>
#include <execinfo.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unordered_map>

namespace sim {

static bool g_race = false;
constexpr int N = kMaxT;
struct VC { uint32_t c[N]; };
static VC *g_vc[N];
static VC *g_acq_pending[N];   // clocks seen by relaxed loads, for acquire fences
static VC *g_rel_fence[N];     // clock at last release fence
static bool g_has_rel[N], g_has_acq[N];
static VC g_sc;
static std::unordered_map<const void *, VC> &sync_objs() { static auto *m = new std::unordered_map<const void *, VC>; return *m; }

static void join(VC &a, const VC &b) { for (int i = 0; i < N; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Slot { uint64_t w; uint64_t pc; };   // w: tid:8 clk:32 off:3 sizelog:3 write:1 atomic:1 valid:1
struct Cell { uint64_t tag; Slot s[4]; uint64_t pad[7]; };
static_assert(sizeof(Cell) == 128, "cell");
constexpr size_t kCells = 1u << 22;
static Cell *g_cells = nullptr;
constexpr uintptr_t kStackLo = 0x200000000000ull;

static VC *ensure(VC *&p) { if (!p) { p = new VC; memset(p, 0, sizeof *p); } return p; }

void race_init() {
  g_race = true;
  g_cells = (Cell *)mmap(nullptr, sizeof(Cell) * kCells, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_cells == MAP_FAILED) { perror("cells"); _Exit(99); }
  ensure(g_vc[0])->c[0] = 1;
}
void hb_thread_create(int p, int c) {
  if (!g_race) return;
  ensure(g_vc[c]);
  join(*g_vc[c], *g_vc[p]);
  g_vc[c]->c[c] = 1;
  g_vc[p]->c[p]++;
}
void hb_thread_join(int j, int c) {
  if (!g_race) return;
  join(*g_vc[j], *g_vc[c]);
}
void hb_acquire(const void *o) {
  if (!g_race) return;
  int t = self_id();
  auto it = sync_objs().find(o);
  if (it != sync_objs().end()) join(*g_vc[t], it->second);
}
void hb_release(const void *o) {
  if (!g_race) return;
  int t = self_id();
  auto r = sync_objs().try_emplace(o);
  if (r.second) memset(&r.first->second, 0, sizeof(VC));
  join(r.first->second, *g_vc[t]);
  g_vc[t]->c[t]++;
}

static inline uint64_t tag_of(uintptr_t a8) {
  uint64_t tag = (uint64_t)a8;
  if (a8 >= kStackLo && a8 < kStackLo + kStackSlot * kMaxT) tag |= (uint64_t)(g_stack_gen[(a8 - kStackLo) / kStackSlot] & 0xffff) << 48;
  return tag | 1;
}
static inline Cell *cell_of(uintptr_t a8) { return &g_cells[(a8 >> 3) & (kCells - 1)]; }

void hb_clear(const void *p, size_t n) {
  if (!g_race) return;
  uintptr_t a = (uintptr_t)p & ~7ull, e = (uintptr_t)p + n;
  if ((e - a) / 8 > kCells) e = a + 8 * kCells;
  for (; a < e; a += 8) { Cell *c = cell_of(a); if (c->tag == tag_of(a)) c->tag = 0; }
}

static void report(uintptr_t addr, bool w, int size, const Slot &prev, uint64_t pc) {
  shm->races++;
  if (shm->races > 3) return;
  auto sym = [](uint64_t p, char *b, size_t n) {
    Dl_info di;
    if (dladdr((void *)p, &di) && di.dli_fname) {
      snprintf(b, n, "%s+0x%llx", di.dli_sname ? di.dli_sname : "?", (unsigned long long)(p - (uint64_t)di.dli_fbase));
    } else snprintf(b, n, "0x%llx", (unsigned long long)p);
  };
  char s1[400], s2[400];
  sym(pc, s1, sizeof s1); sym(prev.pc, s2, sizeof s2);
  logf("RACE T%d %s(%d) at %s || T%d %s at %s", self_id(), w ? "write" : "read", size, s1, (int)(prev.w & 0xff), ((prev.w >> 46) & 1) ? "write" : "read", s2);
  note("RACE %s %s || %s %s; ", w ? "write" : "read", s1, ((prev.w >> 46) & 1) ? "write" : "read", s2);
  (void)addr;
}

// off 3 bits @40, sizelog 3 bits @43, write @46, atomic @47, valid @48
static void access8(uintptr_t a, int size, bool w, bool atomic, uint64_t pc) {
  uintptr_t a8 = a & ~7ull;
  int off = (int)(a & 7);
  Cell *c = cell_of(a8);
  uint64_t tag = tag_of(a8);
  int t = self_id();
  if (c->tag != tag) { c->tag = tag; for (auto &s : c->s) s.w = 0; }
  uint32_t clk = g_vc[t]->c[t];
  int free_i = -1, same_i = -1;
  for (int i = 0; i < 4; i++) {
    Slot &s = c->s[i];
    if (!(s.w >> 48)) { if (free_i < 0) free_i = i; continue; }
    int st = (int)(s.w & 0xff);
    uint32_t sc = (uint32_t)(s.w >> 8);
    int so = (int)((s.w >> 40) & 7), ss = 1 << ((s.w >> 43) & 7);
    bool sw = (s.w >> 46) & 1, sa = (s.w >> 47) & 1;
    if (st == t) { if (so == off && ss == size && sw == w && sa == atomic) same_i = i; continue; }
    if (so + ss <= off || off + size <= so) continue;
    if (!(w || sw)) continue;
    if (atomic && sa) continue;
    if (g_vc[t]->c[st] >= sc) { if (w && so == off && ss == size) s.w = 0, free_i = free_i < 0 ? i : free_i; continue; }
    report(a, w, size, s, pc);
    s.w = 0;
  }
  int i = same_i >= 0 ? same_i : free_i >= 0 ? free_i : (int)(clk & 3);
  int lg = size == 1 ? 0 : size == 2 ? 1 : size == 4 ? 2 : 3;
  c->s[i].w = (uint64_t)t | (uint64_t)clk << 8 | (uint64_t)off << 40 | (uint64_t)lg << 43 | (uint64_t)w << 46 | (uint64_t)atomic << 47 | 1ull << 48;
  c->s[i].pc = pc;
}
static void access(uintptr_t a, size_t n, bool w, bool atomic, uint64_t pc) {
  while (n) {
    int off = (int)(a & 7);
    size_t k = 8 - off;
    if (k > n) k = n;
    // split into power-of-two pieces
    int p = k >= 8 ? 8 : k >= 4 ? 4 : k >= 2 ? 2 : 1;
    if (n >= 8 && off == 0) p = 8;
    access8(a, p, w, atomic, pc);
    a += p; n -= p;
  }
}

static inline void on_access(const void *p, size_t n, bool w, uint64_t pc) {
  if (__builtin_expect(!g_on || t_rt, 1)) return;
  if (self_id() < 0) return;
  shm->accesses++;
  if (++g_step >= g_next_preempt) mem_preempt();
  if (g_race) { InRt g; access((uintptr_t)p, n, w, false, pc); }
}

// ---- atomics
static bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static inline bool at_on() { return g_on && !t_rt && self_id() >= 0; }
static void at_pre() { point("atomic"); }
static void at_load(const void *a, size_t n, int mo, uint64_t pc) {
  if (!g_race) return;
  InRt g;
  int t = self_id();
  access((uintptr_t)a, n, false, true, pc);
  auto it = sync_objs().find(a);
  if (it == sync_objs().end()) return;
  if (is_acq(mo)) join(*g_vc[t], it->second);
  else { join(*ensure(g_acq_pending[t]), it->second); g_has_acq[t] = true; }
}
static void at_store(const void *a, size_t n, int mo, uint64_t pc) {
  if (!g_race) return;
  InRt g;
  int t = self_id();
  access((uintptr_t)a, n, true, true, pc);
  if (is_rel(mo)) { auto r = sync_objs().try_emplace(a); r.first->second = *g_vc[t]; g_vc[t]->c[t]++; }
  else if (g_has_rel[t]) { sync_objs()[a] = *g_rel_fence[t]; }
  else { auto it = sync_objs().find(a); if (it != sync_objs().end()) sync_objs().erase(it); }
}
static void at_rmw(const void *a, size_t n, int mo, uint64_t pc) {
  if (!g_race) return;
  InRt g;
  int t = self_id();
  access((uintptr_t)a, n, true, true, pc);
  auto r = sync_objs().try_emplace(a);
  if (r.second) memset(&r.first->second, 0, sizeof(VC));
  if (is_acq(mo)) join(*g_vc[t], r.first->second);
  else { join(*ensure(g_acq_pending[t]), r.first->second); g_has_acq[t] = true; }
  if (is_rel(mo)) { join(r.first->second, *g_vc[t]); g_vc[t]->c[t]++; }
  else if (g_has_rel[t]) join(r.first->second, *g_rel_fence[t]);
}
static void at_fence(int mo) {
  if (!g_race) return;
  InRt g;
  int t = self_id();
  if (is_acq(mo) && g_has_acq[t]) join(*g_vc[t], *g_acq_pending[t]);
  if (mo == __ATOMIC_SEQ_CST) { join(*g_vc[t], g_sc); join(g_sc, *g_vc[t]); }
  if (is_rel(mo)) { *ensure(g_rel_fence[t]) = *g_vc[t]; g_has_rel[t] = true; g_vc[t]->c[t]++; }
}
}  // namespace sim

using namespace sim;
#define PC ((uint64_t)__builtin_return_address(0))

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *p) { on_access(p, n, false, PC); } \
  void __tsan_write##n(void *p) { on_access(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void *p) { on_access(p, n, false, PC); } \
  void __tsan_unaligned_write##n(void *p) { on_access(p, n, true, PC); } \
  void __tsan_volatile_read##n(void *p) { on_access(p, n, false, PC); } \
  void __tsan_volatile_write##n(void *p) { on_access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { on_access(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { on_access(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) on_access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { on_access(p, 8, false, PC); }

#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) { \
    if (!at_on()) return __atomic_load_n(a, __ATOMIC_SEQ_CST); \
    at_pre(); at_load((const void *)a, sizeof(T), mo, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { \
    if (!at_on()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; } \
    at_pre(); at_store((const void *)a, sizeof(T), mo, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { \
    if (at_on()) { at_pre(); at_rmw((const void *)a, sizeof(T), mo, PC); } \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { if (at_on()) { at_pre(); at_rmw((const void *)a, sizeof(T), mo, PC); } return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { if (at_on()) { at_pre(); at_rmw((const void *)a, sizeof(T), mo, PC); } return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { if (at_on()) { at_pre(); at_rmw((const void *)a, sizeof(T), mo, PC); } return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { if (at_on()) { at_pre(); at_rmw((const void *)a, sizeof(T), mo, PC); } return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { if (at_on()) { at_pre(); at_rmw((const void *)a, sizeof(T), mo, PC); } return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { if (at_on()) { at_pre(); at_rmw((const void *)a, sizeof(T), mo, PC); } return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int fmo) { \
    if (!at_on()) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    at_pre(); \
    if (__atomic_load_n(a, __ATOMIC_SEQ_CST) == *e) at_rmw((const void *)a, sizeof(T), mo, PC); else at_load((const void *)a, sizeof(T), fmo, PC); \
    return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { if (at_on()) { at_pre(); at_fence(mo); } __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

// freed memory: forget its access history, and let reuse not look like a race
void __libc_free(void *);
void free(void *p) {
  if (p && g_race && g_on) { ++t_rt; hb_clear(p, malloc_usable_size(p)); --t_rt; }
  __libc_free(p);
}
void *__libc_realloc(void *, size_t);
void *realloc(void *p, size_t n) {
  if (p && g_race && g_on) { ++t_rt; hb_clear(p, malloc_usable_size(p)); --t_rt; }
  return __libc_realloc(p, n);
}
}
