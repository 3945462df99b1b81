// Deterministic simulation runtime: scheduler, clock, fault plan, event log.
// Everything here runs uninstrumented; only one simulated thread runs at once.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- rng
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s((seed ^ (seed >> 31)) * 0xD6E8FEB86659FD93ull + 0x1234567) { s = next() ^ (s << 7); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
};

// ---------------------------------------------------------------- plan
enum Strategy { S_RANDOM = 0, S_PCT = 1, S_SEQ = 2, S_RR = 3, S_TRACE = 4 };

struct Deviation { uint64_t step; int tid; };

// File system operation classes a fault can hit.
enum FsOp { F_OPEN_R = 0, F_OPEN_W, F_WRITE, F_CLOSE_W, F_READ, F_STAT, F_MKDIR, F_UNLINK, F_RENAME, F_READDIR, F_NOPS };
extern const char *const kFsOpName[F_NOPS];

struct FsFault {
  int op = 0;
  int nth = 1;         // fires on the nth operation of this class (on a matching path)
  int count = 1;       // and on this many consecutive ones (-1: until end of run)
  int err = 5;         // errno
  int shortn = -1;     // F_WRITE: bytes written before the error (or short count)
  std::string match;   // substring of the virtual path, empty: any
  int seen = 0;        // runtime
};

struct CmdFault {
  int nth = 0;             // 1-based index of the command in this run; 0: use match
  std::string match;       // substring of the command's output path / text
  int mode = 0;            // 0 exit code, 1 signal, 2 spawn failure
  int code = 1;
  int when = 0;            // 0 before writing, 1 after partial output, 2 after full output
  int count = 1;           // how many matching commands fail (-1 all)
  int seen = 0;
};

struct MidEdit { uint64_t event; std::string path, content; uint64_t mtime; bool done = false; };

struct Plan {
  uint64_t seed = 1;
  int strategy = S_SEQ;
  double p_point = 0.1;        // switch probability at synchronisation/IO points
  uint64_t mem_gap = 0;        // mean gap between preemptions at memory accesses, 0: none
  int pct_depth = 3;
  int victim = -1;             // starved thread id
  std::vector<Deviation> trace;
  int workers = 4;
  bool race = false;
  uint64_t step_budget = 30000000;
  uint64_t point_budget = 400000;
  uint64_t crash_event = 0;    // kill the run at this event (0: never)
  int crash_mode = 0;          // in-flight commands: 0 as they are, 1 complete, 2 mixed
  uint64_t clock_start = 0;
  int64_t clock_jump = 0;      // applied at event clock_jump_event
  uint64_t clock_jump_event = 0;
  double spurious = 0.0;       // spurious condition-variable wakeups
  int chunk = 0;               // max chunk size of captured output (0: whole)
  std::vector<FsFault> fs;
  std::vector<CmdFault> cmd;
  std::vector<MidEdit> edits;
  struct CbFault { std::string match; int mode = 1; int when = 0; int count = 1; int seen = 0; };
  std::vector<CbFault> cb;      // generator callbacks: mode 1 returns false, 2 throws an exception, 3 throws an int
  uint64_t dir_salt = 0;       // directory listing order
  uint64_t dur_scale = 1000000; // mean simulated command duration (ns)
};

// ---------------------------------------------------------------- results in shared memory
constexpr size_t kLogCap = 6u << 20;
constexpr size_t kDevCap = 200000;
enum FaultStat { FS_CMD = 0, FS_SIG, FS_SPAWN, FS_FSERR, FS_SHORT, FS_KILL, FS_EDIT, FS_CLOCK, FS_SPURIOUS, FS_CHUNK, FS_CB, FS_STARVE, FS_NKINDS };
extern const char *const kFaultName[FS_NKINDS];
struct Shm {
  uint64_t steps, points, switches, events, sim_start, sim_end;
  uint64_t sched_hash;     // hash of the sequence of context switches
  uint64_t accesses;
  uint32_t nthreads;
  uint32_t status;         // 0 running/normal exit, 1 killed by plan, 2 deadlock, 3 budget, 4 harness error, 5 clean end of script
  uint32_t races;
  uint32_t ndev, devovf;
  uint64_t fault[FS_NKINDS];
  uint64_t fsops[F_NOPS];
  uint64_t uniq;           // unique mtime counter (persists across runs of a history)
  char note[4096];
  size_t loglen;
  Deviation dev[kDevCap];
  char log[kLogCap];
};
extern Shm *shm;

// ---------------------------------------------------------------- runtime API (child)
extern bool g_on;                       // simulation active in this process
extern thread_local int t_rt;           // >0: inside the runtime, callbacks ignored
extern Plan plan;

struct InRt { InRt() { ++t_rt; } ~InRt() { --t_rt; } };

void start(const Plan &p, Shm *s);      // calling thread becomes thread 0
[[noreturn]] void finish(int status, int code);  // end the simulated process now
void point(const char *what);           // scheduling point
uint64_t event_count();
uint64_t event(const char *what);       // observable effect: crash/edit point + scheduling point
void yield_point();
void sleep_ns(uint64_t ns);             // simulated time
uint64_t now();                         // simulated clock (ns)
uint64_t fresh_mtime();                 // unique timestamp near the simulated clock
int self_id();
uint64_t rnd(uint64_t n);               // environment randomness (not scheduling)
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void set_crash_hook(void (*fn)());
void wait_on(const void *obj);           // block until wake_on(obj)
void wake_on(const void *obj);           // wake every thread blocked on obj (no scheduling point)

// happens-before hooks (race detector)
void hb_acquire(const void *obj);
void hb_release(const void *obj);
void hb_clear(const void *p, size_t n);
void race_init();
void hb_thread_create(int parent, int child);
void hb_thread_join(int joiner, int child);
const char *stack_pool_base();
constexpr size_t kStackSlot = 1u << 20;
constexpr int kMaxT = 256;
extern uint32_t g_stack_gen[kMaxT];
void mem_preempt();                     // called when the access countdown hits zero
extern uint64_t g_step;
extern uint64_t g_next_preempt;

// ---------------------------------------------------------------- fs (child and engine)
extern std::string g_root;              // real directory behind the virtual prefix
std::string real_path(const std::string &virt);
bool read_file(const std::string &virt, std::string &out);   // raw, no faults, no points
bool write_file(const std::string &virt, const std::string &data, uint64_t mtime);
bool file_exists(const std::string &virt);
void make_dirs(const std::string &virt);
uint64_t file_mtime(const std::string &virt);
void fs_init();

uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull);
std::string hex(uint64_t v);
}  // namespace sim
