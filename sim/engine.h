// Shared between the history executor, the oracles and the search driver.
#pragma once
#include "ops.h"
#include "rt.h"
#include "script.h"
#include "spec.h"
#include <map>
#include <set>
#include <string>
#include <vector>

namespace eng {
using std::map;
using std::set;
using std::string;
using std::vector;

struct Viol { string prop, kind, msg; int op; };

struct Cmd { int id = 0; char kind = 'x'; string out, cwd, cmd; int cs = -1, ce = -1, rc = 0; bool ended = false; };
struct GenRun { string key; int gs = -1, ge = -1; bool ok = false; };
struct FileEv { int line; string path; uint64_t ev; };

struct Run {                   // what one simulated process did
  int status = 0, code = 0;
  string log, out, note;
  vector<Cmd> cmds;
  vector<GenRun> gens;
  vector<FileEv> ow, cw;
  vector<string> lines;
  bool post = false, done = false, badpassed = false, bad = false;
  int post_line = -1;
  uint64_t events = 0, steps = 0, points = 0, switches = 0, accesses = 0, sched_hash = 0, sim_ns = 0;
  uint32_t races = 0, nthreads = 0, ndev = 0, devovf = 0;
  uint64_t fault[sim::FS_NKINDS] = {0};
  uint64_t fsops[sim::F_NOPS] = {0};
  vector<sim::Deviation> dev;
  uint64_t hash = 0;
  string harness;              // not empty: the harness itself failed
};

struct Stats {
  uint64_t runs = 0, dry = 0, events = 0, steps = 0, points = 0, switches = 0, accesses = 0, sim_ns = 0, cmds = 0, callbacks = 0, oracle = 0;
  uint64_t fault[sim::FS_NKINDS] = {0};
  uint64_t ops[ops::O_N] = {0}, specops[ops::M_N] = {0};
  uint64_t fskind[sim::F_NOPS] = {0};
  uint64_t success = 0, failed = 0, killed = 0, noop = 0;
};

struct Disk {
  map<string, std::pair<string, uint64_t>> files;   // virtual path -> contents, mtime
  set<string> dirs;
};

struct Exec {                  // executes one history
  string prop;                 // property under check: decides which oracles matter
  ops::History h;
  spec::World w;
  ops::Files f;
  uint64_t uniq = 1;
  vector<Viol> viol;
  Stats st;
  vector<uint64_t> scheds, states;
  uint64_t hash = 1469598103934665603ull;
  string harness;
  string narrative;
  bool verbose = false;
  // carried between builds
  map<string, std::pair<uint64_t, uint64_t>> synced;   // what is on disk for user files
  bool have_prev = false;      // last run was an undisturbed success
  spec::Model prev;
  bool scratch = true;
  bool unchanged = false;      // nothing edited since the last run
  set<string> pend;
  set<string> redo;            // steps the next run has to execute when unchanged
  set<string> done;            // steps the next run must not repeat when unchanged (the failed run completed them)
  bool fsnoop = false;         // last run had storage errors and still reported success
  int opi = 0;
  uint64_t evals = 0;
  vector<sim::Deviation> last_dev; uint32_t last_devovf = 0; uint64_t last_steps = 0;

  void begin(const ops::History &hist);
  void exec(const ops::Op &op);       // runs one op
  Run dry(const ops::Op &op);         // run without faults, disk restored afterwards
  void add(const string &prop, const string &kind, const string &msg);
  bool stop() const { return !viol.empty() || !harness.empty(); }

  void sync();
  Run launch(const sim::Plan &plan, const Scen *sc);
  void build(const ops::Op &op);
  void build_active(const ops::Op &op);
  void scen(const ops::Op &op);
  void damage(const ops::Op &op);
  void judge(const spec::Model &m, const ops::Op &op, const Run &r);
  void judge_bx(const ops::Op &op, const Run &r, bool changed);
  bool bx_ok = false; uint64_t bx_step = 0;   // the last run of buildexe succeeded undisturbed, and with which settings
  void judge_scen(const ops::Op &op, const Run &r);
  void order(const spec::Model &m, const Run &r);
  void tests(const Run &r);
  int last_code = 0;
  void ccdb(const spec::Model &m, const Run &r, const set<string> &tags);
  set<string> executed(const spec::Model &m, const Run &r, bool only_ok) const;
};

Disk take_disk();
void put_disk(const Disk &d);
void wipe_disk();
bool setup_root(const string &dir);
void remove_root();
extern sim::Shm *g_shm;
void init_shm();

// online generation of a history for a property
void generate(Exec &x, uint64_t seed, bool thorough);
}  // namespace eng
