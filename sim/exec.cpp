// Executes histories: keeps the simulated disk in step with the world, forks
// one simulated process per run, and applies the oracles to what it did.
#include "engine.h"
#include "bx.h"
#include <filesystem>
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <nlohmann/json.hpp>

namespace eng {
using namespace spec;
using namespace ops;
sim::Shm *g_shm = nullptr;

void init_shm() {
  g_shm = (sim::Shm *)mmap(nullptr, sizeof(sim::Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (g_shm == MAP_FAILED) _exit(99);
}

// ------------------------------------------------------------ disk
static void list_dir(const string &real, vector<std::pair<string, bool>> &out) {
  int fd = ::openat(AT_FDCWD, real.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
  if (fd < 0) return;
  static char buf[65536];
  for (;;) {
    long n = ::syscall(SYS_getdents64, fd, buf, sizeof buf);
    if (n <= 0) break;
    for (long o = 0; o < n;) {
      struct D { uint64_t ino; int64_t off; unsigned short len; unsigned char type; char name[]; } *d = (D *)(buf + o);
      string nm = d->name;
      if (nm != "." && nm != "..") out.push_back({nm, d->type == DT_DIR});
      o += d->len;
    }
  }
  ::close(fd);
  std::sort(out.begin(), out.end());
}
static void walk(const string &v, Disk &d) {
  vector<std::pair<string, bool>> e;
  list_dir(sim::real_path(v), e);
  for (auto &[n, isdir] : e) {
    string p = v + "/" + n;
    if (isdir) { d.dirs.insert(p); walk(p, d); }
    else { string t; if (sim::read_file(p, t)) d.files[p] = {t, sim::file_mtime(p)}; }
  }
}
Disk take_disk() { Disk d; walk("/w", d); return d; }
static void wipe(const string &v) {
  vector<std::pair<string, bool>> e;
  list_dir(sim::real_path(v), e);
  for (auto &[n, isdir] : e) {
    string p = v + "/" + n;
    if (isdir) { wipe(p); ::rmdir(sim::real_path(p).c_str()); }
    else ::unlink(sim::real_path(p).c_str());
  }
}
void wipe_disk() { wipe("/w"); }
void put_disk(const Disk &d) {
  Disk now = take_disk();
  for (auto &[p, c] : now.files) { auto it = d.files.find(p); if (it == d.files.end()) ::unlink(sim::real_path(p).c_str()); }
  for (auto i = now.dirs.rbegin(); i != now.dirs.rend(); ++i) if (!d.dirs.count(*i)) ::rmdir(sim::real_path(*i).c_str());
  for (auto &p : d.dirs) if (!now.dirs.count(p)) sim::make_dirs(p);
  for (auto &[p, c] : d.files) { auto it = now.files.find(p); if (it == now.files.end() || it->second != c) sim::write_file(p, c.first, c.second); }
}
bool setup_root(const string &dir) {
  sim::g_root = dir;
  return ::mkdir(dir.c_str(), 0700) == 0 || errno == EEXIST;
}
void remove_root() { wipe_disk(); ::rmdir(sim::g_root.c_str()); }

// ------------------------------------------------------------ one simulated process
static void on_end(int status, void *) {
  if (!sim::g_on) return;
  if (sim::self_id() != 0) { sim::logf("EXIT-ON-WORKER"); }
  script_at_exit();
  sim::finish(0, status & 0xff);
}
static void on_signal(int s) {
  if (!sim::g_on) _exit(128 + s);
  sim::logf("SIGNAL %d", s);
  if (s == SIGPROF) { sim::note("no progress (cpu limit)"); sim::finish(3, 97); }
  sim::finish(0, 128 + s);
}
static vector<string> split_lines(const string &s) {
  vector<string> v;
  size_t i = 0;
  while (i < s.size()) { size_t e = s.find('\n', i); if (e == string::npos) e = s.size(); v.push_back(s.substr(i, e - i)); i = e + 1; }
  return v;
}
static void parse(Run &r) {
  r.lines = split_lines(r.log);
  map<int, size_t> byid;
  for (int i = 0; i < (int)r.lines.size(); i++) {
    const string &l = r.lines[(size_t)i];
    auto tok = [&](size_t from, size_t &end) { end = l.find(' ', from); if (end == string::npos) end = l.size(); return l.substr(from, end - from); };
    if (l.compare(0, 3, "CS ") == 0) {
      Cmd c;
      size_t e;
      c.id = atoi(tok(3, e).c_str());
      c.kind = l[e + 1];
      size_t a = l.find(" :: ", e), b = l.find(" :: ", a + 4);
      c.out = l.substr(e + 3, a - e - 3);
      c.cwd = l.substr(a + 4, b - a - 4);
      c.cmd = l.substr(b + 4);
      if (c.cwd == "-") c.cwd = "";
      c.cs = i;
      byid[c.id] = r.cmds.size();
      r.cmds.push_back(c);
    } else if (l.compare(0, 3, "CE ") == 0) {
      size_t e;
      int id = atoi(tok(3, e).c_str());
      auto it = byid.find(id);
      if (it == byid.end()) continue;
      Cmd &c = r.cmds[it->second];
      c.ce = i; c.ended = true;
      c.rc = atoi(l.c_str() + e + 3);
    } else if (l.compare(0, 3, "GS ") == 0) {
      GenRun g; g.key = l.substr(3); g.gs = i;
      r.gens.push_back(g);
    } else if (l.compare(0, 3, "GE ") == 0) {
      size_t e = l.rfind(' ');
      string k = l.substr(3, e - 3);
      for (auto g = r.gens.rbegin(); g != r.gens.rend(); ++g) if (g->key == k && g->ge < 0) { g->ge = i; g->ok = l.substr(e + 1) == "ok"; break; }
    } else if (l.compare(0, 3, "OW ") == 0 || l.compare(0, 3, "CW ") == 0) {
      size_t e = l.rfind(" @");
      FileEv f{i, l.substr(3, e - 3), strtoull(l.c_str() + e + 2, nullptr, 10)};
      (l[0] == 'O' ? r.ow : r.cw).push_back(f);
    } else if (l == "POST") { r.post = true; r.post_line = i; }
    else if (l == "DONE") r.done = true;
    else if (l == "BADPASSED") r.badpassed = true;
    else if (l.compare(0, 4, "BAD ") == 0) r.bad = true;
  }
}

Run Exec::launch(const sim::Plan &p0, const Scen *sc) {
  Run r;
  sim::Plan p = p0;
  p.clock_start = f.clock;
  p.dir_salt = h.wseed;
  memset((void *)g_shm, 0, offsetof(sim::Shm, dev));
  g_shm->loglen = 0;
  g_shm->uniq = uniq;
  int cap = memfd_create("out", MFD_CLOEXEC);
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    ::dup2(cap, 1);
    ::dup2(cap, 2);
    struct rlimit_guard {} g; (void)g;
    on_exit(on_end, nullptr);
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF}) {
      struct sigaction sa;
      memset(&sa, 0, sizeof sa);
      sa.sa_handler = on_signal;
      sa.sa_flags = SA_NODEFER;
      sigaction(s, &sa, nullptr);
    }
    static char alt[65536];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct itimerval it{};
    it.it_value.tv_sec = 60;
    setitimer(ITIMER_PROF, &it, nullptr);
    alarm(240);
    sim::start(p, g_shm);
    sim::t_rt = 0;
    if (sc) scen_run(*sc); else script_run(w);
    exit(0);
  }
  int stw = 0;
  while (waitpid(pid, &stw, 0) < 0 && errno == EINTR) {}
  sim::Shm *s = g_shm;
  r.status = (int)s->status;
  r.code = WIFEXITED(stw) ? WEXITSTATUS(stw) : 128 + WTERMSIG(stw);
  if (WIFSIGNALED(stw)) r.harness = "simulated process died by signal " + std::to_string(WTERMSIG(stw)) + " " + s->note;
  if (s->status == 4 || (WIFEXITED(stw) && r.code == 99)) r.harness = string("harness: ") + s->note;
  r.log.assign(s->log, s->loglen);
  r.note.assign(s->note, strnlen(s->note, sizeof s->note));
  if (s->loglen >= sim::kLogCap - 2) r.harness = "log overflow";
  r.events = s->events; r.steps = s->steps; r.points = s->points; r.switches = s->switches; r.accesses = s->accesses; r.sched_hash = s->sched_hash;
  r.sim_ns = s->sim_end > s->sim_start ? s->sim_end - s->sim_start : 0;
  r.races = s->races; r.nthreads = s->nthreads; r.ndev = s->ndev; r.devovf = s->devovf;
  memcpy(r.fault, s->fault, sizeof r.fault);
  memcpy(r.fsops, s->fsops, sizeof r.fsops);
  r.dev.assign(s->dev, s->dev + s->ndev);
  uniq = s->uniq;
  off_t n = lseek(cap, 0, SEEK_END);
  r.out.resize((size_t)n);
  if (n > 0 && pread(cap, &r.out[0], (size_t)n, 0) != n) r.out.clear();
  ::close(cap);
  r.hash = sim::fnv(r.log) ^ (r.sched_hash * 31) ^ (uint64_t)r.code;
  parse(r);
  return r;
}

// ------------------------------------------------------------ world on disk
void Exec::begin(const History &hist) {
  h.wseed = hist.wseed; h.size = hist.size; h.feat = hist.feat;
  sim::Rng r(hist.wseed);
  w = gen_world(r, hist.size, hist.feat);
  f.uniq = &uniq;
  f.clock = 1700000000ull * 1000000000ull + (hist.wseed % 1000) * 1000000000ull;
  wipe_disk();
  sim::make_dirs(kRoot);
  sim::make_dirs("/w/tc/none");
  sim::make_dirs("/w/tc/partial");
  for (const char *t : {"as", "gcc"}) sim::write_file(string("/w/tc/partial/") + t, string("TOOL ") + t + " partial\nversion 1\nmachine m\n", 1);
  for (auto &tc : w.sp.tcs) {
    string d = "/w/tc/" + tc.name + "/bin";
    sim::make_dirs(d);
    for (const char *t : {"as", "gcc", "g++", "ar", "ld", "gen", "echoer", "cl", "lib", "link"}) sim::write_file(d + "/" + t, string("TOOL ") + t + " " + tc.name + "\nversion 13.3.0\nmachine x86_64-linux-gnu\n", 1);
  }
}
void Exec::sync() {
  for (auto &[p, u] : w.files) {
    if (!u.there()) { if (synced.count(p)) { ::unlink(sim::real_path(p).c_str()); synced.erase(p); } continue; }
    string t = u.render(p);
    std::pair<uint64_t, uint64_t> k{sim::fnv(t), u.mtime};
    auto it = synced.find(p);
    if (it != synced.end() && it->second == k) continue;
    sim::make_dirs(tools::dir(p));
    sim::write_file(p, t, u.mtime);
    synced[p] = k;
  }
  for (auto it = synced.begin(); it != synced.end();) {
    if (!w.files.count(it->first)) { ::unlink(sim::real_path(it->first).c_str()); it = synced.erase(it); } else ++it;
  }
  for (auto &[p, t] : config_files(w.sp)) sim::write_file(p, t, 1);
  // library search and include directories exist
  for (auto &t : w.sp.tgts) { for (auto &d : t.inc) sim::make_dirs(d); for (auto &d : t.libdir) sim::make_dirs(d); }
}
void Exec::add(const string &p, const string &kind, const string &msg) {
  for (auto &v : viol) if (v.prop == p) return;      // first one per property is enough
  viol.push_back({p, kind, msg, opi});
}

void Exec::damage(const Op &op) {
  vector<string> c;
  for (auto &p : state_files(w)) if (sim::file_exists(p)) c.push_back(p);
  if (c.empty()) return;
  sim::Rng r(op.b * 7 + 3);
  size_t n = op.c % 3 == 0 ? c.size() : 1 + op.c % 2;
  for (size_t i = 0; i < n && !c.empty(); i++) {
    size_t k = (op.a + i) % c.size();
    string p = c[k], t;
    c.erase(c.begin() + (long)k);
    sim::read_file(p, t);
    int mode = (int)(op.b % 14);
    string what;
    switch (mode) {
    case 0: ::unlink(sim::real_path(p).c_str()); what = "removed"; break;
    case 1: t = ""; what = "emptied"; break;
    case 2: case 3: t = t.substr(0, r.below(t.size())); what = "truncated"; break;
    case 4: { size_t m = r.range(1, 300); t.clear(); for (size_t q = 0; q < m; q++) t += (char)r.below(256); what = "garbage"; break; }
    case 5: { static const char *g[] = {"{}", "[]", "null", "0", "{\"name\":1}", "\"x\"", "{\"ids\":{}}", " ", "\n"}; t = g[r.below(9)]; what = "foreign json"; break; }
    case 6: { int m = r.range(1, 3); for (int q = 0; q < m && !t.empty(); q++) t[r.below(t.size())] ^= (char)(1 << r.below(8)); what = "flipped bits"; break; }
    case 7: { if (!t.empty()) { size_t a = r.below(t.size()), l = 1 + r.below(64); for (size_t q = a; q < t.size() && q < a + l; q++) t[q] = 0; } what = "zeroed range"; break; }
    case 11: case 12: {           // a field is missing
      auto j = nlohmann::ordered_json::parse(t, nullptr, false);
      if (j.is_discarded()) { t = ""; what = "emptied"; break; }
      auto *n = &j;
      while (r.chance(0.3)) {
        vector<nlohmann::ordered_json *> in;
        for (auto &x : *n) if (x.is_structured() && !x.empty()) in.push_back(&x);
        if (in.empty()) break;
        n = in[r.below(in.size())];
      }
      // (a list without an element may be what a later description says)
      vector<string> flat;
      if (n->is_object()) for (auto &[k2, v2] : n->items()) if (!v2.is_structured()) flat.push_back(k2);
      if (!flat.empty() && r.chance(0.5)) n->erase(flat[r.below(flat.size())]);
      else if (n->is_object() && !n->empty()) n->erase(std::next(n->begin(), (long)r.below(n->size())));
      else *n = nullptr;
      t = j.dump(4, ' ', false, nlohmann::json::error_handler_t::replace);
      what = "without a field";
      break;
    }
    default: {                    // still JSON, with other values
      auto j = nlohmann::ordered_json::parse(t, nullptr, false);
      if (j.is_discarded()) { t = ""; what = "emptied"; break; }
      int m = r.range(1, 2);
      for (int q = 0; q < m; q++) {
        auto *n = &j;
        while (n->is_structured() && !n->empty() && !r.chance(0.1)) n = &*std::next(n->begin(), (long)r.below(n->size()));
        bool str = n->is_string();
        const bool cont = n->is_structured() && !n->empty();
        switch (r.below(8)) {
        case 0: *n = nullptr; break;
        case 1: *n = -1; break;
        case 2: *n = ""; break;
        case 3: if (n->is_array()) *n = 7; else *n = nlohmann::ordered_json::array(); break;
        case 4: *n = nlohmann::ordered_json::object(); break;
        case 5: if (str) { string s = n->get<string>(); *n = s.empty() ? "x" : s.substr(1); } else *n = 1e300; break;
        case 6: if (str) *n = "x" + n->get<string>(); else *n = "99999999999999999999999999"; break;
        default: if (cont && n->is_object()) n->erase(std::next(n->begin(), (long)r.below(n->size()))); else *n = false;
        }
      }
      t = j.dump(4, ' ', false, nlohmann::json::error_handler_t::replace);
      what = "changed values";
      break;
    }
    }
    if (mode) sim::write_file(p, t, f.fresh());
    narrative += "    " + p + " " + what + "\n";
  }
  pend.insert("C18");
  have_prev = false;
  redo.clear(); done.clear();
  fsnoop = false;
}

void Exec::exec(const Op &op) {
  h.ops.push_back(op);
  opi = (int)h.ops.size() - 1;
  st.ops[op.k]++;
  if (verbose) fprintf(stderr, "%s[%d] %s\n", opi == 0 || op.k != O_BUILD ? spec::describe(w).c_str() : "", opi, ops::describe(op).c_str());
  narrative += "[" + std::to_string(opi) + "] " + ops::describe(op) + "\n";
  switch (op.k) {
  case O_BUILD: build(op); break;
  case O_SCEN: scen(op); break;
  case O_DAMAGE: damage(op); unchanged = false; break;
  case O_DELBUILD:
    wipe(kBuild);
    scratch = true; have_prev = false; redo.clear(); done.clear(); fsnoop = false; unchanged = false;
    break;
  default: {
    World before = w;
    bool ch = ops::apply(w, op, f);
    if (!ch) narrative += "    (nothing to do)\n";
    else if (op.k == O_SPEC) st.specops[op.c % M_N]++;
    if (ch && op.k != O_SNAP && op.k != O_CLOCK) unchanged = false;
    break;
  }
  }
}

// for its lifetime the world is what the next run is asked to build
struct Active {
  World &w;
  spec::Spec full;
  explicit Active(World &x) : w(x), full(x.sp) { w.sp = spec::active(full); }
  ~Active() { w.sp = full; }
};

Run Exec::dry(const Op &op) {
  sync();
  Active on(w);
  Disk d = take_disk();
  uint64_t u = uniq;
  sim::Plan p = op.plan;
  p.crash_event = 0; p.fs.clear(); p.cmd.clear(); p.cb.clear(); p.edits.clear(); p.race = false;
  Scen sc{(int)op.a, op.b, (int)op.c, op.c};
  if (op.k == O_SCEN && op.a == 8) { string what; bx::lay_out(bx::make(op.c, op.b), op.c, op.b, f, what); }
  Run r = launch(p, op.k == O_SCEN ? &sc : nullptr);
  uniq = u;
  put_disk(d);
  st.dry++;
  if (!r.harness.empty()) harness = r.harness;
  return r;
}

static void account(Stats &st, const Run &r) {
  st.runs++;
  st.events += r.events; st.steps += r.steps; st.points += r.points; st.switches += r.switches; st.accesses += r.accesses; st.sim_ns += r.sim_ns;
  for (int i = 0; i < sim::FS_NKINDS; i++) st.fault[i] += r.fault[i];
  st.cmds += r.cmds.size(); st.callbacks += r.gens.size();
  if (r.status == 1) st.killed++; else if (r.code == 0) st.success++; else st.failed++;
}

// redundant path elements removed, by text
static string plain_paths(string s) {
  static const char *in[] = {"/./", "//", "/zz/../", "/y y/../"};
  for (bool again = true; again;) {
    again = false;
    for (auto x : in) for (size_t i; (i = s.find(x)) != string::npos; again = true) s.replace(i, strlen(x), "/");
  }
  return s;
}

void Exec::build(const Op &op) {
  sync();
  { Active on(w); build_active(op); }
  refresh(w);
}
void Exec::build_active(const Op &op) {
  Model m = model(w);
  sim::Plan p = op.plan;
  for (auto &e : op.med) {
    auto it = w.files.find(e.path);
    if (it == w.files.end() || !it->second.there()) continue;
    UFile u = it->second;
    u.ver = w.ver++;
    sim::MidEdit me;
    me.event = e.event; me.path = e.path; me.content = u.render(e.path); me.mtime = 0;
    p.edits.push_back(me);
  }
  Run ref, ref_next;
  bool diff = op.diff && p.edits.empty();
  if (diff) {
    Disk d = take_disk();
    uint64_t u = uniq;
    sim::Plan q = p;
    q.strategy = sim::S_SEQ; q.workers = 1; q.race = false; q.fs.clear(); q.cmd.clear(); q.cb.clear(); q.crash_event = 0; q.trace.clear(); q.victim = -1;
    const Spec kept = w.sp;
    if (prop == "C22" || prop == "C24") { q.strategy = p.strategy; q.workers = p.workers; }
    if (prop == "C22") w.sp.spell = 0;
    if (prop == "C24") for (auto &t : w.sp.tgts) { if (t.style == 2 && t.sync) t.glob = t.globinc = false; t.sync = 0; if (t.style == 2) t.style = 0; }
    ref = launch(q, nullptr);
    w.sp = kept;
    if (!ref.harness.empty()) { harness = ref.harness; return; }
    Disk after = take_disk();
    if (op.plan.seed % 2) { ref_next = launch(q, nullptr); put_disk(after); st.dry++; }
    ref.out.clear();
    for (auto &[path, c] : after.files) if (m.out.count(path)) ref.out += path + " " + sim::hex(sim::fnv(c.first)) + "\n";
    uniq = u;
    put_disk(d);
    account(st, ref);
  }
  Run r = launch(p, nullptr);
  if (verbose) { fprintf(stderr, "%s", r.log.c_str()); fprintf(stderr, "--- out\n%s--- status %d code %d events %llu steps %llu points %llu switches %llu note %s\n", r.out.c_str(), r.status, r.code, (unsigned long long)r.events, (unsigned long long)r.steps, (unsigned long long)r.points, (unsigned long long)r.switches, r.note.c_str()); }
  account(st, r);
  for (auto &fl : p.fs) (void)fl;
  if (!r.harness.empty()) { harness = r.harness; return; }
  scheds.push_back(r.sched_hash);
  hash = sim::fnv(r.log, hash) ^ r.sched_hash;
  last_dev = r.dev; last_devovf = r.devovf; last_steps = r.steps;
  last_code = r.status ? 1 : r.code;
  narrative += "    -> " + string(r.status == 1 ? "killed" : r.status == 2 ? "DEADLOCK" : r.status == 3 ? "NO TERMINATION" : "exit " + std::to_string(r.code)) + ", " + std::to_string(r.cmds.size()) + " commands, " + std::to_string(r.gens.size()) + " callbacks, " + std::to_string(r.events) + " events\n";
  if (diff && r.status == 0) {
    bool quiet = true;
    for (int k : {sim::FS_CMD, sim::FS_SIG, sim::FS_SPAWN, sim::FS_FSERR, sim::FS_SHORT, sim::FS_CB}) if (r.fault[k]) quiet = false;
    if (quiet && m.ok && !w.sp.baddep) {
      evals++;
      auto bag = [](const Run &x) { vector<string> v; for (auto &c : x.cmds) v.push_back(plain_paths(c.cwd + ":" + c.cmd)); for (auto &g : x.gens) v.push_back("callback " + g.key); std::sort(v.begin(), v.end()); return v; };
      auto a = bag(ref), b = bag(r);
      string outs;
      for (auto &[path, c] : m.out) { string t; if (sim::read_file(path, t)) outs += path + " " + sim::hex(sim::fnv(t)) + "\n"; }
      if (prop == "C24") {
        if ((ref.code == 0) != (r.code == 0)) add("C24", "shared-exit", "options taken over from shared descriptions: the run exits " + std::to_string(r.code) + " instead of " + std::to_string(ref.code));
        else if (a != b) {
          string d1;
          for (auto &x : b) if (std::count(b.begin(), b.end(), x) > std::count(a.begin(), a.end(), x)) { d1 = "only when taken over: " + x; break; }
          if (d1.empty()) for (auto &x : a) if (std::count(b.begin(), b.end(), x) < std::count(a.begin(), a.end(), x)) { d1 = "missing when taken over: " + x; break; }
          add("C24", "shared-work", "executed work depends on where the options of a target come from: " + d1);
        } else if (ref.out != outs) add("C24", "shared-outputs", "outputs depend on where the options of a target come from");
      } else if (prop == "C22") {
        if ((ref.code == 0) != (r.code == 0)) add("C22", "spelling-exit", "equivalent spellings of the declared paths: the run exits " + std::to_string(r.code) + " instead of " + std::to_string(ref.code));
        else if (a != b) {
          string d1;
          for (auto &x : b) if (std::count(b.begin(), b.end(), x) > std::count(a.begin(), a.end(), x)) { d1 = "only with other spellings: " + x; break; }
          if (d1.empty()) for (auto &x : a) if (std::count(b.begin(), b.end(), x) < std::count(a.begin(), a.end(), x)) { d1 = "missing with other spellings: " + x; break; }
          add("C22", "spelling-work", "executed work depends on the spelling of the declared paths: " + d1);
        } else if (ref.out != outs) add("C22", "spelling-outputs", "outputs depend on the spelling of the declared paths");
      } else if ((ref.code == 0) != (r.code == 0)) add("C10", "exit-differs", "one worker exits " + std::to_string(ref.code) + ", " + std::to_string(p.workers) + " workers exit " + std::to_string(r.code));
      else if (a != b) {
        string d1;
        for (auto &x : a) if (std::count(b.begin(), b.end(), x) != std::count(a.begin(), a.end(), x)) { d1 = x; break; }
        if (d1.empty()) for (auto &x : b) if (std::count(b.begin(), b.end(), x) != std::count(a.begin(), a.end(), x)) { d1 = x; break; }
        add("C10", "work-differs", "executed work depends on the schedule: " + d1);
      } else if (ref.out != outs) add("C10", "outputs-differ", "outputs depend on the schedule");
      else if (op.plan.seed % 2) {
        // what a following run does must not depend on it either
        Disk d = take_disk();
        uint64_t u = uniq;
        sim::Plan q = p;
        q.strategy = sim::S_SEQ; q.workers = 1; q.race = false; q.fs.clear(); q.cmd.clear(); q.cb.clear(); q.crash_event = 0; q.trace.clear(); q.victim = -1;
        Run next = launch(q, nullptr);
        uniq = u;
        put_disk(d);
        st.dry++;
        auto a2 = bag(ref_next), b2 = bag(next);
        if (a2 != b2) add("C10", "next-work-differs", "the work of the next run depends on the schedule of this one: " + std::to_string(a2.size()) + " and " + std::to_string(b2.size()) + " steps");
      }
    }
  }
  judge(m, op, r);
  // edits that happened while it ran
  for (auto &me : p.edits) {
    UFile &u = w.files[me.path];
    f.old[me.path].push_back(u);
    f.racy.insert(me.path);
    // content of the last planned version wins
    string now;
    sim::read_file(me.path, now);
    bool fired = r.log.find("EDIT " + me.path + "\n") != string::npos && now == me.content;
    for (auto &e2 : p.edits) (void)e2;
    int ver = atoi(me.content.c_str() + me.content.find(" v") + 2);
    u.ver = ver;
    if (fired) { u.mtime = sim::file_mtime(me.path); synced[me.path] = {sim::fnv(me.content), u.mtime}; }
    else u.mtime = f.fresh();
  }
  if (!p.edits.empty()) { refresh(w); unchanged = false; }
  f.clock = std::max(f.clock, f.clock + r.sim_ns) + 1000000000ull;
  scratch = false;
}

// ------------------------------------------------------------ oracles
static string short_diff(const string &want, const string &have) {
  auto a = split_lines(want), b = split_lines(have);
  for (size_t i = 0; i < std::max(a.size(), b.size()); i++) {
    string x = i < a.size() ? a[i] : "<end>", y = i < b.size() ? b[i] : "<end>";
    if (x != y) return "line " + std::to_string(i + 1) + ": expected '" + x.substr(0, 160) + "' found '" + y.substr(0, 160) + "'";
  }
  return "same lines";
}

// keys of the model steps a run executed; commands that belong to no step are returned under their own path
set<string> Exec::executed(const Model &m, const Run &r, bool only_ok) const {
  set<string> s;
  for (auto &c : r.cmds) {
    if (c.kind == 'v' || c.kind == 't' || c.kind == 'x') continue;
    if (only_ok && (!c.ended || c.rc)) continue;
    auto it = m.step_of_out.find(c.out);
    s.insert(it == m.step_of_out.end() ? "?" + c.out : it->second);
  }
  for (auto &g : r.gens) if (!only_ok || g.ok) s.insert("G:" + g.key);
  for (auto &o : only_ok ? r.cw : r.ow) {
    auto it = m.step_of_out.find(o.path);
    if (it == m.step_of_out.end()) continue;
    const Step &sp = m.steps.at(it->second);
    const Gen *g = find_gen(w.sp, sp.builder);
    if (g && g->kind == 2) s.insert(sp.key);
  }
  return s;
}

void Exec::order(const Model &m, const Run &r) {
  evals++;
  map<string, int> count;
  struct Span { int first = 1 << 30, last = -1; string fs, ls; };
  map<string, Span> sp;
  map<string, int> pch_end, comp_first, comp_last, link_first;
  auto start = [&](const string &b, int i, const string &w2) { auto &x = sp[b]; if (i < x.first) { x.first = i; x.fs = w2; } };
  auto end = [&](const string &b, int i, const string &w2) { auto &x = sp[b]; if (i < 0) i = 1 << 29; if (i > x.last) { x.last = i; x.ls = w2; } };
  for (auto &c : r.cmds) {
    if (c.kind == 'v' || c.kind == 't' || c.kind == 'x') continue;
    if (++count[c.out] > 1) { add("C03", "command-twice", "issued twice in one run: " + c.cmd); return; }
    auto it = m.owner.find(c.out);
    if (it == m.owner.end()) { add("C03", "unknown-command", "command of no declared step: " + c.cmd); return; }
    start(it->second, c.cs, c.cmd);
    end(it->second, c.ended ? c.ce : -1, c.cmd);
    const string &b = it->second;
    if (c.kind == 'p') pch_end[b] = c.ended ? c.ce : 1 << 29;
    if (c.kind == 'c') { if (!comp_first.count(b)) comp_first[b] = c.cs; comp_last[b] = std::max(comp_last.count(b) ? comp_last[b] : -1, c.ended ? c.ce : 1 << 29); }
    if ((c.kind == 'l' || c.kind == 'a')) link_first[b] = c.cs;
  }
  for (auto &g : r.gens) {
    if (++count["G:" + g.key] > 1) { add("C03", "callback-twice", "generator step ran twice in one run: " + g.key); return; }
    string b = g.key.substr(0, g.key.find('/'));
    start(b, g.gs, g.key);
    end(b, g.ge, g.key);
  }
  auto is_file_gen = [&](const string &b) { const Gen *g = find_gen(w.sp, b); return g && g->kind == 2; };
  map<string, int> wr;
  for (auto &o : r.ow) {
    auto it = m.owner.find(o.path);
    if (it == m.owner.end()) continue;
    start(it->second, o.line, "write " + o.path);
    if (is_file_gen(it->second) && ++wr[o.path] > 1) { add("C03", "callback-twice", "template generated twice in one run: " + o.path); return; }
  }
  for (auto &o : r.cw) { auto it = m.owner.find(o.path); if (it != m.owner.end() && is_file_gen(it->second)) end(it->second, o.line, "write " + o.path); }
  for (auto &[b, s] : sp) {
    auto d = m.deps.find(b);
    if (d == m.deps.end()) continue;
    for (auto &x : d->second) {
      auto y = sp.find(x);
      if (y == sp.end()) continue;
      if (y->second.last > s.first) { add("C03", "dependency-order", b + " started '" + s.fs + "' before its dependency " + x + " finished '" + y->second.ls + "'"); return; }
    }
  }
  for (auto &[b, i] : comp_first) if (pch_end.count(b) && pch_end[b] > i) { add("C03", "pch-order", b + ": a source was compiled before its precompiled header was complete"); return; }
  for (auto &[b, i] : link_first) if ((comp_last.count(b) && comp_last[b] > i) || (pch_end.count(b) && pch_end[b] > i)) { add("C03", "link-order", b + ": linked before all sources were compiled"); return; }
}

static string strip_sp(const string &s) { string o; for (char c : s) if (c != ' ') o += c; return o; }

void Exec::tests(const Run &r) {
  if (w.sp.tests.empty() && w.sp.offtests.empty()) return;
  evals++;
  bool anyfail = false;
  map<string, vector<const Cmd *>> by;
  for (auto &c : r.cmds) {
    if (c.kind != 't') continue;
    if (c.ended && c.rc) anyfail = true;
    if (c.cs < r.post_line) { add("C13", "test-before-build", "test started before the post-build step was done: " + c.cmd); return; }
    auto av = tools::split_cmd(c.cmd);
    string tag = "?";
    for (size_t i = 0; i + 1 < av.size(); i++) if (av[i] == "--tag") tag = av[i + 1];
    by[tag].push_back(&c);
  }
  for (auto &[tag, v] : by) {
    bool known = false;
    for (auto &x : w.sp.tests) if (x.tag == tag) known = true;
    if (!known) { add("C13", "test-not-asked-for", "a test ran that is switched off: " + v[0]->cmd); return; }
  }
  for (auto &x : w.sp.tests) {
    auto &v = by[x.tag];
    if (v.size() != 1) { add("C13", v.empty() ? "test-not-run" : "test-twice", "test of " + x.tgt + " was started " + std::to_string(v.size()) + " times"); return; }
    const Tgt &t = *find_tgt(w.sp, x.tgt);
    string want = tgt_out(w, t) + " --tag " + x.tag + " --lines " + std::to_string(x.lines) + " --elines " + std::to_string(x.elines) + " --rc " + std::to_string(x.rc);
    string have;
    for (auto &a : tools::split_cmd(v[0]->cmd)) have += (have.empty() ? "" : " ") + a;
    if (have != want) { add("C13", "test-command", "test command is '" + have + "', expected '" + want + "'"); return; }
    if (v[0]->cwd != (x.cwd ? string(kBuild) : "")) { add("C13", "test-cwd", "test of " + x.tgt + " ran in '" + v[0]->cwd + "'"); return; }
    if (!v[0]->ended || v[0]->rc) continue;
    string so, se;
    for (int i = 0; i < x.lines; i++) so += "<" + x.tag + ":o:" + std::to_string(i) + ">\n";
    for (int i = 0; i < x.elines; i++) se += "<" + x.tag + ":e:" + std::to_string(i) + ">\n";
    string uid = "[" + w.sp.tcs[(size_t)t.tc].name + "] " + x.tgt;
    auto printed = [&](const char *st, const string &txt) {
      if (w.sp.loglevel == 3) return true;
      string tag = string("[") + st + ": " + uid + "]:";
      size_t k = r.out.find(tag);
      if (k == string::npos) return false;
      // the message continues up to the end of the expected text; the next
      // line must not carry on with test output
      string rest = strip_sp(r.out.substr(k + tag.size(), txt.size() * 3 + 64));
      if (rest.compare(0, txt.size(), txt) != 0) return false;
      string after = rest.substr(txt.size());
      return !(after.size() > 1 && after[0] == '<' && after[1] == 'T');
    };
    if (x.out >= 4) {
      auto esc = [](const string &s) { string o; for (char c : s) { if (c == '\n') o += "\\n"; else o += c; } return o; };
      for (int e = 0; e < 2; e++) {
        if (x.out == (e ? 5 : 6)) continue;
        string want2 = "UR " + x.tag + (e ? " e " : " o ") + esc(e ? se : so);
        if (std::find(r.lines.begin(), r.lines.end(), want2) == r.lines.end()) { add("C13", "test-output", "redirected " + string(e ? "stderr" : "stdout") + " of " + x.tgt + " is not what the test printed"); return; }
      }
    }
    if ((x.out == 2 || x.out == 3) && !printed("STDOUT", so)) { add("C13", "test-output", "printed stdout of " + x.tgt + " is not what the test printed"); return; }
    if ((x.out == 1 || x.out == 3) && !printed("STDERR", se)) { add("C13", "test-output", "printed stderr of " + x.tgt + " is not what the test printed"); return; }
  }
  if (r.status == 0) {
    if (anyfail && r.code == 0) add("C13", "test-failure-ignored", "a test failed but the run exited 0");
    if (!anyfail && r.code != 0 && r.post) add("C13", "tests-pass-run-fails", "all tests passed but the run exited " + std::to_string(r.code));
  }
}

void Exec::ccdb(const Model &m, const Run &, const set<string> &tags) {
  using nlohmann::json;
  evals++;
  string p = string(kRoot) + "/compile_commands.json", t;
  string alt = string(kBuild) + "/compile_commands.json";
  auto bad = [&](const string &k, const string &msg) { for (auto &x : tags) add(x, k, msg); };
  if (!sim::read_file(alt, t) && !sim::read_file(p, t)) return bad("ccdb-missing", "no compile_commands.json after a successful run");
  json j = json::parse(t, nullptr, false);
  if (j.is_discarded() || !j.is_array()) return bad("ccdb-invalid", "compile_commands.json is not valid JSON");
  vector<string> a, b;
  for (auto &e : j) {
    if (!e.is_object() || !e.contains("file") || !e.contains("command") || !e.contains("directory")) return bad("ccdb-invalid", "entry without file, command or directory");
    string c;
    for (auto &x : tools::split_cmd(e["command"].get<string>())) c += (c.empty() ? "" : " | ") + x;
    struct stat sb;
    if (::stat(sim::real_path(e["directory"].get<string>()).c_str(), &sb) || !S_ISDIR(sb.st_mode)) return bad("ccdb-directory", "entry whose directory does not exist: " + e["directory"].get<string>());
    a.push_back(e["file"].get<string>() + " :: " + c);
  }
  for (auto &[s, c] : m.ccdb) b.push_back(s + " :: " + c);
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  if (a != b) {
    string d;
    for (auto &x : b) if (std::count(a.begin(), a.end(), x) != std::count(b.begin(), b.end(), x)) { d = "missing or outdated: " + x; break; }
    if (d.empty()) for (auto &x : a) if (std::count(a.begin(), a.end(), x) != std::count(b.begin(), b.end(), x)) { d = "unexpected: " + x; break; }
    bad("ccdb-stale", "compile_commands.json does not match the build: " + d);
  }
}

void Exec::judge(const Model &m, const Op &op, const Run &r) {
  const bool killed = r.status == 1, hang = r.status == 2 || r.status == 3;
  const bool fsh = r.fault[sim::FS_FSERR] || r.fault[sim::FS_SHORT];
  const bool injected = r.fault[sim::FS_CMD] || r.fault[sim::FS_SIG] || r.fault[sim::FS_SPAWN] || r.fault[sim::FS_CB];
  const bool edited = !op.med.empty();
  // every run
  if (r.races) { evals++; string first; for (auto &l : r.lines) if (l.compare(0, 5, "RACE ") == 0) { first = l; break; } add("C11", "race", first); }
  else if (op.plan.race) evals++;
  if (prop == "C12") evals++;
  // failed steps, as observed
  set<string> failed_steps, failed_builders;
  bool vfail = false, tfail = false;
  auto note_fail = [&](const string &key) { failed_steps.insert(key); auto it = m.steps.find(key); if (it != m.steps.end()) failed_builders.insert(it->second.builder); };
  for (auto &c : r.cmds) {
    if (!c.ended || c.rc == 0) continue;
    if (c.kind == 'v') vfail = true;
    else if (c.kind == 't') tfail = true;
    else if (c.kind != 'x') { auto it = m.step_of_out.find(c.out); note_fail(it == m.step_of_out.end() ? "?" : it->second); }
  }
  for (auto &g : r.gens) if (g.ge >= 0 && !g.ok) note_fail("G:" + g.key);
  const bool stepfail = !failed_steps.empty();
  bool tests_rc0 = true;
  for (auto &t : w.sp.tests) if (t.rc) tests_rc0 = false;

  if (hang) {
    string why = r.status == 2 ? "deadlock" : "no-termination";
    add("C12", why, r.note.substr(0, 300));
    if (stepfail || (!m.ok && !w.sp.baddep)) add("C04", why, "a step failed and the run never exits");
    if (tfail) add("C13", why, "a test failed and the run never exits");
    if (fsh) add("C09", why, "a storage error makes the run hang");
    if (!stepfail && !fsh && !tfail && m.ok) for (auto &t : pend) add(t, why, "the next run never exits");
    have_prev = false; redo.clear(); done.clear(); fsnoop = false; unchanged = true;
    return;
  }

  if (w.sp.baddep) {
    if (!killed && !fsh && !vfail) {
      evals++;
      if (w.sp.baddep >= 7) {
        static const char *what[] = {"a step identifier declared twice", "a builder registered twice", "a second test of a target", "a test of a target that is not built", "a wrong use of the storage", "a step without a callback", "a target of an unknown type", "a placeholder that nothing defines", "a null target"};
        if (r.badpassed || r.code == 0) add("C25", "contradiction-accepted", string(what[w.sp.baddep - 7]) + " was accepted");
        for (auto &c : r.cmds) if (c.kind != 'v') { add("C25", "contradiction-ran", string("work was started despite ") + what[w.sp.baddep - 7] + ": " + c.cmd); break; }
        if (!r.gens.empty()) add("C25", "contradiction-ran", string("a generator ran despite ") + what[w.sp.baddep - 7]);
      }
      else if (w.sp.baddep >= 5) { if (w.sp.tgts.empty()) {} else if (r.badpassed || r.code == 0) add("C22", "wrong-kind-accepted", "a file of another kind was accepted as a " + string(w.sp.baddep == 5 ? "source" : "header")); }
      else if (r.badpassed || r.code == 0) add("C03", "bad-dependency-accepted", "an unsatisfiable dependency declaration was accepted");
      if (w.sp.baddep < 5) for (auto &c : r.cmds) if (c.kind != 'v') { add("C03", "bad-dependency-ran", "work was started despite an unsatisfiable dependency: " + c.cmd); break; }
      if (w.sp.baddep < 5 && !r.gens.empty()) add("C03", "bad-dependency-ran", "generator ran despite an unsatisfiable dependency");
    }
    if (killed) pend.insert("C07");
    if (fsh) pend.insert("C09");
    unchanged = true;
    redo.clear(); done.clear();
    if (killed || fsh) have_prev = false;
    return;
  }

  if (!edited) order(m, r);

  // every source goes to the tool of its kind, once
  if (!edited && prop == "C22") {
    evals++;
    map<string, std::pair<const Tgt *, string>> src;
    for (auto &t : w.sp.tgts) for (auto &x : t.src) src[obj_path(w, t, x)] = {&t, x};
    map<string, int> n;
    for (auto &c : r.cmds) {
      if (c.kind != 'c') continue;
      auto it = src.find(c.out);
      if (it == src.end()) {
        bool other = m.owner.count(c.out) != 0;        // object of a precompiled header
        if (!other) add("C22", "unknown-object", "compiles what was not declared: " + c.cmd);
        continue;
      }
      n[c.out]++;
      const Tc &tc = w.sp.tcs[(size_t)it->second.first->tc];
      const TcTools tn = tc_tools(tc);
      const int l = lang(it->second.second, tc.cfg);
      string tool = l == 1 ? tn.as : l == 2 ? tn.cc : tn.cxx;
      string exe = c.cmd.substr(0, c.cmd.find(' '));
      exe.erase(std::remove(exe.begin(), exe.end(), '"'), exe.end());
      exe = exe.substr(exe.rfind('/') + 1);
      if (exe != tool) add("C22", "wrong-tool", it->second.second + " was compiled by " + exe + " instead of " + tool);
    }
    for (auto &[o, k] : n) if (k > 1) add("C22", "compiled-twice", "compiled more than once: " + src[o].second);
    if (scratch && m.ok && r.code == 0 && !r.cmds.empty() && !injected && !fsh)
      for (auto &[o, x] : src) if (!n.count(o)) { add("C22", "not-compiled", "declared source was not compiled: " + x.second); break; }
  }

  // containment of failures (also while the run was killed later)
  if (!edited && !fsh) {
    set<string> fb = failed_builders;
    for (auto &[k, s] : m.steps) if (s.fails) fb.insert(s.builder);
    if (!fb.empty()) evals++;
    for (auto &c : r.cmds) {
      if (c.kind == 'v' || c.kind == 't' || c.kind == 'x') continue;
      auto it = m.owner.find(c.out);
      if (it == m.owner.end()) continue;
      for (auto &d : m.deps.at(it->second)) if (fb.count(d)) { add("C05", "dependent-started", it->second + " was started although its dependency " + d + " failed: " + c.cmd); break; }
      if ((c.kind == 'l' || c.kind == 'a') && fb.count(it->second))
        for (auto &k : failed_steps) { auto s = m.steps.find(k); if (s != m.steps.end() && s->second.builder == it->second && s->second.kind != c.kind) { add("C05", "link-after-failure", it->second + " was linked although " + k + " failed"); break; } }
      if (c.kind == 'c')
        for (auto &k : failed_steps) { auto s = m.steps.find(k); if (s != m.steps.end() && s->second.builder == it->second && s->second.kind == 'p') { add("C05", "compile-after-failure", it->second + " compiled although its precompiled header failed"); break; } }
    }
    for (auto &g : r.gens) {
      string b = g.key.substr(0, g.key.find('/'));
      auto it = m.deps.find(b);
      if (it != m.deps.end()) for (auto &d : it->second) if (fb.count(d)) { add("C05", "dependent-started", g.key + " was run although its dependency " + d + " failed"); break; }
    }
  }

  if (killed) {
    pend.insert("C07");
    if (edited) pend.insert("C08");
    if (fsh) pend.insert("C09");
    if (stepfail) pend.insert("C05");
    have_prev = false; redo.clear(); done.clear(); fsnoop = false; unchanged = true;
    return;
  }

  // exit status
  const bool must_fail = stepfail || (!m.ok && !edited && !fsh);
  if (prop == "C04" && (must_fail || injected)) evals++;
  if (must_fail) {
    string what = stepfail ? *failed_steps.begin() : "a declared step cannot succeed";
    if (r.code == 0) add("C04", "failure-exit-0", "the run exited 0 although it failed: " + what);
    if (r.post) add("C04", "post-after-failure", "the post-build step ran although a step failed: " + what);
    for (auto &c : r.cmds) if (c.kind == 't') { add("C04", "test-after-failure", "a test was started although a step failed: " + what); add("C13", "test-after-failure", "a test was started although a step failed: " + what); break; }
  }
  const bool clean = !injected && !fsh && !edited;
  if (clean && m.ok && tests_rc0) {
    if (prop == "C04") evals++;
    if (r.code != 0) {
      string tail = r.out.size() > 400 ? r.out.substr(r.out.size() - 400) : r.out;
      for (auto &c : tail) if (c == '\n') c = '|';
      add("C04", "spurious-failure", "nothing failed but the run exited " + std::to_string(r.code) + ": " + tail);
      for (auto &t : pend) add(t, "next-run-fails", "the next undisturbed run exited " + std::to_string(r.code) + ": " + tail);
    } else if (!r.post || !r.done) add("C04", "post-missing", "successful run without its post-build step");
  }
  // tests
  if (r.post && !must_fail && !fsh && !edited) tests(r);

  // freshness
  if (r.code == 0 && !edited) {
    set<string> extra;
    if (m.ok) extra = pend;
    if (fsh) extra.insert("C09");
    evals++;
    if (m.ok)
      for (auto &[p, want] : m.out) {
        string have;
        bool there = sim::read_file(p, have);
        if (there && have == want) continue;
        bool gen = find_gen(w.sp, m.owner.at(p)) != nullptr;
        string kind = !there ? "output-missing" : "output-stale";
        string msg = p + (there ? ": " + short_diff(want, have) : " does not exist after a successful run");
        add(gen ? "C02" : "C01", kind, msg);
        for (auto &t : extra) add(t, kind, msg);
      }
    if (w.sp.ccdb && m.ok) {
      set<string> tags{"C17"};
      if (fsh) tags.insert("C09");
      ccdb(m, r, tags);
    }
    // from-scratch runs execute everything
    if (scratch && m.ok && clean) {
      auto ex = executed(m, r, false);
      for (auto &[k, s] : m.steps) if (!ex.count(k)) { add("C03", "step-not-run", "from-scratch build never ran step " + k); break; }
    }
  }

  // work that must and must not be repeated
  if (clean && m.ok) {
    auto ex = executed(m, r, false);
    if (unchanged && !redo.empty() && r.code == 0) {
      evals++;
      for (auto &k : redo) if (m.steps.count(k) && !ex.count(k)) { add("C05", "failed-step-not-redone", "step failed or skipped by the previous run was not executed: " + k); break; }
    }
    if (unchanged && !done.empty()) {
      evals++;
      for (auto &k : done) if (m.steps.count(k) && ex.count(k)) { add("C06", "completed-work-redone", "step completed before another one failed was executed again: " + k); break; }
    }
    if (unchanged && fsnoop && r.code == 0) {
      evals++;
      if (!ex.empty()) add("C09", "state-lost", "a run with storage errors reported success but left unsaved state: " + *ex.begin() + " was redone");
    }
    if (have_prev && r.code == 0) {
      evals++;
      bool same = true;
      for (auto &[k, s] : m.steps) { auto it = prev.steps.find(k); if (it == prev.steps.end() || it->second.sig != s.sig) same = false; }
      if (m.steps.size() != prev.steps.size()) same = false;
      for (auto &k : ex) {
        auto a = m.steps.find(k);
        auto b = prev.steps.find(k);
        if (a == m.steps.end()) { add("C06", "unneeded-work", "executed a step nobody declared: " + k); break; }
        if (b != prev.steps.end() && a->second.sig == b->second.sig) { add("C06", unchanged ? "noop-not-noop" : "unneeded-work", "up-to-date step was executed again: " + k); break; }
      }
      if (same && unchanged) {
        st.noop++;
        for (auto &o : r.ow) if (m.out.count(o.path)) { add("C06", "output-rewritten", "a run with nothing to do rewrote " + o.path); break; }
      }
    }
  }

  // what the next run inherits
  fsnoop = false;
  set<string> was_redo = redo;
  redo.clear();
  done.clear();
  if (clean && m.ok && r.code == 0) {
    pend.clear();
    have_prev = true;
    prev = m;
  } else {
    if (edited) pend.insert("C08");
    if (fsh) { pend.insert("C09"); if (r.code == 0 && !edited && m.ok && !injected) fsnoop = true; for (auto &l : r.lines) if (l.compare(0, 8, "FSFAULT ") == 0 && l.find("readdir") != string::npos) fsnoop = false; }
    if (stepfail || !m.ok) pend.insert("C05");
    if (!edited && !fsh && m.ok && stepfail && !vfail && r.code != 0) {
      auto okx = executed(m, r, true);
      for (auto &k : failed_steps) redo.insert(k);
      if (have_prev) for (auto &[k, s] : m.steps) {
        bool differs = !prev.steps.count(k);
        for (auto &o : s.outs) { auto x = m.out.find(o); auto y = std::as_const(prev.out).find(o); if (x == m.out.end() || y == prev.out.end() || x->second != y->second) differs = true; }
        if (differs && !okx.count(k)) redo.insert(k);
      }
      done = okx;
      for (auto &k : failed_steps) done.erase(k);
      if (have_prev) for (auto &[k, s] : m.steps) { auto b = prev.steps.find(k); if (s.kind != 'g' && b != prev.steps.end() && b->second.sig == s.sig && !failed_steps.count(k)) done.insert(k); }
      if (unchanged) for (auto &k : was_redo) if (!okx.count(k)) redo.insert(k);
    }
    if (clean && m.ok && r.post) { /* tests failed: the build itself is up to date */ }
    have_prev = false;
  }
  unchanged = true;
}

// ------------------------------------------------------------ direct scenarios
struct TcDir { bool complete = true; bool works = true; string version, arch; vector<string> missing; int decoy = 0; };
static vector<TcDir> tc_dirs(uint64_t seed, int n, const TcCase &tc) {
  sim::Rng r(seed ^ 0x7c7c);
  vector<TcDir> v;
  for (int i = 0; i < n; i++) {
    TcDir d;
    d.version = std::to_string(r.range(1, 20)) + "." + std::to_string(r.below(10)) + "." + std::to_string(r.below(10));
    if (r.chance(0.3)) d.version += "-" + string((size_t)r.range(1, 200), 'r');
    static const char *arch[] = {"x86_64-linux-gnu", "arm-none-eabi", "riscv64-unknown-elf", "i686-w64-mingw32"};
    d.arch = arch[r.below(4)];
    if (r.chance(0.45)) { int m = r.range(1, 3); for (int k = 0; k < m; k++) d.missing.push_back(tc.tools[r.below(5)]); d.complete = false; }
    if (r.chance(0.2)) d.works = false;
    if (!d.complete) d.decoy = (int)r.below(5);
    v.push_back(d);
  }
  return v;
}
void Exec::scen(const Op &op) {
  Scen sc{(int)op.a, op.b, (int)op.c, op.c};
  bool changed = false;
  if (sc.kind == 8) {
    const bx::Case c = bx::make(op.c, op.b);
    changed = bx::lay_out(c, op.c, op.b, f, narrative);
    narrative += "   ";
    for (auto &x : c.argv) narrative += " '" + x + "'";
    for (auto &[p, t] : c.conf) narrative += "\n--- " + p + "\n" + t;
    narrative += "\n";
  }
  sync();
  sim::make_dirs("/w/p/dir");
  if (sc.kind == 1) { for (int i = 0; i < 3; i++) { string d = "/w/p/d" + std::to_string(i); ::rmdir(sim::real_path(d).c_str()); if (i < 2 || op.b % 4) sim::make_dirs(d); } }
  if (sc.kind == 2) { for (string x : {"/w/p/f0", "/w/p/f1.bin", "/w/p/dir/f2"}) for (const char *th : {"", "_1", "_2", "_3", "_4"}) ::unlink(sim::real_path(x + th).c_str()); sim::Rng r(op.b + 5); if (r.chance(0.6)) { string t; size_t n = r.chance(0.4) ? 5000 + r.below(40000) : r.below(500); for (size_t i = 0; i < n; i++) t += r.chance(0.05) ? '\n' : (char)('A' + r.below(26)); sim::write_file("/w/p/f0", t, f.fresh()); } }
  if (sc.kind == 5) for (int i = 0; i < 3; i++) ::unlink(sim::real_path("/w/p/dir/state" + std::to_string(i) + ".bin").c_str());
  if (sc.kind == 4) for (auto &x : arg_case(op.b).files) sim::write_file(x.first, x.second, 1);
  if (sc.kind == 7) {
    sim::write_file("/w/p/file", "x", 1);
    for (int i = 0; i < 5; i++) for (const char *x : {"", " dir"}) { string d = "/w/p/h" + std::to_string(i) + x; wipe(d); ::rmdir(sim::real_path(d).c_str()); }
    for (auto &[d, v] : find_case(op.b).dirs) { sim::make_dirs(d); for (auto &x : v) sim::write_file(d + "/" + x, "TOOL", 1); }
  }
  if (sc.kind == 3) {
    sim::write_file("/w/p/file", "x", 1);
    const TcCase tc = tc_case(op.b);
    auto v = tc_dirs(op.b, sc.n, tc);
    for (int i = 0; i < sc.n; i++) {
      string d = scen_tc_dir(op.b, i);
      wipe(d);
      sim::make_dirs(d);
      for (auto &t : tc.tools) {
        string c = string("TOOL ") + t + " d" + std::to_string(i) + "\nversion " + v[(size_t)i].version + "\nmachine " + v[(size_t)i].arch + "\n";
        if (!v[(size_t)i].works) c += (op.b >> 9) % 2 ? "version_rc 1\n" : "machine_rc 3\n";
        if (std::find(v[(size_t)i].missing.begin(), v[(size_t)i].missing.end(), t) != v[(size_t)i].missing.end()) {
          int k = v[(size_t)i].decoy;       // what is there instead
          if (k == 1) sim::write_file(d + "/" + t + ".bak", c, 1);
          if (k == 2) sim::write_file(d + "/" + t + "-12", c, 1);
          if (k == 3) sim::make_dirs(d + "/" + t);
          if (k == 4) sim::write_file(d + "/x" + t, c, 1);
          continue;
        }
        sim::write_file(d + "/" + t, c, 1);
      }
    }
  }
  Run r = launch(op.plan, &sc);
  if (verbose) fprintf(stderr, "%s--- out\n%s--- status %d code %d\n", r.log.c_str(), r.out.c_str(), r.status, r.code);
  account(st, r);
  if (!r.harness.empty()) { harness = r.harness; return; }
  scheds.push_back(r.sched_hash);
  hash = sim::fnv(r.log, hash) ^ r.sched_hash;
  last_dev = r.dev; last_devovf = r.devovf; last_steps = r.steps;
  narrative += "    -> status " + std::to_string(r.status) + " exit " + std::to_string(r.code) + "\n";
  if (sc.kind == 8) judge_bx(op, r, changed); else judge_scen(op, r);
  unchanged = false;
  f.clock += r.sim_ns + 1000000000ull;
}
static string slashless(string s) { while (s.size() > 1 && s.back() == '/') s.pop_back(); return s; }
void Exec::judge_bx(const Op &op, const Run &r, bool changed) {
  auto bad = [&](const char *kind, const string &m) { add("C26", kind, m); };
  if (r.races) { string first; for (auto &l : r.lines) if (l.compare(0, 5, "RACE ") == 0) { first = l; break; } add("C11", "race", first); }
  const bool was_ok = bx_ok && bx_step == op.b && !changed;
  bx_ok = false; bx_step = op.b;
  if (r.status == 2 || r.status == 3) { bad("hang", r.note.substr(0, 300)); return; }
  if (r.status == 1) return;
  const bx::Case c = bx::make(op.c, op.b);
  const bool fsh = r.fault[sim::FS_FSERR] || r.fault[sim::FS_SHORT], injected = r.fault[sim::FS_CMD] || r.fault[sim::FS_SIG] || r.fault[sim::FS_SPAWN];
  const string out = c.out(), homeb = c.home + "/buildcc/_build_exe", verify = c.build + "/verify_host_toolchain";
  auto under = [](const string &p, const string &d) { return p.compare(0, d.size() + 1, d + "/") == 0; };
  evals++;
  if (c.home_bad) {
    if (r.code == 0) bad("home-accepted", "exit 0 with an incomplete BUILDCC_HOME");
    if (!r.cmds.empty()) bad("home-accepted", "work was started with an incomplete BUILDCC_HOME: " + r.cmds[0].cmd);
    return;
  }
  // what ran
  int users = 0, first_work = -1;
  const Cmd *user = nullptr, *failed = nullptr;
  bool verified = false;
  for (auto &k : r.cmds) {
    const bool is_user = k.kind == 't' && k.out == out;
    if (k.rc || !k.ended) { if (!failed) failed = &k; }
    if (is_user) { users++; user = &k; }
    else if (k.kind == 't' && under(k.out, verify)) { if (k.ended && !k.rc) verified = true; }
    else if (k.kind == 't') bad("ran-something-else", "executed " + k.cmd);
    else if (k.kind != 'v' && !under(k.out, verify)) {
      if (first_work < 0) first_work = k.cs;
      if (c.script && !verified) bad("not-verified", "work was started before the host toolchain was verified: " + k.cmd);
      if (!c.script && under(k.out, homeb)) bad("home-built", "immediate mode built something of the home: " + k.cmd);
      if (users) bad("built-after-run", "work was started after the script had been run: " + k.cmd);
    }
  }
  if (failed && r.code == 0) { bad("failure-hidden", "exit 0 although a command failed with " + std::to_string(failed->rc) + ": " + failed->cmd); return; }
  if (users > 1) { bad("ran-twice", "the script was run " + std::to_string(users) + " times"); return; }
  if (users && !c.script) { bad("ran-immediate", "immediate mode ran the program it built"); return; }
  if (users && failed && failed != user) { bad("ran-after-failure", "the script was run although a command had failed: " + failed->cmd); return; }
  if (user) {
    vector<string> want = {out};
    for (auto &x : c.configs) { want.push_back("--config"); want.push_back(x); }
    if (tools::split_cmd(user->cmd) != want) { bad("script-arguments", "the script was run as: " + user->cmd); return; }
  }
  if (r.code == 0 && c.script && !users) { bad("not-run", "exit 0 but the script was not run"); return; }
  // the same settings without what earlier runs have left
  vector<string> outs = {out, c.build + "/compile_commands.json"};
  if (c.script) { outs.push_back(homeb + "/" + c.tc + "/libtpl/libtpl.a"); outs.push_back(homeb + "/" + c.tc + "/libbuildcc/libbuildcc.a"); outs.push_back(c.build + "/" + c.tc + "/" + c.name + "/buildexe_lib_dirs.h"); }
  map<string, string> got;
  for (auto &o : outs) { string t; if (sim::read_file(o, t)) got[o] = t; }
  Disk d = take_disk();
  uint64_t u = uniq;
  wipe(c.build); wipe(homeb);
  sim::Plan q = op.plan;
  q.strategy = sim::S_SEQ; q.workers = 1; q.race = false; q.fs.clear(); q.cmd.clear(); q.cb.clear(); q.crash_event = 0; q.trace.clear(); q.victim = -1;
  Scen sc{8, op.b, 0, op.c};
  Run ref = launch(q, &sc);
  map<string, string> fresh;
  for (auto &o : outs) { string t; if (sim::read_file(o, t)) fresh[o] = t; }
  put_disk(d);
  uniq = u;
  account(st, ref);
  if (!ref.harness.empty()) { harness = ref.harness; return; }
  bool errs = false;
  for (auto &[p, x] : d.files) if (!under(p, c.build) && !under(p, homeb) && x.first.find("#error") != string::npos) errs = true;
  if (ref.code != 0 && !errs) { bad("failed", "a workspace without errors could not be built: exit " + std::to_string(ref.code) + " " + ref.out.substr(ref.out.size() > 300 ? ref.out.size() - 300 : 0)); return; }
  if (r.code == 0 && ref.code != 0) { bad("fresh-fails", "exit 0, but the same without earlier results fails"); return; }
  if (r.code != 0 && !fsh && !injected && ref.code == 0) { bad("incremental-fails", "exit " + std::to_string(r.code) + ", but the same without earlier results succeeds"); return; }
  if (ref.code != 0) return;
  // what has to be compiled, and how
  set<string> want_user, want_home;
  for (auto &x : c.srcs) want_user.insert(c.root + "/" + x);
  for (auto &x : c.libfiles) if (x.second.back() != 'h') want_user.insert(c.home + "/libs/" + x.first + "/" + x.second);
  if (c.script) for (bool t : {false, true}) for (auto &x : bx::home_sources(c, t)) want_home.insert(x);
  set<string> have_user, have_home;
  for (auto &k : ref.cmds) {
    auto av = tools::split_cmd(k.cmd);
    auto has = [&](const string &x) { for (auto &y : av) if (slashless(y) == x) return true; return false; };
    if (k.kind == 'c' && !under(k.out, verify)) {
      const bool mine = under(k.out, c.build);
      string src;
      for (auto &x : av) if (mine ? want_user.count(x) : want_home.count(x)) src = x;
      if (src.empty()) { bad("foreign-compile", "compiled something nobody asked for: " + k.cmd); return; }
      if (!(mine ? have_user : have_home).insert(src).second) { bad("compiled-twice", src + " was compiled twice"); return; }
      if (!mine) continue;
      int lang = src.back() == 's' ? 2 : src.substr(src.size() - 2) == ".c" ? 3 : 4;
      for (int i = 0; i < 5; i++) for (auto &fl : c.flags[i]) if (has(fl) != (i < 2 || i == lang)) { bad("flags", string(has(fl) ? "unexpected" : "missing") + " option " + fl + ": " + k.cmd); return; }
      for (auto &x : c.incs) if (!has("-I" + slashless(c.root + "/" + x))) { bad("includes", "missing include directory " + x + ": " + k.cmd); return; }
      if (c.script) {
        for (auto &x : {c.home + "/buildcc/buildcc", c.build + "/" + c.tc + "/" + c.name, c.home + "/buildcc/third_party/fmt/include"}) if (!has("-I" + x)) { bad("includes", "missing include directory " + x + ": " + k.cmd); return; }
        for (auto &x : c.libfiles) if (x.second.back() == 'h' && !has("-I" + c.home + "/libs/" + x.first)) { bad("includes", "missing include directory of library " + x.first + ": " + k.cmd); return; }
      }
    }
    if ((k.kind == 'l' || k.kind == 'a') && k.out == out && c.type == 0) {
      for (auto &x : c.ext) if (!has(x)) { bad("link", "missing library " + x + ": " + k.cmd); return; }
      for (auto &x : c.libdirs) if (!has("-L" + c.root + "/" + x)) { bad("link", "missing library directory " + x + ": " + k.cmd); return; }
      for (auto &x : c.flags[5]) if (!has(x)) { bad("link", "missing option " + x + ": " + k.cmd); return; }
      if (c.script) for (int i = 2; i < 4; i++) if (!has(outs[(size_t)i])) { bad("link", "missing library " + outs[(size_t)i] + ": " + k.cmd); return; }
    }
  }
  if (have_user != want_user || have_home != want_home) { bad("not-compiled", std::to_string(have_user.size()) + "+" + std::to_string(have_home.size()) + " of " + std::to_string(want_user.size()) + "+" + std::to_string(want_home.size()) + " sources were compiled"); return; }
  for (auto &o : outs) if (!fresh.count(o)) { bad("no-output", o + " was not produced"); return; }
  if (c.script) {
    vector<std::pair<string, bool>> e;
    list_dir(sim::real_path(c.home + "/libs"), e);
    for (auto &[n, isdir] : e) if (isdir && fresh[outs[4]].find(" " + n + " = \"" + c.home + "/libs/" + n + "\";") == string::npos) { bad("lib-dirs", "library " + n + " is not described by buildexe_lib_dirs.h: " + fresh[outs[4]]); return; }
  }
  auto j = nlohmann::json::parse(fresh[outs[1]], nullptr, false);
  set<string> listed;
  if (j.is_array()) for (auto &x : j) if (x.contains("file")) { string s = x["file"]; if (!s.empty() && s[0] == '"') s = s.substr(1, s.size() - 2); listed.insert(s); }
  if (listed != want_user) { bad("compile-commands", "compile_commands.json lists " + std::to_string(listed.size()) + " files instead of " + std::to_string(want_user.size())); return; }
  if (r.code != 0) return;
  for (auto &o : outs) if (!got.count(o) || got[o] != fresh[o]) { bad("stale", o + (got.count(o) ? " is not what the same run makes from scratch" : " is missing although the run succeeded")); return; }
  if (was_ok && !c.clean && !fsh && !injected) for (auto &k : r.cmds) if (k.kind != 't' && k.kind != 'v' && !under(k.out, verify)) { bad("repeated", "nothing has changed, but there was work: " + k.cmd); return; }
  if (c.clean) { set<string> again; for (auto &k : r.cmds) if (k.kind == 'c' && under(k.out, c.build) && !under(k.out, verify)) again.insert(k.out); if (again.size() != want_user.size()) { bad("clean", "a clean run compiled " + std::to_string(again.size()) + " of " + std::to_string(want_user.size()) + " sources"); return; } }
  bx_ok = !fsh && !injected;
}
static string field(const string &l, const string &k) {
  size_t a = l.find(" " + k + "=");
  if (a == string::npos) return "";
  a += k.size() + 2;
  size_t e = l.find(' ', a);
  return l.substr(a, e == string::npos ? string::npos : e - a);
}
void Exec::judge_scen(const Op &op, const Run &r) {
  const bool fsh = r.fault[sim::FS_FSERR] || r.fault[sim::FS_SHORT];
  const bool injected = r.fault[sim::FS_CMD] || r.fault[sim::FS_SIG] || r.fault[sim::FS_SPAWN];
  if (r.races) { string first; for (auto &l : r.lines) if (l.compare(0, 5, "RACE ") == 0) { first = l; break; } add("C11", "race", first); }
  const char *own = op.a == 1 ? "C14" : op.a == 2 ? "C15" : op.a == 3 ? "C16" : op.a == 4 ? "C21" : op.a == 5 ? "C20" : op.a == 6 ? "C19" : op.a == 7 ? "C23" : "?";
  if (r.status == 2 || r.status == 3) { add("C12", "hang", r.note.substr(0, 300)); add(own, "hang", r.note.substr(0, 300)); return; }
  if (r.status == 1) return;
  if (op.a == 1) {
    map<int, const Cmd *> byid;
    map<int, string> em;
    for (auto &c : r.cmds) { auto av = tools::split_cmd(c.cmd); for (size_t i = 0; i + 1 < av.size(); i++) if (av[i] == "--id") byid[atoi(av[i + 1].c_str())] = &c; }
    for (auto &l : r.lines) if (l.compare(0, 3, "EM ") == 0) em[atoi(l.c_str() + 3)] = l;
    int n = 0;
    for (auto &l : r.lines) {
      if (l.compare(0, 3, "XR ")) continue;
      n++; evals++;
      int id = atoi(l.c_str() + 3);
      bool ok = field(l, "ok") == "1", threw = field(l, "threw") == "1";
      auto it = byid.find(id);
      if (it == byid.end()) { if (ok) add("C14", "never-ran", "success reported for a command that never ran"); continue; }
      const Cmd &c = *it->second;
      bool good = c.ended && c.rc == 0;
      if (ok != good && !(threw && !good)) add("C14", good ? "success-as-failure" : "failure-as-success", "command ended with " + std::to_string(c.rc) + " but Execute returned " + (ok ? "true" : "false") + (threw ? " (threw)" : "") + ": " + c.cmd.substr(0, 200));
      string want = field(l, "cwd");
      if ((want == "-" ? "" : want) != c.cwd) add("C14", "wrong-cwd", "command ran in '" + c.cwd + "' instead of '" + want + "'");
      auto e = em.find(c.id);
      if (e != em.end()) {
        size_t a = e->second.find(' ', 3), b = e->second.find(' ', a + 1);
        string oh = e->second.substr(a + 1, b - a - 1), eh = e->second.substr(b + 1);
        if (field(l, "co") == "1" && field(l, "oh") != oh) add("C14", "stdout-incomplete", "captured stdout is not what the command printed: " + c.cmd.substr(0, 200));
        if (field(l, "ce") == "1" && field(l, "eh") != eh) add("C14", "stderr-incomplete", "captured stderr is not what the command printed: " + c.cmd.substr(0, 200));
      }
    }
    if (!r.done || r.code) add("C14", "crashed", "command execution ended the process: exit " + std::to_string(r.code));
  } else if (op.a == 2) {
    for (auto &l : r.lines) {
      bool sv = l.compare(0, 3, "SV ") == 0, ld = l.compare(0, 3, "LD ") == 0;
      if (!sv && !ld) continue;
      evals++;
      bool ok = field(l, "ok") == "1", same = field(l, "same") == "1", threw = field(l, "threw") == "1";
      if (ok && !same) add("C15", sv ? "save-lost" : "load-short", string(sv ? "save" : "load") + " reported success with different contents: " + l);
      bool dir = l.find("nodir") != string::npos || l.find("/dir ") != string::npos;
      if (!fsh && !dir && (sv || field(l, "there") == "1") && (!ok || threw)) add("C15", sv ? "save-refused" : "load-refused", "failure reported without any storage error: " + l);
    }
    if (r.code || !r.done) add("C15", "crashed", "file helpers ended the process: exit " + std::to_string(r.code));
  } else if (op.a == 6) {
    for (auto &l : r.lines) {
      if (l.compare(0, 3, "CP ")) continue;
      evals++;
      bool bad = field(l, "bad") == "1", threw = field(l, "threw") == "1";
      if (bad && !threw) add("C19", "invalid-accepted", "a pattern with an unknown or unclosed placeholder was expanded: " + l);
      if (!bad && threw) add("C19", "valid-rejected", "a pattern whose placeholders are all known was refused: " + l);
      if (!bad && !threw && field(l, "same") != "1") add("C19", "wrong-text", "expanded text differs: " + l);
    }
    if (r.code || !r.done) add("C19", "crashed", "expanding patterns ended the process: exit " + std::to_string(r.code));
  } else if (op.a == 5) {
    for (auto &l : r.lines) {
      bool st = l.compare(0, 3, "SS ") == 0, ld = l.compare(0, 3, "SL ") == 0;
      if (!st && !ld) continue;
      evals++;
      bool ok = field(l, "ok") == "1", threw = field(l, "threw") == "1";
      if (st && field(l, "kept") != "1") add("C20", "record-lost", "what was recorded is not what is going to be stored: " + l);
      if (!fsh && (st || field(l, "sure") == "1") && (!ok || threw)) add("C20", st ? "store-refused" : "load-refused", "failure reported without any storage error: " + l);
      if (ld && ok && field(l, "same") != "1") add("C20", "not-equal", "loaded state differs from what was stored: " + l);
      if (ld && field(l, "flag") != field(l, "ok")) add("C20", "flag", "loaded flag and result differ: " + l);
      if (ld && !ok && threw) add("C20", "threw", "loading ended with an exception: " + l);
    }
    if (r.code || !r.done) add("C20", "crashed", "storing or loading ended the process: exit " + std::to_string(r.code));
  } else if (op.a == 4) {
    evals++;
    ArgCase c = arg_case(op.b);
    string shown;
    for (auto &x : c.argv) shown += " '" + x + "'";
    if (c.must_fail) { if (r.code == 0 || r.done) add("C21", "invalid-accepted", "accepted:" + shown); }
    else if (r.code || !r.done) { if (!fsh) { string t = r.out; for (auto &ch : t) if (ch == '\n') ch = '|'; add("C21", "valid-rejected", "exit " + std::to_string(r.code) + ":" + shown + ": " + t.substr(0, 300)); } }
    else {
      map<string, string> got;
      for (auto &l : r.lines) if (l.compare(0, 3, "AV ") == 0) { size_t k = l.find('='); got[l.substr(3, k - 3)] = l.substr(k + 1); }
      namespace fs = std::filesystem;
      map<string, string> more;
      for (auto &[k, v] : c.expect) {
        if (k == "root_dir" || k == "build_dir") more[k == "root_dir" ? "project.root" : "project.build"] = (fs::path(got["project.cwd"]) / v).string();
        if (k == "loglevel") more["project.loglevel"] = v;
        if (k.compare(0, 11, "toolchain.t") == 0 && k.size() > 6 && k.compare(k.size() - 6, 6, ".build") == 0) more["called." + k.substr(10, k.size() - 16)] = v == "1" ? "11" : "0";
      }
      more["called"] = "1";
      for (auto &[k, v] : more) if (!got.count(k) || got[k] != v) { add("C21", "setting-unused", k + " is '" + got[k] + "' instead of '" + v + "':" + shown); break; }
      for (auto &[k, v] : c.expect) if (!got.count(k) || got[k] != v) { add("C21", "setting-lost", k + " is '" + got[k] + "' instead of '" + v + "':" + shown); break; }
    }
  } else if (op.a == 7) {
    evals++;
    FindCase c = find_case(op.b);
    vector<std::pair<string, vector<string>>> logs;
    for (auto &l : r.lines) { if (l.compare(0, 3, "BF ") == 0) logs.push_back({l, {}}); if (l.compare(0, 3, "BM ") == 0 && !logs.empty()) logs.back().second.push_back(l.substr(3)); }
    if (r.code || !r.done || logs.size() != c.searches.size()) { add("C23", "crashed", "the search ended the process: exit " + std::to_string(r.code)); return; }
    for (size_t k = 0; k < logs.size(); k++) {
      const auto &one = c.searches[k];
      const string &l0 = logs[k].first;
      const vector<string> &got = logs[k].second;
      const bool ok = field(l0, "ok") == "1";
      vector<vector<string>> want;            // by directory, in any order within one
      size_t total = 0;
      for (size_t i = 0; i < c.vars.size(); i++) if (c.set[i]) for (auto &d : c.vars[i].second) {
        vector<string> w1;
        if (c.dirs.count(d)) for (auto &x : c.dirs[d]) if (one.match(x)) w1.push_back(d + "/" + x);
        std::sort(w1.begin(), w1.end());
        total += w1.size();
        if (!w1.empty()) want.push_back(w1);
      }
      for (auto &g : got) { bool in = false; for (auto &w1 : want) if (std::find(w1.begin(), w1.end(), g) != w1.end()) in = true; if (!in) { add("C23", "wrong-match", "found " + g + ", which does not match " + one.regex + " or is not in a searched directory"); return; } }
      if (!fsh) {
        if (field(l0, "threw") == "1") { add("C23", "threw", "the search failed with an exception"); return; }
        size_t at = 0;
        bool same = got.size() == total;
        for (auto &w1 : want) { if (at + w1.size() > got.size()) { same = false; break; } vector<string> g1(got.begin() + (long)at, got.begin() + (long)(at + w1.size())); std::sort(g1.begin(), g1.end()); if (g1 != w1) same = false; at += w1.size(); }
        if (!same) add("C23", "matches-differ", std::to_string(got.size()) + " matches of " + one.regex + " instead of " + std::to_string(total) + ", or in another order");
      }
      if (field(l0, "threw") != "1" && ok != !got.empty()) add("C23", "result-wrong", string("reports ") + (ok ? "success" : "failure") + " with " + std::to_string(got.size()) + " matches");
    }
  } else {
    evals++;
    const TcCase tcc = tc_case(op.b);
    auto v = tc_dirs(op.b, (int)op.c, tcc);
    if (tcc.kind == 4) for (auto &d : v) { d.works = tcc.vson[0] && tcc.vson[1] && tcc.vson[2]; d.version = tcc.vs[0]; d.arch = tcc.vs[1] + "_" + tcc.vs[2]; }
    string tv, tx, to, tf;
    for (auto &l : r.lines) { if (l.compare(0, 3, "TV ") == 0) tv = l; if (l.compare(0, 3, "TX ") == 0) tx = l; if (l.compare(0, 2, "TO") == 0) to = l; if (l.compare(0, 2, "TF") == 0) tf = l; }
    auto name = [&](int i) { string d = scen_tc_dir(op.b, i); for (auto &c : d) if (c == ' ') c = '^'; return d; };
    vector<int> order;
    for (auto &x : tools::split_cmd(to.substr(std::min<size_t>(2, to.size())))) order.push_back(atoi(x.c_str()));
    string found, chosen;
    for (int i : order) if (v[(size_t)i].complete) { found += " " + name(i); if (chosen.empty()) chosen = name(i); }
    if (!tf.empty() && !fsh && tf != "TF" + found) add("C16", "find-wrong", "toolchains found are '" + tf.substr(2) + "' instead of '" + found + "'");
    bool ok = r.code == 0 && !tv.empty() && r.done;
    bool vfail = false;
    for (auto &c : r.cmds) if (c.kind == 'v' && c.ended && c.rc) vfail = true;
    if (r.code == 0 && tv.empty()) add("C16", "silent", "no result but exit 0");
    if (ok) {
      if (vfail) add("C16", "query-failure-accepted", "verification succeeded although a version or architecture query failed");
      string p = field(tv, "path");
      int idx = -1;
      for (int i = 0; i < (int)v.size(); i++) if (p == name(i)) idx = i;
      if (idx < 0 || !v[(size_t)idx].complete) { add("C16", "incomplete-accepted", "verification accepted " + p + ", which lacks executables"); return; }
      if (!v[(size_t)idx].works) { add("C16", "broken-accepted", "verification accepted " + p + ", whose queries fail"); return; }
      if (!fsh && p != chosen) add("C16", "search-order", "verification used " + p + " although " + chosen + " comes first");
      auto trim = [](string s) { while (!s.empty() && (s.back() == '~' || s.back() == '\r' || s.back() == ' ')) s.pop_back(); return s; };
      if (trim(field(tv, "version")) != v[(size_t)idx].version) add("C16", "version-wrong", "reported version '" + field(tv, "version") + "', compiler says '" + v[(size_t)idx].version + "'");
      if (trim(field(tv, "arch")) != v[(size_t)idx].arch) add("C16", "arch-wrong", "reported architecture '" + field(tv, "arch") + "', compiler says '" + v[(size_t)idx].arch + "'");
      string want = "TX";
      for (auto &x : tcc.tools) want += " " + p + "/" + x;
      if (tx != want) add("C16", "executables-wrong", "executables in use are '" + tx + "' instead of '" + want + "'");
    } else if (!fsh && !injected) {
      int k = -1;
      for (int i : order) if (v[(size_t)i].complete) { k = i; break; }
      if (k >= 0 && v[(size_t)k].works) add("C16", "working-rejected", "a working toolchain was rejected: exit " + std::to_string(r.code));
    }
  }
}
}  // namespace eng
