// Simulated child processes.  Each runs on its own simulated thread in phases
// (start, read inputs, partial output, full output, end), so that kills, edits
// and other processes interleave with it; captured streams arrive in chunks.
#include "inc/process.hpp"
#include "rt.h"
#include "tools.h"
#include <pthread.h>
#include <deque>
#include <memory>

namespace sim {
struct Proc {
  int id = 0;
  std::string cmd, cwd;
  bool out = false, err = false;
  std::deque<std::pair<int, std::string>> q;
  bool eof = false, done = false, killed = false;
  int rc = 0;
  pthread_t th{};
  bool joined = false;
  // progress
  int phase = 0;            // 0 not started, 1 inputs read, 2 outputs written, 3 ended
  tools::Result res;
  size_t wi = 0;            // outputs completed
  CmdFault *fault = nullptr;
};
static std::vector<Proc *> &procs() { static auto *v = new std::vector<Proc *>; return *v; }

static tools::Reader disk_reader() {
  return [](const std::string &p, std::string &o) { return read_file(p, o); };
}
static void compute(Proc *p) {
  auto av = tools::split_cmd(p->cmd);
  if (!p->cwd.empty() && !file_exists(p->cwd)) { p->res = tools::classify(av); p->res.rc = 2; p->res.se = "sh: cd: no such directory\n"; return; }
  p->res = tools::run(av, disk_reader());
}
static void crash_hook() {
  for (Proc *p : procs()) {
    if (p->phase >= 3 || p->fault) continue;
    int m = plan.crash_mode;
    if (m == 2) m = (int)rnd(2);
    if (m == 0) continue;
    if (p->phase == 0) { compute(p); p->phase = 1; }
    if (p->phase == 1)
      for (; p->wi < p->res.writes.size(); p->wi++) write_file(p->res.writes[p->wi].first, p->res.writes[p->wi].second, fresh_mtime());
  }
}
static void emit(Proc *p, int which, const std::string &s) {
  if (s.empty()) return;
  if (!(which == 1 ? p->out : p->err)) return;
  p->q.push_back({which, s});
  wake_on(p);
}
static uint64_t dur() { return 1 + plan.dur_scale / 4 + rnd(plan.dur_scale + 1); }

static void *proc_main(void *arg) {
  InRt g;
  Proc *p = (Proc *)arg;
  event("cmd-start");
  tools::Result cl = tools::classify(tools::split_cmd(p->cmd));
  logf("CS %d %c %s :: %s :: %s", p->id, cl.kind, cl.out.empty() ? "-" : cl.out.c_str(), p->cwd.empty() ? "-" : p->cwd.c_str(), p->cmd.c_str());
  // does a planned fault hit this command?
  for (auto &f : plan.cmd) {
    if (f.mode == 2) continue;
    bool hit = f.nth ? f.nth == p->id : (!f.match.empty() && p->cmd.find(f.match) != std::string::npos);
    if (!hit || p->fault) continue;
    if (f.count >= 0 && f.seen >= f.count) continue;
    f.seen++;
    p->fault = &f;
    shm->fault[f.mode == 1 ? FS_SIG : FS_CMD]++;
  }
  sleep_ns(dur());
  event("cmd-read");
  compute(p);
  p->phase = 1;
  CmdFault *f = p->fault;
  if (f && f->when == 0) { p->res.writes.clear(); }
  sleep_ns(dur());
  for (; p->wi < p->res.writes.size(); p->wi++) {
    auto &w = p->res.writes[p->wi];
    event("cmd-truncate");
    if (!write_file(w.first, "", fresh_mtime())) { p->res.rc = 1; break; }
    sleep_ns(dur() / 2);
    event("cmd-partial");
    write_file(w.first, w.second.substr(0, w.second.size() / 2), fresh_mtime());
    if (f && f->when == 1) break;
    sleep_ns(dur() / 2);
    event("cmd-full");
    write_file(w.first, w.second, fresh_mtime());
  }
  // captured streams, interleaved and chunked
  {
    std::string o = p->res.so, e = p->res.se;
    if (f) { o = o.substr(0, o.size() / 2); e += "killed\n"; }
    if (cl.kind == 'x') logf("EM %d %s %s", p->id, hex(fnv(o)).c_str(), hex(fnv(e)).c_str());
    size_t oi = 0, ei = 0;
    while (oi < o.size() || ei < e.size()) {
      bool useo = oi < o.size() && (ei >= e.size() || rnd(2));
      const std::string &s = useo ? o : e;
      size_t &k = useo ? oi : ei;
      size_t n = s.size() - k;
      if (plan.chunk > 0) { n = std::min(n, (size_t)1 + rnd((uint64_t)plan.chunk)); shm->fault[FS_CHUNK]++; }
      if (p->out || p->err) emit(p, useo ? 1 : 2, s.substr(k, n));
      k += n;
      if ((p->out || p->err) && plan.chunk > 0) { if (rnd(3) == 0) sleep_ns(dur() / 8 + 1); else point("emit"); }
    }
  }
  sleep_ns(dur());
  event("cmd-end");
  p->rc = p->res.rc;
  if (f) p->rc = f->mode == 1 ? 9 : (f->code ? f->code : 1);
  if (p->killed) p->rc = 15;
  p->phase = 3;
  logf("CE %d %c %d %s", p->id, cl.kind, p->rc, cl.out.empty() ? "-" : cl.out.c_str());
  p->eof = true;
  p->done = true;
  wake_on(p);
  return nullptr;
}
}  // namespace sim
using namespace sim;

int simproc_spawn(const std::string &command, const std::string &cwd, bool out, bool err) {
  Proc *p;
  {
    InRt g;
    p = new Proc;
    procs().push_back(p);
    p->id = (int)procs().size();
    p->cmd = command; p->cwd = cwd; p->out = out; p->err = err;
    set_crash_hook(crash_hook);
    for (auto &f : plan.cmd) {
      if (f.mode != 2) continue;
      bool hit = f.nth ? f.nth == p->id : (!f.match.empty() && command.find(f.match) != std::string::npos);
      if (!hit || (f.count >= 0 && f.seen >= f.count)) continue;
      f.seen++;
      shm->fault[FS_SPAWN]++;
      p->phase = 3; p->done = p->eof = true;
      auto cl = tools::classify(tools::split_cmd(command));
      logf("CS %d %c %s :: %s :: %s", p->id, cl.kind, cl.out.empty() ? "-" : cl.out.c_str(), cwd.empty() ? "-" : cwd.c_str(), command.c_str());
      logf("CE %d %c -1 %s", p->id, cl.kind, cl.out.empty() ? "-" : cl.out.c_str());
      return -1;
    }
  }
  pthread_create(&p->th, nullptr, proc_main, p);   // simulated thread
  return p->id;
}
static Proc *get(int h) { return procs().at((size_t)h - 1); }
long simproc_read(int h, char *buf, size_t n, int *which) {
  point("pipe-read");
  InRt g;
  Proc *p = get(h);
  while (p->q.empty() && !p->eof) wait_on(p);
  if (p->q.empty()) return 0;
  auto &f = p->q.front();
  size_t k = std::min(n, f.second.size());
  for (size_t i = 0; i < k; i++) buf[i] = f.second[i];
  *which = f.first;
  if (k == f.second.size()) p->q.pop_front(); else f.second.erase(0, k);
  return (long)k;
}
int simproc_wait(int h) {
  Proc *p;
  {
    InRt g;
    p = get(h);
    while (!p->done) wait_on(p);
    if (p->joined) return p->rc;
    p->joined = true;
  }
  pthread_join(p->th, nullptr);
  return p->rc;
}
bool simproc_try_wait(int h, int *rc) {
  point("try-wait");
  InRt g;
  Proc *p = get(h);
  if (!p->done) return false;
  *rc = p->rc;
  return true;
}
void simproc_kill(int h) { InRt g; get(h)->killed = true; }
