// Seeded generation of histories, one profile per property.
#include "engine.h"
#include <algorithm>

namespace eng {
using namespace ops;
using sim::Rng;

struct Prof {
  unsigned feat = spec::W_ALL & ~spec::W_TESTS;
  int size_lo = 1, size_hi = 3;
  int rounds_lo = 2, rounds_hi = 5;
  double edits = 1.3;          // mean number of edits before a build
  double spec = 0.5;           // share of specification edits
  double brk = 0.05, unbrk = 0.6, revert = 0.12, touch = 0.05, restore = 0.1, clock = 0.05, delb = 0.02;
  double damage = 0, bad = 0;
  double cmdf = 0.06, cbf = 0.04, kill = 0.06, med = 0, fsf = 0;
  double first_fault = 0.3;    // scale of faults in the first build
  double diff = 0, race = 0;
  double par = 0.6;            // non-sequential schedule
  double mem = 0.1;            // preemption at memory accesses
  double noop = 0.3;           // immediately repeat the build
  double chunk = 0.1;
  double spell = 0;            // change the spelling of the declared paths
  double share = 0;            // change where targets take their options from
  double testf = 0;            // make a test fail
};

static Prof profile(const std::string &p) {
  Prof f;
  if (p == "C01") { }
  else if (p == "C02") { f.feat = (spec::W_ALL & ~spec::W_TESTS & ~spec::W_MULTITC); f.size_lo = 1; f.size_hi = 2; f.cbf = 0.15; f.restore = 0.3; }
  else if (p == "C03") { f.par = 0.9; f.mem = 0.25; f.bad = 0.25; f.rounds_lo = 1; f.rounds_hi = 3; f.size_lo = 2; f.size_hi = 5; f.feat = spec::W_ALL; f.kill = 0; }
  else if (p == "C04") { f.cmdf = 0.4; f.cbf = 0.25; f.brk = 0.3; f.feat = spec::W_ALL; f.par = 0.8; f.mem = 0.2; f.kill = 0.02; f.first_fault = 1; f.testf = 0.1; }
  else if (p == "C05") { f.cmdf = 0.5; f.cbf = 0.3; f.brk = 0.2; f.par = 0.7; f.kill = 0.03; f.noop = 0.6; f.first_fault = 1; f.size_hi = 4; f.restore = 0.25; }
  else if (p == "C06") { f.cmdf = 0.02; f.cbf = 0.01; f.kill = 0.02; f.brk = 0.01; f.noop = 0.6; f.edits = 1.0; f.rounds_lo = 3; f.rounds_hi = 7; f.delb = 0; }
  else if (p == "C07") { f.kill = 0.7; f.cmdf = 0.08; f.cbf = 0.04; f.restore = 0.5; f.first_fault = 0.7; f.size_hi = 2; }
  else if (p == "C08") { f.med = 0.75; f.kill = 0.04; f.restore = 0.02; f.clock = 0; f.brk = 0.02; f.edits = 0.8; f.first_fault = 1; }
  else if (p == "C09") { f.fsf = 0.8; f.kill = 0; f.cmdf = 0.03; f.cbf = 0.02; f.first_fault = 1; f.size_hi = 2; f.feat = spec::W_ALL; }
  else if (p == "C10") { f.diff = 0.9; f.par = 1; f.mem = 0.3; f.kill = 0; f.cmdf = 0.03; f.cbf = 0.02; f.size_lo = 2; f.size_hi = 5; f.rounds_lo = 1; f.rounds_hi = 3; f.feat = spec::W_ALL; }
  else if (p == "C11") { f.race = 1; f.par = 1; f.mem = 0.3; f.kill = 0; f.cmdf = 0.15; f.cbf = 0.1; f.size_lo = 1; f.size_hi = 4; f.rounds_lo = 1; f.rounds_hi = 3; f.feat = spec::W_ALL; f.brk = 0.1; f.noop = 0.15; f.testf = 0.1; }
  else if (p == "C12") { f.par = 1; f.mem = 0.3; f.kill = 0.03; f.cmdf = 0.35; f.cbf = 0.25; f.fsf = 0.2; f.brk = 0.2; f.testf = 0.25; f.feat = spec::W_ALL; f.size_hi = 4; f.rounds_lo = 1; f.rounds_hi = 3; f.first_fault = 1; }
  else if (p == "C13") { f.par = 0.9; f.mem = 0.15; f.kill = 0; f.cmdf = 0.1; f.cbf = 0.03; f.testf = 0.3; f.feat = spec::W_ALL; f.chunk = 0.7; f.size_lo = 2; f.size_hi = 4; f.rounds_lo = 1; f.rounds_hi = 3; f.edits = 0.8; }
  else if (p == "C17") { f.cmdf = 0.12; f.kill = 0.15; f.noop = 0.4; f.spec = 0.7; }
  else if (p == "C22") { f.par = 0.1; f.kill = 0; f.cmdf = 0.02; f.cbf = 0.01; f.brk = 0.02; f.noop = 0.5; f.diff = 1; f.spell = 0.6; f.bad = 0.15; f.edits = 0.6; f.delb = 0.05; }
  else if (p == "C24") { f.par = 0.1; f.kill = 0; f.cmdf = 0.02; f.cbf = 0.01; f.brk = 0.02; f.noop = 0.4; f.diff = 1; f.share = 0.8; f.edits = 0.6; f.delb = 0.15; f.feat = spec::W_ALL; f.size_hi = 3; }
  else if (p == "C25") { f.bad = 0.75; f.rounds_lo = 1; f.rounds_hi = 4; f.edits = 0.5; f.noop = 0.1; f.feat = spec::W_ALL; f.kill = 0.02; }
  else if (p == "C18") { f.damage = 0.7; f.kill = 0.04; f.cmdf = 0.2; f.cbf = 0.05; f.brk = 0.1; f.size_hi = 2; f.edits = 0.7; }
  return f;
}

static sim::Plan mk_plan(Rng &r, const Prof &f) {
  sim::Plan p;
  p.seed = r.next() >> 1;
  static const double pp[] = {0.02, 0.1, 0.3, 0.6};
  static const uint64_t mg[] = {150, 1000, 6000, 40000};
  p.workers = r.chance(0.25) ? 1 : r.range(2, 8);
  if (r.chance(f.par)) {
    int k = (int)r.below(10);
    p.strategy = k < 6 ? sim::S_RANDOM : k < 9 ? sim::S_PCT : sim::S_RR;
  } else p.strategy = sim::S_SEQ;
  p.p_point = pp[r.below(4)];
  if (r.chance(f.mem)) p.mem_gap = mg[r.below(4)];
  p.pct_depth = r.range(1, 6);
  if (p.strategy == sim::S_RANDOM && r.chance(0.15)) p.victim = (int)r.below(8);
  if (r.chance(0.15)) p.spurious = 0.2;
  if (r.chance(f.chunk)) { static const int c[] = {1, 3, 7, 64}; p.chunk = c[r.below(4)]; }
  static const uint64_t ds[] = {20000, 400000, 5000000};
  p.dur_scale = ds[r.below(3)];
  if (r.chance(f.race)) p.race = true;
  return p;
}

static Op simple(int k, Rng &r) { Op o; o.k = k; o.a = r.next() >> 33; o.b = r.next() >> 33; o.c = r.next() >> 33; return o; }

static void faults(Exec &x, Op &o, Rng &r, const Prof &f, double scale) {
  sim::Plan &p = o.plan;
  bool needdry = false;
  bool kill = r.chance(f.kill * scale), med = r.chance(f.med * scale), fsf = r.chance(f.fsf * scale);
  bool cmdf = r.chance(f.cmdf * scale), cbf = r.chance(f.cbf * scale);
  if (kill || med || fsf) needdry = true;
  Run d;
  if (needdry || cmdf) d = x.dry(o);
  if (cmdf) {
    sim::CmdFault c;
    int n = (int)d.cmds.size();
    if (n == 0) cmdf = false;
    else {
      // mostly build steps
      vector<int> ids;
      for (auto &q : d.cmds) if (q.kind != 'v' || r.chance(0.1)) ids.push_back(q.id);
      if (ids.empty()) cmdf = false;
      else {
        if (r.chance(0.12)) {             // a tool that is broken for the whole run
          static const char *tool[] = {"/g++ ", "/gcc ", "/ar ", "/gen ", " -c ", " -o ", "/cl ", "/link "};
          c.match = tool[r.below(8)];
        } else if (r.chance(0.75)) {
          int id = ids[r.below(ids.size())];
          for (auto &q : d.cmds) if (q.id == id) {
            c.match = q.kind == 't' ? "--tag" : q.cmd;
            for (string pre : {"-o ", "rcs ", "/Fp", "/Fo", "/OUT:"}) for (string quo : {"", "\""}) if (q.kind != 't' && !q.out.empty() && q.out != "-" && q.cmd.find(pre + quo + q.out) != string::npos) c.match = pre + quo + q.out;
          }
        } else c.nth = ids[r.below(ids.size())];
        c.count = r.chance(0.8) && c.match[0] != '/' && c.match[0] != ' ' ? 1 : -1;
        c.mode = r.chance(0.6) ? 0 : (int)r.below(3);
        static const int codes[] = {1, 1, 2, 127, 255, 3, 64};
        c.code = codes[r.below(7)];
        c.when = (int)r.below(3);
        p.cmd.push_back(c);
        if (r.chance(0.15)) { sim::CmdFault c2 = c; c2.nth = ids[r.below(ids.size())]; c2.match.clear(); p.cmd.push_back(c2); }
      }
    }
  }
  if (cbf) {
    vector<string> keys;
    for (auto &g : x.w.sp.gens) if (g.kind == 0) for (auto &i : g.ids) keys.push_back(g.name + "/" + i.id);
    if (!keys.empty()) {
      sim::Plan::CbFault c;
      c.match = keys[r.below(keys.size())];
      c.mode = r.chance(0.5) ? 1 : r.range(1, 3);
      c.when = (int)r.below(3);
      c.count = r.chance(0.8) ? 1 : -1;
      p.cb.push_back(c);
    }
  }
  if (fsf && d.status == 0) {
    int n = r.chance(0.8) ? 1 : 2;
    for (int i = 0; i < n; i++) {
      sim::FsFault q;
      static const int w[] = {sim::F_WRITE, sim::F_WRITE, sim::F_WRITE, sim::F_CLOSE_W, sim::F_OPEN_W, sim::F_OPEN_W, sim::F_OPEN_R, sim::F_READ, sim::F_READ, sim::F_STAT, sim::F_MKDIR, sim::F_UNLINK, sim::F_RENAME, sim::F_READDIR};
      q.op = w[r.below(14)];
      static const int er[] = {5, 28, 13, 122, 24, 30};
      q.err = q.op == sim::F_READ || q.op == sim::F_CLOSE_W ? 5 : q.op == sim::F_WRITE ? (r.chance(0.7) ? 28 : 5) : er[r.below(6)];
      if (d.fsops[q.op] == 0 || r.chance(0.3)) {
        // a particular file instead
        vector<string> c = spec::state_files(x.w);
        spec::Model m = spec::model(x.w);
        for (auto &g : x.w.sp.gens) for (auto &id : g.ids) { for (auto &o2 : id.out) c.push_back(o2); for (auto &o2 : id.in) c.push_back(o2); }
        for (auto &t : x.w.sp.tgts) if (!t.pch.empty()) c.push_back(spec::pch_header(x.w, t));
        c.push_back("compile_commands.json");
        q.match = c[r.below(c.size())];
        q.nth = r.range(1, 2);
      } else q.nth = 1 + (int)r.below(d.fsops[q.op]);
      q.count = r.chance(0.5) ? 1 : r.chance(0.5) ? -1 : 3;
      if (q.op == sim::F_WRITE && r.chance(0.4)) q.shortn = (int)r.below(60);
      if (q.op == sim::F_READ && r.chance(0.3)) q.shortn = 1 + (int)r.below(50);
      p.fs.push_back(q);
    }
  }
  if (med && d.events) {
    vector<string> c;
    for (auto &[pa, u] : x.w.files) if (u.there() && spec::file_is_used(x.w, pa)) c.push_back(pa);
    int n = r.chance(0.7) ? 1 : 2;
    for (int i = 0; i < n && !c.empty(); i++) {
      MidEd e;
      e.path = c[r.below(c.size())];
      bool dup = false;
      for (auto &o2 : o.med) if (o2.path == e.path) dup = true;
      if (dup) continue;
      e.event = 1 + r.below(d.events);
      if (r.chance(0.5)) {
        // near the steps that consume it
        vector<uint64_t> near;
        for (auto &w : d.ow) if (w.path.find("/_b/") != string::npos) near.push_back(w.ev);
        if (!near.empty()) { uint64_t b = near[r.below(near.size())]; e.event = std::max<uint64_t>(1, b > 4 ? b - 4 + r.below(8) : 1); }
      }
      o.med.push_back(e);
    }
  }
  if (kill && d.events) {
    p.crash_event = 1 + r.below(d.events);
    if (r.chance(0.4)) {
      vector<uint64_t> near;
      for (auto &w : d.ow) near.push_back(w.ev);
      for (auto &w : d.cw) near.push_back(w.ev);
      if (!near.empty()) { uint64_t b = near[r.below(near.size())]; p.crash_event = std::max<uint64_t>(1, b > 3 ? b - 3 + r.below(8) : 1); }
    }
    p.crash_mode = (int)r.below(3);
  }
}

static void buildexe(Exec &x, Rng &r, bool thorough) {
  Prof f;
  f.chunk = 0.3; f.par = 0.7; f.mem = 0.02; f.race = 0.05;
  const uint64_t base = r.next() >> 20;
  uint64_t step = 0;
  for (int i = 0, n = r.range(2, thorough ? 7 : 5); i < n && !x.stop(); i++) {
    Op o = simple(O_SCEN, r);
    o.a = 8; o.c = base;
    if (i == 0 || !r.chance(0.35)) step = r.next() >> 20;
    o.b = step;
    o.plan = mk_plan(r, f);
    if (r.chance(0.45)) {
      Run d = x.dry(o);
      if (x.stop()) return;
      double k = r.unit();
      if (k < 0.35 && !d.cmds.empty()) {
        sim::CmdFault c;
        c.nth = r.chance(0.4) ? (int)d.cmds.size() : 1 + (int)r.below(d.cmds.size());
        c.mode = (int)r.below(3); c.code = 1 + (int)r.below(3); c.when = (int)r.below(3);
        o.plan.cmd.push_back(c);
      } else if (k < 0.65 && d.events) {
        o.plan.crash_event = 1 + r.below(d.events); o.plan.crash_mode = (int)r.below(3);
      } else {
        sim::FsFault s;
        static const int w[] = {sim::F_WRITE, sim::F_CLOSE_W, sim::F_OPEN_W, sim::F_OPEN_R, sim::F_READ, sim::F_STAT, sim::F_MKDIR, sim::F_READDIR};
        s.op = w[r.below(8)];
        if (d.fsops[s.op]) {
          s.nth = 1 + (int)r.below(d.fsops[s.op]);
          s.err = s.op == sim::F_WRITE || s.op == sim::F_MKDIR ? 28 : r.chance(0.5) ? 13 : 5;
          if (r.chance(0.3)) s.count = -1;
          if (s.op == sim::F_WRITE && r.chance(0.5)) s.shortn = 1 + (int)r.below(300);
          o.plan.fs.push_back(s);
        }
      }
    }
    x.exec(o);
  }
}

static void scenarios(Exec &x, Rng &r, const std::string &prop, bool thorough) {
  Prof f;
  f.chunk = 0.7; f.par = 0.8; f.mem = prop == "C14" || prop == "C19" || prop == "C20" ? 0.2 : 0.02; f.race = prop == "C14" || prop == "C19" || prop == "C20" ? 0.1 : 0;
  int n = prop == "C14" ? 3 : 6;
  for (int i = 0; i < n && !x.stop(); i++) {
    Op o = simple(O_SCEN, r);
    o.a = prop == "C14" ? 1 : prop == "C15" ? 2 : prop == "C21" ? 4 : prop == "C20" ? 5 : prop == "C19" ? 6 : prop == "C23" ? 7 : 3;
    o.c = o.a == 3 ? (uint64_t)r.range(1, 4) : (uint64_t)r.range(1, thorough ? 10 : 6);
    o.plan = mk_plan(r, f);
    if (o.a == 1 && r.chance(0.5)) {
      int k = r.range(1, 3);
      for (int q = 0; q < k; q++) { sim::CmdFault c; c.nth = r.range(1, 10); c.mode = (int)r.below(3); static const int codes[] = {1, 2, 127, 255, 9}; c.code = codes[r.below(5)]; c.when = (int)r.below(3); o.plan.cmd.push_back(c); }
    }
    if ((o.a == 2 || o.a == 5) && r.chance(o.a == 2 ? 0.7 : 0.4)) {
      Run d = x.dry(o);
      int k = r.range(1, 2);
      for (int q = 0; q < k; q++) {
        sim::FsFault s;
        static const int w[] = {sim::F_WRITE, sim::F_WRITE, sim::F_CLOSE_W, sim::F_OPEN_W, sim::F_OPEN_R, sim::F_READ, sim::F_READ};
        s.op = w[r.below(7)];
        if (!d.fsops[s.op]) continue;
        s.nth = 1 + (int)r.below(d.fsops[s.op]);
        s.err = s.op == sim::F_WRITE && r.chance(0.6) ? 28 : 5;
        s.count = r.chance(0.5) ? 1 : -1;
        if ((s.op == sim::F_WRITE || s.op == sim::F_READ) && r.chance(0.5)) s.shortn = 1 + (int)r.below(4000);
        o.plan.fs.push_back(s);
      }
    }
    if (o.a == 4 && r.chance(0.3)) { Run d = x.dry(o); sim::FsFault s; static const int w[] = {sim::F_STAT, sim::F_OPEN_R}; s.op = w[r.below(2)]; if (d.fsops[s.op]) { s.nth = 1 + (int)r.below(d.fsops[s.op]); s.err = r.chance(0.5) ? 13 : 5; if (r.chance(0.2)) s.count = -1; o.plan.fs.push_back(s); } }
    if (o.a == 7 && r.chance(0.3)) { Run d = x.dry(o); sim::FsFault s; s.op = sim::F_READDIR; if (d.fsops[s.op]) { s.nth = 1 + (int)r.below(d.fsops[s.op]); s.err = r.chance(0.5) ? 13 : 5; o.plan.fs.push_back(s); } }
    if (o.a == 3) {
      if (r.chance(0.3)) { sim::CmdFault c; c.nth = r.range(1, 3); c.mode = (int)r.below(3); c.code = 1 + (int)r.below(3); c.when = (int)r.below(3); o.plan.cmd.push_back(c); }
      if (r.chance(0.15)) { Run d = x.dry(o); sim::FsFault s; static const int w[] = {sim::F_STAT, sim::F_READDIR, sim::F_OPEN_R}; s.op = w[r.below(3)]; if (d.fsops[s.op]) { s.nth = 1 + (int)r.below(d.fsops[s.op]); s.err = r.chance(0.5) ? 13 : 5; o.plan.fs.push_back(s); } }
    }
    x.exec(o);
  }
}

void generate(Exec &x, uint64_t seed, bool thorough) {
  Rng r(seed);
  Prof f = profile(x.prop);
  // swarm: each history uses a random subset of the edit and fault kinds
  auto sw = [&](double &v) { if (r.chance(0.2)) v = 0; else if (r.chance(0.25)) v *= 1.8; };
  sw(f.spec); sw(f.brk); sw(f.revert); sw(f.restore); sw(f.clock); sw(f.delb); sw(f.mem);
  if (x.prop != "C07") sw(f.kill);
  if (x.prop != "C05" && x.prop != "C04") { sw(f.cmdf); sw(f.cbf); }
  History hist;
  hist.wseed = r.next() >> 33;
  hist.size = r.range(f.size_lo, f.size_hi + (thorough && r.chance(0.3) ? 3 : 0));
  hist.feat = f.feat;
  x.begin(hist);
  if (x.prop == "C26") { buildexe(x, r, thorough); return; }
  if (x.prop == "C14" || x.prop == "C15" || x.prop == "C16" || x.prop == "C19" || x.prop == "C20" || x.prop == "C21" || x.prop == "C23") { scenarios(x, r, x.prop, thorough); return; }
  int rounds = r.range(f.rounds_lo, f.rounds_hi + (thorough ? 3 : 0));
  bool bad = false;
  auto build = [&](double scale) {
    Op o;
    o.k = O_BUILD;
    o.plan = mk_plan(r, f);
    if (f.diff > 0 && r.chance(f.diff)) o.diff = true;
    if (scale > 0) faults(x, o, r, f, scale);
    if (x.stop()) return;
    x.exec(o);
  };
  for (int i = 0; i < rounds && !x.stop(); i++) {
    if (i > 0) {
      if (r.chance(f.restore)) x.exec(simple(O_SNAP, r));
      int n = 0;
      while (n < 4 && r.chance(f.edits / (f.edits + 1))) n++;
      for (int k = 0; k < n && !x.stop(); k++) {
        if (r.chance(f.spec)) {
          Op o;
          for (int q = 0; q < 5; q++) {     // mostly one that has an effect
            o = simple(O_SPEC, r);
            spec::World tw = x.w;
            Files tf = x.f;
            if (ops::apply(tw, o, tf)) break;
          }
          x.exec(o);
        }
        else if (r.chance(f.revert)) x.exec(simple(O_REVERT, r));
        else if (r.chance(f.touch)) x.exec(simple(O_TOUCH, r));
        else if (r.chance(f.brk)) x.exec(simple(O_BREAK, r));
        else x.exec(simple(O_EDIT, r));
      }
      if (r.chance(f.clock)) x.exec(simple(O_CLOCK, r));
      if (r.chance(f.delb)) x.exec(simple(O_DELBUILD, r));
      if (f.damage > 0 && r.chance(f.damage)) x.exec(simple(O_DAMAGE, r));
    }
    if (f.testf > 0 && !x.w.sp.tests.empty() && r.chance(f.testf)) { Op o = simple(O_SPEC, r); o.c = M_TESTRC; x.exec(o); }
    if (f.spell > 0 && r.chance(f.spell)) { Op o = simple(O_SPEC, r); o.c = M_SPELL; x.exec(o); }
    for (int k = 0; k < 3 && f.share > 0; k++) if (r.chance(f.share / (k + 1))) { Op o = simple(O_SPEC, r); o.c = M_SYNC; x.exec(o); }
    if (f.bad > 0 && r.chance(f.bad)) { Op o = simple(O_BAD, r); o.a = x.prop == "C25" ? 7 + o.a % 9 : x.prop == "C22" ? 5 + o.a % 2 : 1 + o.a % 4; x.exec(o); bad = true; }
    if (x.stop()) return;
    build(i == 0 ? f.first_fault : 1.0);
    if (x.stop()) return;
    if (bad) { Op o = simple(O_BAD, r); o.a = 0; x.exec(o); bad = false; if (x.prop == "C25" && !x.stop()) build(0.5); }
    if (f.damage > 0 && x.last_code && r.chance(0.5)) {
      // what a failed build has stored loses a field
      Op u = simple(O_UNBREAK, r);
      u.c = 1;
      x.exec(u);
      Op o = simple(O_DAMAGE, r);
      if (r.chance(0.7)) { o.b = o.b / 14 * 14 + 11; if (r.chance(0.6)) o.c = o.c / 3 * 3; }
      if (!x.stop()) x.exec(o);
      if (!x.stop()) build(0);
    }
    else if (f.restore > 0 && i > 0 && !x.f.snaps.empty() && r.chance(x.last_code ? std::min(0.8, f.restore * 2) : f.restore * 0.8)) { x.exec(simple(O_RESTORE, r)); if (r.chance(0.8)) build(0); }
    else if (r.chance(f.unbrk)) {
      bool broken = false;
      for (auto &[p, u] : x.w.files) if (u.mark) broken = true;
      for (auto &t : x.w.sp.tests) if (t.rc) broken = true;
      if (broken) { x.exec(simple(O_UNBREAK, r)); if (!x.stop() && r.chance(0.7)) build(0); }
    }
    if (x.stop()) return;
    if (r.chance(f.noop)) build(0);
  }
  if (x.stop()) return;
  if (f.damage > 0 && r.chance(f.damage)) x.exec(simple(O_DAMAGE, r));
  // everything repaired: an undisturbed build, then one with nothing to do
  Op u = simple(O_UNBREAK, r);
  u.c = 1;
  x.exec(u);
  if (!x.stop()) build(0);
  if (!x.stop() && r.chance(0.6)) build(0);
}
}  // namespace eng
