#include "ops.h"
#include <algorithm>
#include <nlohmann/json.hpp>

namespace ops {
using namespace spec;
using nlohmann::json;
const char *const kOpName[O_N] = {"build", "edit", "touch", "revert", "break", "unbreak", "spec", "snap", "restore", "damage", "clock", "baddep", "scenario", "delete-build-dir"};
const char *const kSpecOpName[M_N] = {"add-source", "del-source", "add-include", "del-include", "add-flag", "del-flag", "change-flag", "swap-flags", "swap-include-dirs", "toggle-include-dir", "shadow-header", "add-pch", "del-pch", "clear-pch",
  "lib-dir", "ext-lib", "swap-ext-libs", "lib-dep", "swap-libs", "builder-dep", "gen-add-step", "gen-del-step", "gen-add-input", "gen-del-input", "gen-add-output", "gen-del-output", "gen-data", "gen-blob", "gen-command", "gen-command-count", "gen-pattern",
  "register-order", "style", "toolchain-flag", "test-result", "compile-dep", "link-dep", "add-target", "del-target", "incbin", "test-output", "gen-swap-outputs", "toolchain-state", "spelling", "repeat-flag", "rotate-flags", "swap-pchs", "repeat-ext-lib", "move-flag", "shared-options", "target-type"};

template <class T> static T &sel(vector<T> &v, uint64_t a) { return v[a % v.size()]; }
static bool has(const vector<string> &v, const string &s) { return std::find(v.begin(), v.end(), s) != v.end(); }
static void del(vector<string> &v, const string &s) { v.erase(std::remove(v.begin(), v.end(), s), v.end()); }

static void bump(World &w, const string &p, Files &f) {
  UFile &u = w.files[p];
  f.old[p].push_back(u);
  u.ver = w.ver++;
  u.mtime = f.fresh();
}
static UFile &create(World &w, const string &p, int kind, Files &f) {
  UFile u;
  u.kind = kind; u.ver = w.ver++; u.mtime = f.fresh();
  return w.files[p] = u;
}
static vector<string> used_files(const World &w) {
  vector<string> v;
  for (auto &[p, u] : w.files) if (u.exists && file_is_used(w, p)) v.push_back(p);
  return v;
}
// forget a path everywhere (it will no longer exist / be produced)
static bool droppable(const World &w, const string &p) {
  for (auto &t : w.sp.tgts) if (has(t.src, p) && t.src.size() == 1) return false;
  for (auto &g : w.sp.gens) for (auto &i : g.ids) if (has(i.in, p) && i.in.size() == 1) return false;
  return true;
}
static void drop_path(World &w, const string &p, Files &f) {
  string b = tools::base(p);
  for (auto &t : w.sp.tgts) { del(t.src, p); del(t.pch, p); del(t.cdeps, p); del(t.ldeps, p); }
  for (auto &g : w.sp.gens) for (auto &i : g.ids) del(i.in, p);
  for (auto &[q, u] : w.files) if (has(u.incs, p)) { f.old[q].push_back(u); del(u.incs, p); u.ver = w.ver++; u.mtime = f.fresh(); }
}
static string newflag(World &w, int c) { return new_flag(w, c, (uint64_t)(w.nextid * 7919) << 7); }
static string tbase(const Tgt &t) { return t.sub.empty() ? string(kRoot) + "/s" + t.name.substr(3) : string(kRoot) + "/" + t.sub; }

static bool mutate1(World &w, int sub, uint64_t a, uint64_t b, Files &f) {
  Spec &s = w.sp;
  Tgt &t = sel(s.tgts, a);
  vector<string> hdrs;
  for (auto &[p, u] : w.files) if (u.exists && u.kind == 0 && p.find("/inc") != string::npos && spec::lang(p) == 4) hdrs.push_back(p);
  auto gen_of = [&](int kind) -> Gen * { vector<Gen *> v; for (auto &g : s.gens) if (kind < 0 || g.kind == kind) v.push_back(&g); return v.empty() ? nullptr : v[a % v.size()]; };
  switch (sub) {
  case M_ADDSRC: {
    string p = tbase(t) + "/src/n" + std::to_string(w.nextid++) + (b % 3 == 0 ? ".c" : ".cpp");
    auto &u = create(w, p, 0, f);
    if (!hdrs.empty() && b % 2) u.incs.push_back(tools::base(hdrs[b % hdrs.size()]));
    t.src.insert(t.src.begin() + (long)((b >> 4) % (t.src.size() + 1)), p);
    return true;
  }
  case M_DELSRC: {
    if (t.src.size() < 2) return false;
    t.src.erase(t.src.begin() + (long)(b % t.src.size()));
    return true;
  }
  case M_ADDINC: {
    vector<string> c;
    for (auto &x : t.src) if (w.files.count(x)) c.push_back(x);
    if (c.empty() || hdrs.empty()) return false;
    string p = c[b % c.size()], h = tools::base(hdrs[(b >> 8) % hdrs.size()]);
    if (has(w.files[p].incs, h)) return false;
    bump(w, p, f);
    w.files[p].incs.push_back(h);
    return true;
  }
  case M_DELINC: {
    vector<string> c;
    for (auto &x : t.src) if (w.files.count(x) && !w.files[x].incs.empty()) c.push_back(x);
    if (c.empty()) return false;
    string p = c[b % c.size()];
    bump(w, p, f);
    auto &v = w.files[p].incs;
    v.erase(v.begin() + (long)((b >> 8) % v.size()));
    return true;
  }
  case M_ADDFLAG: { int c = (int)(b % K_N); t.flags[c].push_back(newflag(w, c)); return true; }
  case M_DELFLAG: case M_CHGFLAG: case M_SWAPFLAG: {
    for (int k = 0; k < K_N; k++) {
      int c = (int)((b + (uint64_t)k) % K_N);
      auto &v = t.flags[c];
      vector<size_t> i;
      for (size_t j = 0; j < v.size(); j++) if (v[j].compare(0, 2, "-T")) i.push_back(j);
      if (i.size() < (sub == M_SWAPFLAG ? 2u : 1u)) continue;
      if (sub == M_DELFLAG) v.erase(v.begin() + (long)i[(b >> 8) % i.size()]);
      else if (sub == M_CHGFLAG) v[i[(b >> 8) % i.size()]] = newflag(w, c);
      else std::swap(v[i[0]], v[i[1]]);
      return true;
    }
    return false;
  }
  case M_SWAPINC: if (t.inc.size() < 2) return false; std::swap(t.inc[0], t.inc[1]); return true;
  case M_TOGGLEINC: {
    string d = string(kRoot) + "/incx";
    if (has(t.inc, d)) { // only removable when nothing resolves there
      for (auto &h : t.headers) if (tools::dir(h) == d) return false;
      del(t.inc, d);
    } else t.inc.insert(t.inc.begin() + (long)(b % (t.inc.size() + 1)), d);
    return true;
  }
  case M_SHADOW: {
    if (hdrs.empty() || t.inc.empty()) return false;
    string h = hdrs[b % hdrs.size()];
    string p = t.inc[0] + "/" + tools::base(h);
    if (w.files.count(p) && w.files[p].exists) {
      // remove a shadowing header again when another one of that name exists
      bool other = false;
      for (auto &q : hdrs) if (q != p && tools::base(q) == tools::base(p)) other = true;
      if (!other) return false;
      for (auto &o : s.tgts) { bool ok = false; for (auto &q : hdrs) if (q != p && tools::base(q) == tools::base(p) && has(o.inc, tools::dir(q))) ok = true; if (!ok) return false; }
      f.old[p].push_back(w.files[p]);
      w.files[p].exists = false;
    } else create(w, p, 0, f);
    return true;
  }
  case M_ADDPCH: {
    string p = tbase(t) + "/pchn" + std::to_string(w.nextid++) + ".h";
    auto &u = create(w, p, 0, f);
    if (!hdrs.empty() && b % 2) u.incs.push_back(tools::base(hdrs[b % hdrs.size()]));
    t.pch.push_back(p);
    return true;
  }
  case M_DELPCH: if (t.pch.empty()) return false; t.pch.erase(t.pch.begin() + (long)(b % t.pch.size())); return true;
  case M_CLEARPCH: if (t.pch.empty()) return false; t.pch.clear(); return true;
  case M_LIBDIR: {
    if (t.type != 0) return false;
    string d = string(kRoot) + "/ext" + std::to_string(b % 2);
    if (t.libdir.size() == 2 && b % 3 == 0) { std::swap(t.libdir[0], t.libdir[1]); return true; }
    if (has(t.libdir, d)) {
      vector<string> left = t.libdir; del(left, d);
      for (auto &e : t.ext) { bool ok = false; for (auto &l : left) { string lf = l + "/lib" + e.substr(2) + ".a"; if (w.files.count(lf)) ok = true; } if (!ok) return false; }
      t.libdir = left;
    } else t.libdir.insert(t.libdir.begin(), d);
    return true;
  }
  case M_EXT: {
    if (t.type != 0) return false;
    string e = b % 2 ? "-lfoo" : "-lbar";
    if (has(t.ext, e)) del(t.ext, e);
    else { if (!has(t.libdir, string(kRoot) + "/ext0")) t.libdir.push_back(string(kRoot) + "/ext0"); t.ext.push_back(e); }
    return true;
  }
  case M_SWAPEXT: if (t.ext.size() < 2) return false; std::swap(t.ext[0], t.ext[1]); return true;
  case M_LIB: {
    if (t.type != 0) return false;
    vector<string> c;
    for (auto &o : s.tgts) if (o.type != 0 && o.tc == t.tc && o.name != t.name) c.push_back(o.name);
    if (c.empty()) return false;
    string n = c[b % c.size()];
    auto d = builder_deps(s);
    if (has(t.libs, n)) del(t.libs, n);
    else { if (d[n].count(t.name)) return false; t.libs.push_back(n); }
    return true;
  }
  case M_SWAPLIB: if (t.libs.size() < 2) return false; std::swap(t.libs[0], t.libs[1]); return true;
  case M_DEP: {
    vector<string> c;
    for (auto &o : s.tgts) if (o.name != t.name) c.push_back(o.name);
    for (auto &g : s.gens) c.push_back(g.name);
    if (c.empty()) return false;
    string n = c[b % c.size()];
    auto d = builder_deps(s);
    if (has(t.deps, n)) { if (has(t.libs, n)) return false; del(t.deps, n); return true; }
    if (d[n].count(t.name)) return false;
    t.deps.push_back(n);
    return true;
  }
  case M_GENADDID: {
    Gen *g = gen_of(-1);
    if (!g || g->kind == 1 || g->ids.size() > 4) return false;
    GenId i;
    int n = w.nextid++;
    i.id = "idn" + std::to_string(n);
    string p = string(kRoot) + "/gin/n" + std::to_string(n) + (g->kind == 2 ? ".in" : ".dat");
    create(w, p, g->kind == 2 ? 2 : 1, f);
    i.in = {p};
    if (g->kind == 2) i.id = p.substr(string(kRoot).size() + 1);
    i.out = {gen_dir(*g) + "/n" + std::to_string(n) + ".h"};
    i.blob = g->kind == 0 && b % 2;
    i.data = "d" + std::to_string(w.nextid++);
    g->ids.push_back(i);
    return true;
  }
  case M_GENDELID: {
    Gen *g = gen_of(-1);
    if (!g || g->ids.size() < 2) return false;
    size_t k = b % g->ids.size();
    for (auto &o : g->ids[k].out) if (!droppable(w, o)) return false;
    auto outs = g->ids[k].out;
    g->ids.erase(g->ids.begin() + (long)k);
    for (auto &o : outs) drop_path(w, o, f);
    return true;
  }
  case M_GENADDIN: {
    Gen *g = gen_of(-1);
    if (!g || g->kind == 2) return false;
    string p = string(kRoot) + "/gin/x" + std::to_string(w.nextid++) + ".dat";
    create(w, p, 1, f);
    sel(g->ids, b).in.push_back(p);
    return true;
  }
  case M_GENDELIN: {
    Gen *g = gen_of(-1);
    if (!g || g->kind == 2) return false;
    auto &i = sel(g->ids, b);
    if (i.in.size() < ((b >> 16) % 4 ? 2u : 1u)) return false;
    i.in.erase(i.in.begin() + (long)((b >> 8) % i.in.size()));
    return true;
  }
  case M_GENADDOUT: {
    Gen *g = gen_of(-1);
    if (!g || g->kind == 2) return false;
    sel(g->ids, b).out.push_back(gen_dir(*g) + "/o" + std::to_string(w.nextid++) + ".h");
    return true;
  }
  case M_GENDELOUT: {
    Gen *g = gen_of(-1);
    if (!g || g->kind == 2) return false;
    auto &i = sel(g->ids, b);
    if (i.out.size() < 2) return false;
    string o = i.out[(b >> 8) % i.out.size()];
    if (!droppable(w, o)) return false;
    del(i.out, o);
    drop_path(w, o, f);
    return true;
  }
  case M_GENSWAPOUT: {   // two steps of one generator trade an output
    Gen *g = gen_of(0);
    if (!g || g->ids.size() < 2) return false;
    auto &x = g->ids[b % g->ids.size()], &y = g->ids[(b + 1) % g->ids.size()];
    std::swap(x.out[0], y.out[0]);
    return true;
  }
  case M_GENDATA: { Gen *g = gen_of(0); if (!g) return false; auto &i = sel(g->ids, b); if (!i.blob) return false; i.data = (b >> 8) % 8 == 0 ? "" : "d" + std::to_string(w.nextid++); return true; }
  case M_GENBLOB: { Gen *g = gen_of(0); if (!g) return false; auto &i = sel(g->ids, b); i.blob = !i.blob; return true; }
  case M_GENCMD: { Gen *g = gen_of(1); if (!g) return false; sel(g->cmdtags, b) = "c" + std::to_string(w.nextid++); return true; }
  case M_GENNCMD: { Gen *g = gen_of(1); if (!g) return false; if (g->cmdtags.size() > 1 && b % 2) g->cmdtags.pop_back(); else if (g->cmdtags.size() < 3) g->cmdtags.push_back("c" + std::to_string(w.nextid++)); else return false; return true; }
  case M_GENPAT: { Gen *g = gen_of(2); if (!g) return false; g->pats[b % 2 ? "val" : "other"] = "p" + std::to_string(w.nextid++); return true; }
  case M_DUPFLAG: case M_ROTFLAG: case M_MOVEFLAG: {
    // the same flags, but one of them twice, in another order, or one in another place
    for (int k = 0; k < K_N; k++) {
      int c = (int)((b + (uint64_t)k) % K_N);
      auto &v = t.flags[c];
      if (v.size() < (sub == M_ROTFLAG ? 2u : 1u)) continue;
      size_t i = (b >> 8) % v.size();
      if (v[i].compare(0, 2, "-T") == 0) continue;
      if (sub == M_ROTFLAG) { std::rotate(v.begin(), v.begin() + 1, v.end()); return true; }
      if (sub == M_DUPFLAG) {
        if (std::count(v.begin(), v.end(), v[i]) > 1) v.erase(v.begin() + (long)i);
        else v.insert(v.begin() + (long)((b >> 16) % (v.size() + 1)), v[i]);
        return true;
      }
      int to = (int)((b >> 16) % K_N);
      if (to == c || to == K_LINK || c == K_LINK) return false;
      auto x = v[i];
      v.erase(v.begin() + (long)i);
      t.flags[to].push_back(x);
      return true;
    }
    return false;
  }
  case M_SWAPPCH: { if (t.pch.size() < 2) return false; std::swap(t.pch[0], t.pch[b % (t.pch.size() - 1) + 1]); return true; }
  case M_DUPEXT: {
    if (t.ext.empty()) return false;
    auto &e = t.ext[b % t.ext.size()];
    if (std::count(t.ext.begin(), t.ext.end(), e) > 1) t.ext.erase(t.ext.begin() + (long)(b % t.ext.size()));
    else t.ext.push_back(string(e));
    return true;
  }
  case M_SPELL: { int n = b % 5 ? 1 + (int)(b % 1000) : 0; bool c = n != s.spell; s.spell = n; return c; }
  case M_REGORDER: s.regorder = (int)(b % 1000); return true;
  case M_SYNC: { if (t.glob || t.globinc) return false; int n = b % 6 ? 1 + (int)(b % 1000) : 0; bool c = t.style != 2 || t.sync != n; t.style = 2; t.sync = n; return c; }
  case M_STYLE: t.style = (int)(b % 3); return true;
  case M_TCFLAG: { auto &tc = sel(s.tcs, b); int c = (int)((b >> 8) % K_N); if (!tc.flags[c].empty() && b % 2) tc.flags[c].pop_back(); else tc.flags[c].push_back(string(kCatPrefix[c]) + "tc" + std::to_string(w.nextid++)); return true; }
  case M_TESTRC: { if (s.tests.empty()) return false; auto &x = sel(s.tests, a); x.rc = x.rc ? 0 : 1 + (int)(b % 3); return true; }
  case M_TESTOUT: { if (s.tests.empty()) return false; auto &x = sel(s.tests, a); x.out = (int)(b % 7); x.lines = (int)((b >> 8) % 6); x.elines = (int)((b >> 12) % 4); x.cwd = (b >> 16) % 2; return true; }
  case M_TCSTATE: {
    auto &tc = sel(s.tcs, b);
    if ((b >> 8) % 3 == 0 || s.tcs.size() < 2) { if (s.tests.empty()) return false; tc.test = !tc.test; return true; }
    tc.build = !tc.build;
    for (auto &x : s.tgts) if (s.tcs[(size_t)x.tc].build) return true;
    tc.build = true;
    return false;
  }
  case M_CDEP: {
    string p = string(kRoot) + "/dep/c" + std::to_string(a % s.tgts.size()) + ".txt";
    if (has(t.cdeps, p)) { bump(w, p, f); if (b % 2) { del(t.cdeps, p); w.files[p].exists = false; } }
    else { create(w, p, 1, f); t.cdeps.push_back(p); }
    return true;
  }
  case M_LDEP: {
    string p = string(kRoot) + "/ld/n" + std::to_string(a % s.tgts.size()) + ".ld";
    string fl = "-T" + p;
    if (t.type == 1) return false;
    if (has(t.ldeps, p)) { if (b % 2) bump(w, p, f); else { del(t.ldeps, p); del(t.flags[K_LINK], fl); } }
    else { create(w, p, 1, f); t.ldeps.push_back(p); t.flags[K_LINK].push_back(fl); }
    return true;
  }
  case M_ADDTGT: {
    if (s.tgts.size() > 6) return false;
    Tgt n;
    int id = w.nextid++;
    n.name = "tgt" + std::to_string(id);
    n.type = (int)(b % 3);
    n.sub = "m" + std::to_string(id);
    n.inc = s.tgts[0].inc;
    n.style = (int)((b >> 4) % 3);
    string p = string(kRoot) + "/" + n.sub + "/src/a.cpp";
    create(w, p, 0, f);
    n.src.push_back(p);
    if ((b >> 8) % 2) n.deps.push_back(s.tgts[a % s.tgts.size()].name);
    s.tgts.push_back(n);
    return true;
  }
  case M_TYPE: {             // the same name, another kind of output
    if (!t.libs.empty() || !t.libdir.empty() || !t.ext.empty() || !t.ldeps.empty()) return false;
    for (auto &o : s.tgts) if (has(o.libs, t.name)) return false;
    for (auto &x : s.tests) if (x.tgt == t.name) return false;
    t.type = (t.type + 1 + (int)(b % 2)) % 3;
    return true;
  }
  case M_DELTGT: {
    if (s.tgts.size() < 2) return false;
    string n = t.name;
    s.tgts.erase(std::remove_if(s.tgts.begin(), s.tgts.end(), [&](const Tgt &x) { return x.name == n; }), s.tgts.end());
    for (auto &o : s.tgts) { del(o.deps, n); del(o.libs, n); }
    { bool on = false; for (auto &x : s.tgts) if (s.tcs[(size_t)x.tc].build) on = true; if (!on) for (auto &tc : s.tcs) tc.build = true; }
    return true;
  }
  case M_BIN: {
    vector<string> c;
    for (auto &x : t.src) if (w.files.count(x)) c.push_back(x);
    if (c.empty()) return false;
    string p = c[b % c.size()], bn = string(kRoot) + "/bin/n" + t.name + ".bin";
    if (has(w.files[p].bins, bn)) { if ((b >> 8) % 2) bump(w, bn, f); else { bump(w, p, f); del(w.files[p].bins, bn); } }
    else { if (!w.files.count(bn)) create(w, bn, 1, f); bump(w, p, f); w.files[p].bins.push_back(bn); }
    return true;
  }
  }
  return false;
}

// on the first target (generator, ...) from the selected one on to which it applies
static bool mutate(World &w, int sub, uint64_t a, uint64_t b, Files &f) {
  for (uint64_t k = 0; k < 6; k++) if (mutate1(w, sub, a + k, b + k * 0x12345, f)) return true;
  return false;
}

bool apply(World &w, const Op &op, Files &f) {
  f.clock += 5000000;
  auto us = used_files(w);
  switch (op.k) {
  case O_EDIT: { if (us.empty()) return false; bump(w, sel(us, op.a), f); return true; }
  case O_TOUCH: { if (us.empty()) return false; auto &u = w.files[sel(us, op.a)]; u.mtime = f.fresh(); return true; }
  case O_REVERT: {
    vector<string> c;
    for (auto &p : us) if (!f.old[p].empty()) c.push_back(p);
    if (c.empty()) return false;
    string p = sel(c, op.a);
    auto &hist = f.old[p];
    UFile o = hist[op.b % hist.size()];
    if (!o.there()) return false;
    if (op.c % 2 || f.racy.count(p)) o.mtime = f.fresh();
    hist.push_back(w.files[p]);
    // keep declared includes consistent with what exists
    for (auto &i : o.incs) if (i[0] == '/') { bool ok = w.files.count(i) && w.files[i].exists; for (auto &g : w.sp.gens) for (auto &d : g.ids) if (has(d.out, i)) ok = true; if (!ok) { hist.pop_back(); return false; } }
    w.files[p] = o;
    break;
  }
  case O_BREAK: {
    if (us.empty()) return false;
    vector<string> c;
    for (auto &p : us) { bool lib = false; for (auto &t : w.sp.tgts) if (has(t.ldeps, p) || has(t.cdeps, p)) lib = true; if (!lib) c.push_back(p); }
    if (c.empty()) return false;
    if (op.c % 3 == 0) {                // it is deleted
      vector<string> d;
      for (auto &p : us) { bool glob = false; for (auto &t : w.sp.tgts) if (t.globinc && has(t.headers, p)) glob = true; if (!glob) d.push_back(p); }
      if (!d.empty()) { w.files[sel(d, op.a)].mark = 3; return true; }
    }
    string p = sel(c, op.a);
    bump(w, p, f);
    w.files[p].mark = 1 + (int)(op.b % 2);
    return true;
  }
  case O_UNBREAK: {
    bool any = false;
    for (auto &[p, u] : w.files) if (u.mark) {
      any = true;
      auto &h = f.old[p];
      if (u.mark == 3 && op.a % 3) { u.mark = 0; continue; }    // it is back as it was
      if (op.a % 3 == 0 && !h.empty() && !h.back().mark && h.back().exists && h.back().incs == u.incs && h.back().bins == u.bins) { UFile o = h.back(); if (op.b % 2) o.mtime = f.fresh(); u = o; }
      else { bump(w, p, f); w.files[p].mark = 0; }
    }
    for (auto &t : w.sp.tests) if (t.rc && op.c % 2) { t.rc = 0; any = true; }
    return any;
  }
  case O_SPEC: { bool r = mutate(w, (int)(op.c % M_N), op.a, op.b, f); refresh(w); return r; }
  case O_SNAP: f.snaps.push_back(w); return true;
  case O_RESTORE: {
    if (f.snaps.empty()) return false;
    const World &s = f.snaps[op.a % f.snaps.size()];
    int ver = w.ver, nid = w.nextid;
    for (auto &[p, u] : w.files) {
      f.old[p].push_back(u);
      if (!s.files.count(p)) u.exists = false;
    }
    for (auto &[p, u] : s.files) {
      bool same = w.files.count(p) && w.files[p].ver == u.ver && w.files[p].mtime == u.mtime && w.files[p].exists == u.exists;
      w.files[p] = u;
      if (!same && (op.b % 3 == 0 || f.racy.count(p))) w.files[p].mtime = f.fresh();
    }
    w.sp = s.sp;
    w.ver = ver; w.nextid = nid;
    return true;
  }
  case O_CLOCK: f.clock += op.a % 2 ? 3600000000000ull * (1 + op.b % 48) : 0; if (op.a % 2 == 0) f.clock -= 3600000000000ull * (1 + op.b % 48); return true;
  case O_BAD: w.sp.baddep = (int)(op.a % 16); w.sp.bad_a = (int)(op.b % 1000); w.sp.bad_b = (int)(op.c % 1000); return true;
  default: return false;
  }
  refresh(w);
  return true;
}

// ------------------------------------------------------------ json
static json plan_json(const sim::Plan &p) {
  json j;
  j["seed"] = p.seed; j["strategy"] = p.strategy; j["p_point"] = p.p_point; j["mem_gap"] = p.mem_gap; j["pct_depth"] = p.pct_depth; j["victim"] = p.victim;
  j["workers"] = p.workers; j["race"] = p.race; j["crash_event"] = p.crash_event; j["crash_mode"] = p.crash_mode;
  j["clock_jump"] = p.clock_jump; j["clock_jump_event"] = p.clock_jump_event; j["spurious"] = p.spurious; j["chunk"] = p.chunk; j["dur_scale"] = p.dur_scale;
  j["step_budget"] = p.step_budget; j["point_budget"] = p.point_budget;
  json tr = json::array();
  for (auto &d : p.trace) tr.push_back({d.step, d.tid});
  j["trace"] = tr;
  json fs = json::array();
  for (auto &f : p.fs) fs.push_back({{"op", sim::kFsOpName[f.op]}, {"opn", f.op}, {"nth", f.nth}, {"count", f.count}, {"errno", f.err}, {"short", f.shortn}, {"match", f.match}});
  j["fs_faults"] = fs;
  json cm = json::array();
  for (auto &c : p.cmd) cm.push_back({{"nth", c.nth}, {"match", c.match}, {"mode", c.mode}, {"code", c.code}, {"when", c.when}, {"count", c.count}});
  j["cmd_faults"] = cm;
  json cb = json::array();
  for (auto &c : p.cb) cb.push_back({{"match", c.match}, {"mode", c.mode}, {"when", c.when}, {"count", c.count}});
  j["cb_faults"] = cb;
  return j;
}
static sim::Plan plan_from(const json &j) {
  sim::Plan p;
  p.seed = j["seed"]; p.strategy = j["strategy"]; p.p_point = j["p_point"]; p.mem_gap = j["mem_gap"]; p.pct_depth = j["pct_depth"]; p.victim = j["victim"];
  p.workers = j["workers"]; p.race = j["race"]; p.crash_event = j["crash_event"]; p.crash_mode = j["crash_mode"];
  p.clock_jump = j["clock_jump"]; p.clock_jump_event = j["clock_jump_event"]; p.spurious = j["spurious"]; p.chunk = j["chunk"]; p.dur_scale = j["dur_scale"];
  p.step_budget = j["step_budget"]; p.point_budget = j["point_budget"];
  for (auto &d : j["trace"]) p.trace.push_back({d[0], d[1]});
  for (auto &f : j["fs_faults"]) { sim::FsFault x; x.op = f["opn"]; x.nth = f["nth"]; x.count = f["count"]; x.err = f["errno"]; x.shortn = f["short"]; x.match = f["match"]; p.fs.push_back(x); }
  for (auto &f : j["cmd_faults"]) { sim::CmdFault x; x.nth = f["nth"]; x.match = f["match"]; x.mode = f["mode"]; x.code = f["code"]; x.when = f["when"]; x.count = f["count"]; p.cmd.push_back(x); }
  for (auto &f : j["cb_faults"]) { sim::Plan::CbFault x; x.match = f["match"]; x.mode = f["mode"]; x.when = f["when"]; x.count = f["count"]; p.cb.push_back(x); }
  return p;
}
string to_json(const History &h, const string &property, const string &kind, const string &message, uint64_t seed, const string &extra) {
  json j;
  j["property"] = property; j["kind"] = kind; j["message"] = message; j["seed"] = seed;
  j["world"] = {{"seed", h.wseed}, {"size", h.size}, {"features", h.feat}};
  json a = json::array();
  for (auto &o : h.ops) {
    json x;
    x["op"] = kOpName[o.k]; x["k"] = o.k; x["a"] = o.a; x["b"] = o.b; x["c"] = o.c;
    if (o.k == O_SPEC) x["what"] = kSpecOpName[o.c % M_N];
    if (o.k == O_BUILD || o.k == O_SCEN) {
      x["plan"] = plan_json(o.plan);
      x["diff"] = o.diff;
      json m = json::array();
      for (auto &e : o.med) m.push_back({e.event, e.path});
      x["edits"] = m;
    }
    a.push_back(x);
  }
  j["ops"] = a;
  j["trace_text"] = extra;
  return j.dump(1);
}
bool from_json(const string &text, History &h, string &property, string &kind) {
  json j = json::parse(text, nullptr, false);
  if (j.is_discarded()) return false;
  property = j["property"]; kind = j["kind"];
  h.wseed = j["world"]["seed"]; h.size = j["world"]["size"]; h.feat = j["world"]["features"];
  for (auto &x : j["ops"]) {
    Op o;
    o.k = x["k"]; o.a = x["a"]; o.b = x["b"]; o.c = x["c"];
    if (o.k == O_BUILD || o.k == O_SCEN) {
      o.plan = plan_from(x["plan"]);
      o.diff = x["diff"];
      for (auto &e : x["edits"]) o.med.push_back({e[0], e[1]});
    }
    h.ops.push_back(o);
  }
  return true;
}
string describe(const Op &o) {
  string s = kOpName[o.k];
  if (o.k == O_SPEC) s += string(" ") + kSpecOpName[o.c % M_N];
  if (o.k == O_BUILD || o.k == O_SCEN) {
    static const char *st[] = {"random", "pct", "seq", "rr", "trace"};
    s += string(" ") + st[o.plan.strategy] + " workers=" + std::to_string(o.plan.workers);
    if (o.plan.crash_event) s += " kill@" + std::to_string(o.plan.crash_event) + "/" + std::to_string(o.plan.crash_mode);
    for (auto &f : o.plan.fs) s += string(" fs:") + sim::kFsOpName[f.op] + "#" + std::to_string(f.nth) + "x" + std::to_string(f.count) + " errno " + std::to_string(f.err) + (f.shortn >= 0 ? " short " + std::to_string(f.shortn) : "") + " '" + f.match + "'";
    for (auto &f : o.plan.cmd) s += " cmd#" + std::to_string(f.nth) + (f.match.empty() ? "" : "'" + f.match + "'") + " mode " + std::to_string(f.mode) + " when " + std::to_string(f.when);
    for (auto &f : o.plan.cb) s += " cb '" + f.match + "' mode " + std::to_string(f.mode) + " when " + std::to_string(f.when);
    for (auto &e : o.med) s += " edit@" + std::to_string(e.event) + " " + e.path;
    if (o.plan.chunk) s += " chunk=" + std::to_string(o.plan.chunk);
  }
  return s;
}
}  // namespace ops
