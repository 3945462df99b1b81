#include "spec.h"
#include <algorithm>
#include <functional>

namespace spec {
string kBuild = "/w/p/_b";
const char *const kCatPrefix[K_N] = {"-DP", "-fK", "-fH", "-fJ", "-fA", "-fC", "-fX", "-WL"};

static bool has(const vector<string> &v, const string &s) { return std::find(v.begin(), v.end(), s) != v.end(); }
static string ext(const string &p) { size_t k = p.rfind('.'); return k == string::npos ? "" : p.substr(k); }

string UFile::render(const string &path) const {
  string s;
  if (kind == 1) { s = "data " + tools::base(path) + " v" + std::to_string(ver) + "\n"; if (mark) s += mark == 1 ? "#error\n" : "#error #throw\n"; return s; }
  if (kind == 2) { s = "// template " + tools::base(path) + " v" + std::to_string(ver) + "\nint t = {val}; // {other}\n"; if (mark) s += "{unknown_placeholder}\n"; return s; }
  s = "// " + tools::base(path) + " v" + std::to_string(ver) + "\n";
  for (auto &i : incs) s += "#include \"" + i + "\"\n";
  for (auto &b : bins) s += ".incbin \"" + b + "\"\n";
  if (mark) s += "#error broken\n";
  s += "int v" + std::to_string(ver) + ";\n";
  return s;
}

const Tgt *find_tgt(const Spec &s, const string &n) { for (auto &t : s.tgts) if (t.name == n) return &t; return nullptr; }
const Gen *find_gen(const Spec &s, const string &n) { for (auto &g : s.gens) if (g.name == n) return &g; return nullptr; }

string gen_dir(const Gen &g) { return string(kBuild) + "/" + g.name; }
string gen_state(const Gen &g) { return gen_dir(g) + "/" + g.name + ".json"; }
string tgt_dir(const World &w, const Tgt &t) { return string(kBuild) + "/" + w.sp.tcs[(size_t)t.tc].name + "/" + t.name; }
string tgt_state(const World &w, const Tgt &t) { return tgt_dir(w, t) + "/" + t.name + ".bin"; }
const char *const kCustomExt[3] = {".elf", ".lar", ".dso"};
const char *const kCustomPch = "{compiler} -c {input} {compile_flags} {pch_compile_flags} {common_compile_flags} {include_dirs} {preprocessor_flags} -o {output}";
const char *const kCustomCompile = "{compiler} -c {input} {compile_flags} {pch_object_flags} {common_compile_flags} {include_dirs} {preprocessor_flags} -o {output}";
const char *const kCustomExe = "{linker} {lib_dirs} {link_flags} {compiled_sources} {lib_deps} -o {output}";
const char *const kCustomStatic = "{archiver} rcs {output} {compiled_sources}";
const char *const kCustomDynamic = "{linker} -shared {link_flags} {compiled_sources} -o {output}";
TcTools tc_tools(const Tc &t) { return t.kind == 4 ? TcTools{"cl", "cl", "cl", "lib", "link"} : TcTools{"as", "gcc", "g++", "ar", "ld"}; }
TcConfig tc_config(const Tc &t) {
  if (t.cfg) return t.kind == 4 ? TcConfig{".ob", ".hpp", ".pcx", "/I", "/LIBPATH:"} : TcConfig{".ob", ".hpp", ".gch", "--inc=", "--lib="};
  return t.kind == 4 ? TcConfig{".obj", ".h", ".pch", "/I", "/LIBPATH:"} : TcConfig{".o", ".h", ".gch", "-I", "-L"};
}
int lang(const string &p, bool cfg) {
  string e = ext(p);
  if (cfg && e == ".c") return 3;
  if (e == ".cpp" || e == ".cxx" || e == ".cc" || e == ".cppm") return 3;
  if (e == ".c") return 2;
  if (e == ".S" || e == ".s" || e == ".asm") return 1;
  return e == ".h" || e == ".hpp" ? 4 : 0;
}
static const Tc &tc_of(const World &w, const Tgt &t) { return w.sp.tcs[(size_t)t.tc]; }
static const char *out_ext(const Tc &tc, int type) {
  static const char *g[] = {"", ".a", ".so"}, *m[] = {".exe", ".a", ".dll"}, *v[] = {".exe", ".lib", ".lib"};
  return (tc.kind == 2 ? m : tc.kind == 3 ? kCustomExt : tc.kind == 4 ? v : g)[type];
}
string tgt_out(const World &w, const Tgt &t) { return tgt_dir(w, t) + "/" + t.name + out_ext(tc_of(w, t), t.type); }
string pch_header(const World &w, const Tgt &t) { return tgt_dir(w, t) + "/buildcc_pch" + tc_config(tc_of(w, t)).pch_header; }
static string troot(const Tgt &t) { return t.sub.empty() ? string(kRoot) : string(kRoot) + "/" + t.sub; }
static vector<string> comps(const string &p) {
  vector<string> v; string c;
  for (char ch : p) { if (ch == '/') { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch; }
  if (!c.empty()) v.push_back(c);
  return v;
}
string obj_path(const World &w, const Tgt &t, const string &src) {
  auto a = comps(src), b = comps(troot(t));
  size_t k = 0;
  while (k < a.size() && k < b.size() && a[k] == b[k]) k++;
  string rel;
  for (size_t i = k; i < b.size(); i++) rel += "__/";
  for (size_t i = k; i + 1 < a.size(); i++) rel += a[i] + "/";
  return tgt_dir(w, t) + "/" + rel + a.back() + tc_config(tc_of(w, t)).obj;
}
vector<string> state_files(const World &w) {
  vector<string> v;
  for (auto &t : w.sp.tgts) v.push_back(tgt_state(w, t));
  for (auto &g : w.sp.gens) v.push_back(gen_state(g));
  return v;
}
map<string, set<string>> builder_deps(const Spec &s) {
  map<string, set<string>> d;
  for (auto &g : s.gens) d[g.name].insert(g.deps.begin(), g.deps.end());
  for (auto &t : s.tgts) d[t.name].insert(t.deps.begin(), t.deps.end());
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto &[n, ds] : d) { size_t b = ds.size(); set<string> add; for (auto &x : ds) for (auto &y : d[x]) add.insert(y); ds.insert(add.begin(), add.end()); if (ds.size() != b) ch = true; }
  }
  return d;
}

Spec active(const Spec &s) {
  Spec a = s;
  a.tgts.clear(); a.tests.clear(); a.off.clear(); a.offtests.clear();
  for (auto &t : s.tgts) (s.tcs[(size_t)t.tc].build ? a.tgts : a.off).push_back(t);
  for (auto &x : s.tests) {
    const Tc &tc = s.tcs[(size_t)find_tgt(s, x.tgt)->tc];
    (tc.build && tc.test ? a.tests : a.offtests).push_back(x);
  }
  auto gone = [&](const string &n) { for (auto &t : a.off) if (t.name == n) return true; return false; };
  for (auto &t : a.tgts) for (auto *v : {&t.deps, &t.libs}) v->erase(std::remove_if(v->begin(), v->end(), gone), v->end());
  return a;
}

vector<std::pair<string, string>> config_files(const Spec &s) {
  vector<std::pair<string, string>> v;
  static const char *lv[] = {"info", "debug", "trace", "warning"};
  for (int k = 0; k < s.argstyle; k++) {
    bool last = k + 1 == s.argstyle;       // the last one wins
    string t = "root_dir = \"" + string(last ? kRoot : "/w/elsewhere") + "\"\nbuild_dir = \"" + (last ? kBuild : "/w/elsewhere/b") + "\"\nloglevel = \"" + (last ? lv[s.loglevel & 3] : "critical") + "\"\n";
    for (auto &tc : s.tcs) t += "\n[toolchain." + tc.name + "]\nbuild = " + (tc.build == last ? "true" : "false") + "\ntest = " + (tc.test == last ? "true" : "false") + "\n";
    v.push_back({"/w/cfg" + std::to_string(k) + ".toml", t});
  }
  return v;
}

string render_template(const string &text, const Gen &g, bool &ok) {
  string o;
  for (size_t i = 0; i < text.size(); i++) {
    if (text[i] == '{') {
      size_t e = text.find('}', i);
      string k = text.substr(i + 1, e - i - 1);
      auto it = g.pats.find(k);
      if (it == g.pats.end()) { ok = false; return ""; }
      o += it->second;
      i = e;
    } else o += text[i];
  }
  return o;
}

// which generator produces this path
static const Gen *producer(const Spec &s, const string &p) {
  for (auto &g : s.gens) for (auto &i : g.ids) if (has(i.out, p)) return &g;
  return nullptr;
}

static vector<string> file_cmd_outs(const Gen &g, size_t k) {
  // command k of a file generator writes the outputs j with j % ncmds == k
  vector<string> v;
  auto &o = g.ids[0].out;
  for (size_t j = 0; j < o.size(); j++) if (j % g.cmdtags.size() == k) v.push_back(o[j]);
  return v;
}

static string gen_tag(const Gen &g, const GenId &i) { return g.name + "/" + i.id + (i.blob ? "=" + i.data : ""); }

void refresh(World &w) {
  // overlay with placeholder text for generated files (no includes in them)
  tools::Reader rd = [&](const string &p, string &o) {
    auto it = w.files.find(p);
    if (it != w.files.end() && it->second.exists) { o = it->second.render(p); return true; }
    if (producer(w.sp, p)) { o = "\n"; return true; }
    return false;
  };
  for (auto &g : w.sp.gens) {
    vector<string> keep;
    for (auto &d : g.deps) if (find_gen(w.sp, d)) keep.push_back(d);
    g.deps = keep;
    for (auto &i : g.ids) for (auto &in : i.in) if (const Gen *p = producer(w.sp, in)) if (p->name != g.name && !has(g.deps, p->name)) g.deps.push_back(p->name);
  }
  for (auto &t : w.sp.tgts) {
    vector<string> hs;
    vector<string> bins;
    auto scan = [&](const string &f) { vector<string> h, b; tools::closure(f, t.inc, rd, h, b); for (auto &x : h) if (!has(hs, x)) hs.push_back(x); for (auto &x : b) if (!has(bins, x)) bins.push_back(x); };
    for (auto &s : t.src) scan(s);
    for (auto &p : t.pch) scan(p);
    t.headers = hs;
    if (t.globinc)
      for (auto &d : t.inc) for (auto &[p, f] : w.files) if (f.exists && tools::dir(p) == d && lang(p) == 4 && !has(t.headers, p)) t.headers.push_back(p);
    std::sort(t.headers.begin(), t.headers.end());
    // files read by the compile steps that are not headers
    vector<string> cd;
    for (auto &c : t.cdeps) if (has(bins, c) || (w.files.count(c) && w.files.at(c).exists)) cd.push_back(c);
    for (auto &b : bins) if (!has(cd, b)) cd.push_back(b);
    std::sort(cd.begin(), cd.end());
    t.cdeps = cd;
    vector<string> keep;
    for (auto &d : t.deps) if (find_gen(w.sp, d) || find_tgt(w.sp, d)) keep.push_back(d);
    t.deps = keep;
    auto need = [&](const string &p) { if (const Gen *g = producer(w.sp, p)) if (!has(t.deps, g->name)) t.deps.push_back(g->name); };
    for (auto &x : t.src) need(x);
    for (auto &x : t.headers) need(x);
    for (auto &x : t.pch) need(x);
    for (auto &x : t.cdeps) need(x);
    for (auto &x : t.ldeps) need(x);
    vector<string> kl;
    for (auto &l : t.libs) if (find_tgt(w.sp, l)) kl.push_back(l);
    t.libs = kl;
    for (auto &l : t.libs) if (!has(t.deps, l)) t.deps.push_back(l);
  }
  vector<Test> kt;
  for (auto &x : w.sp.tests) if (find_tgt(w.sp, x.tgt)) kt.push_back(x);
  w.sp.tests = kt;
}

static vector<string> cat_flags(const World &w, const Tgt &t, int c, const string &pchh = "") {
  const Tc &tc = tc_of(w, t);
  vector<string> v = tc.flags[c];
  if (tc.kind == 4) {
    if (c == K_PCHO) { v.push_back("\"/Yu" + pchh + "\""); v.push_back("\"/FI" + pchh + "\""); v.push_back("\"/Fp" + tools::dir(pchh) + "/buildcc_pch" + tc_config(tc).pch_header + tc_config(tc).pch + "\""); }
    if (c == K_C || c == K_CPP || c == K_LINK) v.push_back("/nologo");
    if (c == K_CPP) v.push_back("/EHsc");
  } else if (c == K_PCHO) { v.push_back("-include"); v.push_back("\"" + pchh + "\""); v.push_back("-H"); }
  if (c == K_COMMON && t.type == 2 && tc.kind < 3) v.push_back("-fpic");
  v.insert(v.end(), t.flags[c].begin(), t.flags[c].end());
  vector<string> o;               // as the shell passes them on
  for (auto &f : v) for (auto &x : tools::split_cmd(f)) o.push_back(x);
  return o;
}
string new_flag(World &w, int c, uint64_t h) {
  string f = string(kCatPrefix[c]) + std::to_string(w.nextid++);
  h = (h >> 7) % 20;
  if (h == 0) f += "='\"s\"'"; else if (h == 1) f += "='a b\\'"; else if (h == 2) f += "=\"x'y\t\""; 
  return f;
}

Model model(const World &w) {
  Model m;
  m.deps = builder_deps(w.sp);
  map<string, string> &out = m.out;
  map<string, string> toolsx;
  for (auto &tc : w.sp.tcs) for (const char *x : {"as", "gcc", "g++", "ar", "ld", "gen", "cl", "lib", "link"}) toolsx["/w/tc/" + tc.name + "/bin/" + x] = string("TOOL ") + x + " " + tc.name + "\n";
  tools::Reader rd = [&](const string &p, string &o) {
    auto i = out.find(p);
    if (i != out.end()) { o = i->second; return true; }
    if (tools::base(p) == "buildcc_pch.cpp" || tools::base(p) == "buildcc_pch.c") { o.clear(); return true; }
    auto f = w.files.find(p);
    if (f != w.files.end() && f->second.there()) { o = f->second.render(p); return true; }
    auto t = toolsx.find(p);
    if (t != toolsx.end()) { o = t->second; return true; }
    return false;
  };
  map<string, string> outsig;   // generated/built path -> sig of the producing step
  auto srcsig = [&](const string &p) {
    auto i = outsig.find(p);
    if (i != outsig.end()) return p + "#" + i->second;
    auto f = w.files.find(p);
    return p + "@" + (f != w.files.end() && f->second.there() ? std::to_string(f->second.mtime) : "none");
  };
  auto list = [&](const vector<string> &v, bool sig, bool sorted) {
    vector<string> x;
    for (auto &s : v) x.push_back(sig ? srcsig(s) : s);
    if (sorted) std::sort(x.begin(), x.end());
    string r = "[";
    for (auto &s : x) r += s + ",";
    return sim::hex(sim::fnv(r));
  };
  // topological order
  vector<string> order;
  set<string> done;
  std::function<void(const string &)> visit = [&](const string &n) {
    if (!done.insert(n).second) return;
    const Gen *g = find_gen(w.sp, n);
    const Tgt *t = find_tgt(w.sp, n);
    for (auto &d : g ? g->deps : t->deps) visit(d);
    order.push_back(n);
  };
  for (auto &g : w.sp.gens) visit(g.name);
  for (auto &t : w.sp.tgts) visit(t.name);

  for (auto &n : order) {
    bool depfail = false;
    for (auto &d : m.deps[n]) if (m.failed.count(d)) depfail = true;
    bool bfail = depfail;
    if (const Gen *g = find_gen(w.sp, n)) {
      for (auto &i : g->ids) {
        Step s;
        s.key = "G:" + g->name + "/" + i.id;
        s.builder = n; s.kind = 'g'; s.outs = i.out;
        string extra = i.blob ? "data " + i.data : "";
        if (g->kind == 1) { extra = ""; for (auto &c : g->cmdtags) extra += c + ";"; }
        if (g->kind == 2) for (auto &[k, v] : g->pats) extra += k + "=" + v + ";";
        s.sig = sim::hex(sim::fnv(s.key + list(i.in, true, true) + list(i.out, false, true) + extra));
        vector<std::pair<string, string>> in;
        bool bad = false;
        for (auto &p : i.in) { string t; if (!rd(p, t)) bad = true; else { in.push_back({p, t}); if (g->kind != 2 && t.find("#error") != string::npos) bad = true; } }
        if (!bad && !depfail) {
          if (g->kind == 0) for (auto &o : i.out) out[o] = tools::gen_text(gen_tag(*g, i), o, in);
          else if (g->kind == 1) for (size_t k = 0; k < g->cmdtags.size(); k++) for (auto &o : file_cmd_outs(*g, k)) out[o] = tools::gen_text(g->cmdtags[k], o, in);
          else { bool ok = true; string t = render_template(in[0].second, *g, ok); if (ok) out[i.out[0]] = t; else bad = true; }
        }
        if (bad) { s.fails = true; bfail = true; }
        for (auto &o : i.out) { outsig[o] = s.sig; m.step_of_out[o] = s.key; m.owner[o] = n; }
        m.steps[s.key] = s;
      }
    } else {
      const Tgt &t = *find_tgt(w.sp, n);
      const Tc &tc = tc_of(w, t);
      const TcTools tn = tc_tools(tc);
      const TcConfig cf = tc_config(tc);
      string bin = "/w/tc/" + tc.name + "/bin/";
      const bool ms = tc.kind == 4, cu = tc.kind == 3;
      string tl = std::to_string(t.tc) + "/" + std::to_string(t.type);
      for (int c = 0; c < K_LINK; c++) tl += list(cat_flags(w, t, c), false, false);
      tl += list(t.inc, false, false) + list(t.headers, true, true) + list(t.cdeps, true, true) + list(t.pch, true, false);
      bool anycpp = false;
      for (auto &s : t.src) if (lang(s, tc.cfg) == 3) anycpp = true;
      if (!t.pch.empty()) tl += anycpp ? "/cpp" : "/c";
      auto add = [](vector<string> &av, const vector<string> &f) { for (auto &x : f) av.push_back(x); };
      string pchh = pch_header(w, t), pchobj = tgt_dir(w, t) + "/buildcc_pch" + cf.obj, pchsrc = tgt_dir(w, t) + "/buildcc_pch" + (anycpp ? ".cpp" : ".c");
      bool gone = false;          // a declared input is not there
      for (auto *l : {&t.src, &t.headers, &t.pch, &t.cdeps, &t.ldeps}) for (auto &x : *l) { auto f = w.files.find(x); if (f != w.files.end() && f->second.exists && !f->second.there()) gone = true; }
      if (gone) bfail = true;
      auto run = [&](Step &s, vector<string> av) {
        if (depfail || gone) return;
        tools::Result r = tools::run(av, rd);
        if (r.rc) { s.fails = true; bfail = true; return; }
        for (auto &x : r.writes) out[x.first] = x.second;
      };
      if (!t.pch.empty()) {
        string txt;
        for (auto &p : t.pch) txt += "#include \"" + p + "\"\r\n";
        if (!depfail) out[pchh] = "// Generated by BuildCC\n#ifndef BUILDCC_GENERATED_PCH_H_\n#define BUILDCC_GENERATED_PCH_H_\n\n// clang-format off\n" + txt + "\n\n#endif\n";
        m.owner[pchh] = n;
        Step s;
        s.key = pchh + cf.pch; s.builder = n; s.kind = 'p'; s.outs = {s.key};
        if (ms) s.outs.push_back(pchobj);
        s.sig = sim::hex(sim::fnv("pch" + tl));
        vector<string> av{bin + (anycpp ? tn.cxx : tn.cc)}, inc;
        for (auto &i : t.inc) inc.push_back(cf.inc + i);
        if (cu) {
          add(av, {"-c", pchh});
          add(av, cat_flags(w, t, anycpp ? K_CPP : K_C));
          add(av, cat_flags(w, t, K_PCHC));
          add(av, cat_flags(w, t, K_COMMON));
          add(av, inc);
          add(av, cat_flags(w, t, K_PRE));
          add(av, {"-o", s.key});
        } else {
          add(av, cat_flags(w, t, K_PRE));
          add(av, inc);
          add(av, cat_flags(w, t, K_COMMON));
          if (ms) add(av, {"/Yc" + pchh, "/FI" + pchh, "/Fp" + s.key});
          add(av, cat_flags(w, t, K_PCHC));
          add(av, cat_flags(w, t, anycpp ? K_CPP : K_C));
          if (ms) add(av, {"/Fo" + pchobj, "/c", pchsrc});
          else add(av, {"-o", s.key, "-c", pchh});
        }
        run(s, av);
        m.steps[s.key] = s;
        for (auto &o : s.outs) { m.owner[o] = n; m.step_of_out[o] = s.key; }
      }
      vector<string> objs, csigs;
      bool pfail = bfail;
      for (auto &src : t.src) {
        Step s;
        s.key = obj_path(w, t, src); s.builder = n; s.kind = 'c'; s.outs = {s.key};
        s.sig = sim::hex(sim::fnv("c" + tl + srcsig(src)));
        int e = lang(src, tc.cfg);
        vector<string> av{bin + (e == 3 ? tn.cxx : e == 2 ? tn.cc : tn.as)}, inc, lf = cat_flags(w, t, e == 3 ? K_CPP : e == 2 ? K_C : K_ASM), pf;
        for (auto &i : t.inc) inc.push_back(cf.inc + i);
        if (!t.pch.empty()) pf = cat_flags(w, t, K_PCHO, pchh);
        if (cu) {
          add(av, {"-c", src});
          add(av, lf);
          add(av, pf);
          add(av, cat_flags(w, t, K_COMMON));
          add(av, inc);
          add(av, cat_flags(w, t, K_PRE));
          add(av, {"-o", s.key});
        } else {
          add(av, cat_flags(w, t, K_PRE));
          add(av, inc);
          add(av, cat_flags(w, t, K_COMMON));
          add(av, pf);
          add(av, lf);
          if (ms) add(av, {"/Fo" + s.key, "/c", src});
          else add(av, {"-o", s.key, "-c", src});
        }
        string joined; for (auto &x : av) { if (!joined.empty()) joined += " | "; joined += x; }
        m.ccdb.push_back({src, joined});
        if (!pfail) run(s, av);
        objs.push_back(s.key); csigs.push_back(s.sig);
        m.steps[s.key] = s;
        m.owner[s.key] = n;
        m.step_of_out[s.key] = s.key;
      }
      {
        Step s;
        s.key = tgt_out(w, t); s.builder = n; s.kind = t.type == 1 ? 'a' : 'l'; s.outs = {s.key};
        vector<string> libp;
        for (auto &l : t.libs) libp.push_back(tgt_out(w, *find_tgt(w.sp, l)));
        s.sig = sim::hex(sim::fnv("l" + tl + list(csigs, false, false) + list(cat_flags(w, t, K_LINK), false, false) + list(t.libdir, false, false) + list(t.ext, false, false) + list(libp, true, false) + list(t.ldeps, true, false)));
        vector<string> av;
        vector<string> ld, lk = cat_flags(w, t, K_LINK);
        for (auto &d : t.libdir) ld.push_back(cf.lib + d);
        if (ms) {
          av = {bin + (t.type == 1 ? tn.ar : tn.ld)};
          if (t.type == 2) { av.push_back("/DLL"); s.outs.push_back(s.key + ".dll"); }
          add(av, lk);
          if (t.type == 0) add(av, ld);
          av.push_back("/OUT:" + s.key + (t.type == 2 ? ".dll" : ""));
          if (t.type == 2) av.push_back("/IMPLIB:" + s.key);
          if (t.type == 0) { add(av, libp); add(av, t.ext); }
          add(av, objs);
          if (!t.pch.empty()) av.push_back(pchobj);
        } else if (t.type == 1) { av = {bin + tn.ar, "rcs", s.key}; add(av, objs); }
        else if (cu) {
          av = {bin + tn.ld};
          if (t.type == 2) av.push_back("-shared"); else add(av, ld);
          add(av, lk);
          add(av, objs);
          if (t.type == 0) { add(av, libp); add(av, t.ext); }
          add(av, {"-o", s.key});
        } else {
          av = {bin + tn.cxx};
          if (t.type == 2) av.push_back("-shared");
          add(av, lk);
          add(av, objs);
          add(av, {"-o", s.key});
          if (t.type == 0) { add(av, ld); add(av, libp); add(av, t.ext); }
          else if (tc.kind == 2) { av.push_back("-Wl,--out-implib," + s.key + ".a"); s.outs.push_back(s.key + ".a"); }
        }
        if (!bfail) run(s, av);
        if (gone) s.fails = true;
        outsig[s.key] = s.sig;
        m.steps[s.key] = s;
        for (auto &o : s.outs) { m.owner[o] = n; m.step_of_out[o] = s.key; }
      }
    }
    if (bfail) { m.failed.insert(n); m.ok = false; }
  }
  return m;
}

// ------------------------------------------------------------ generation
static string kIncName = "inc";
static string hdr(int d, int k) { return string(kRoot) + "/" + kIncName + std::to_string(d) + "/h" + std::to_string(k) + (k % 4 == 3 ? ".hpp" : ".h"); }

World gen_world(sim::Rng &r, int size, unsigned feat) {
  World w;
  Spec &s = w.sp;
  uint64_t mt = 1600000000ull * 1000000000ull;
  auto newfile = [&](const string &p, int kind) -> UFile & {
    UFile f; f.kind = kind; f.ver = w.ver++; f.mtime = mt + (uint64_t)f.ver * 1000;
    return w.files[p] = f;
  };
  const bool space = (feat & W_SPACE) && r.chance(0.12);     // directories with a space in their names
  kBuild = string(kRoot) + (space && r.chance(0.7) ? "/my build" : "/_b");
  kIncName = space && r.chance(0.7) ? "in c" : "inc";
  int ntc = (feat & W_MULTITC) && r.chance(0.2) ? 2 : 1;
  for (int i = 0; i < ntc; i++) {
    Tc t; t.name = "t" + std::to_string(i);
    if (r.chance(0.2)) { int c = (int)r.below(K_N); t.flags[c].push_back(string(kCatPrefix[c]) + "tc" + std::to_string(w.nextid++)); }
    if (r.chance(0.3)) t.kind = r.range(1, 4);
    if (r.chance(0.25)) t.cfg = true;
    s.tcs.push_back(t);
  }
  s.verify = r.chance(0.6);
  s.ccdb = r.range(1, 2);
  s.loglevel = r.chance(0.1) ? (int)r.below(4) : 0;
  s.regorder = (int)r.below(1000);
  s.spell = r.chance(0.25) ? r.range(1, 1000) : 0;
  s.argstyle = r.chance(0.2) ? r.range(1, 2) : 0;
  for (auto &t : s.tcs) { if (ntc > 1 && r.chance(0.15)) t.build = false; if (r.chance(0.07)) t.test = false; }
  // headers
  int ndir = r.range(1, 2), nh = r.range(1, 2 + size);
  vector<string> hs;
  for (int i = 0; i < nh; i++) {
    string p = hdr((int)r.below((uint64_t)ndir), i);
    auto &f = newfile(p, 0);
    if (!hs.empty() && r.chance(0.3)) f.incs.push_back(tools::base(hs[r.below(hs.size())]));
    hs.push_back(p);
  }
  if (r.chance(0.3)) newfile(string(kRoot) + "/" + kIncName + "0/notes.txt", 1);   // not a header
  // external libraries
  for (int i = 0; i < 2; i++) newfile(string(kRoot) + "/ext" + std::to_string(i) + "/libfoo.a", 1);
  newfile(string(kRoot) + "/ext0/libbar.a", 1);
  // generators
  vector<string> genh, gensrc;
  const bool graph = (feat & W_GRAPH) && r.chance(0.12);     // many small builders, many dependencies
  const bool wide = (feat & W_WIDE) && !graph && r.chance(0.06);    // a target with many sources
  int ng = (feat & W_GEN) ? r.range(0, size > 1 ? 3 : 2) : 0;
  if (graph) ng = r.range(4, 8);
  const bool ladder = graph && r.chance(0.1);     // very many paths through the dependencies
  if (ladder) ng = 2 * r.range(26, 34);
  if ((feat & W_GEN) && (feat & W_TEMPLATE) == 0 && ng == 0) ng = 1;
  for (int i = 0; i < ng; i++) {
    Gen g;
    g.name = "gen" + std::to_string(i);
    g.kind = graph ? 0 : (int)r.below((feat & W_TEMPLATE) ? 3 : 2);
    int nid = g.kind == 1 || graph ? 1 : r.chance(0.08) ? r.range(4, 6) : r.range(1, 3);
    const vector<string> prior = genh;
    if (g.kind == 2) { g.pats["val"] = std::to_string(w.nextid++); g.pats["other"] = "o" + std::to_string(w.nextid++); }
    for (int k = 0; k < nid; k++) {
      GenId id;
      id.id = g.kind == 1 ? "Generate" : "id" + std::to_string(k);
      int nin = g.kind == 2 || graph ? 1 : r.chance(0.12) ? 0 : r.range(1, 2);
      for (int q = 0; q < nin; q++) {
        string p = string(kRoot) + "/gin/" + g.name + "_" + std::to_string(k) + "_" + std::to_string(q) + (g.kind == 2 ? ".in" : ".dat");
        newfile(p, g.kind == 2 ? 2 : 1);
        id.in.push_back(p);
      }
      if (g.kind == 2) id.id = id.in[0].substr(string(kRoot).size() + 1);
      // chain: consume an output of an earlier generator
      if (i > 0 && g.kind != 2 && !prior.empty() && r.chance(0.4)) id.in.push_back(prior[r.below(prior.size())]);
      int no = g.kind == 2 || graph ? 1 : r.range(1, 2);
      for (int q = 0; q < no; q++) {
        bool src = g.kind != 2 && r.chance(0.3);
        string p = gen_dir(g) + "/" + g.name + "_" + std::to_string(k) + "_" + std::to_string(q) + (src ? ".cpp" : ".h");
        id.out.push_back(p);
        (src ? gensrc : genh).push_back(p);
      }
      id.blob = g.kind == 0 ? r.chance(0.7) : false;
      id.data = "d" + std::to_string(w.nextid++);
      g.ids.push_back(id);
    }
    if (g.kind == 1) { int nc = r.range(1, 2); for (int k = 0; k < nc; k++) g.cmdtags.push_back("c" + std::to_string(w.nextid++)); }
    if (ladder) { if (i > 1) for (int q = 0; q < 2; q++) g.deps.push_back("gen" + std::to_string(i / 2 * 2 - 2 + q)); }
    else if (graph) for (auto &o : s.gens) if (r.chance(0.35)) g.deps.push_back(o.name);
    s.gens.push_back(g);
  }
  if (!graph && s.gens.size() > 1 && r.chance(0.3)) s.gens.back().deps.push_back(s.gens[0].name);
  // targets
  int nt = graph ? 1 : r.range(1, 1 + size);
  for (int i = 0; i < nt; i++) {
    Tgt t;
    t.name = "tgt" + std::to_string(i);
    t.type = (feat & W_LIBS) ? (i == nt - 1 ? 0 : (int)r.below(3)) : 0;
    t.tc = (int)r.below((uint64_t)ntc);
    t.sub = r.chance(0.7) ? (space && r.chance(0.5) ? "m " : "m") + std::to_string(i) : "";
    t.style = (int)r.below(3);
    string base = t.sub.empty() ? string(kRoot) + "/s" + std::to_string(i) : string(kRoot) + "/" + t.sub;
    int ns = graph ? 1 : wide && i == nt - 1 ? r.range(6, 14) : r.range(1, 2 + size / 2);
    for (int k = 0; k < ns; k++) {
      static const char *cx[] = {".cpp", ".cpp", ".cpp", ".cxx", ".cc"}, *as[] = {".S", ".s", ".asm"};
      const char *e = r.chance(0.65) ? cx[r.below(5)] : ((feat & W_ASM) && r.chance(0.4)) ? as[r.below(3)] : ".c";
      if (s.tcs[(size_t)t.tc].cfg && r.chance(0.2)) e = ".cppm";
      string p = base + (r.chance(0.3) ? "/sub" : "/src") + "/f" + std::to_string(i) + (k > 9 ? "_" : "") + std::to_string(k) + e;
      auto &f = newfile(p, 0);
      int ni = (int)r.below(3);
      for (int q = 0; q < ni && !hs.empty(); q++) { string h = tools::base(hs[r.below(hs.size())]); if (!has(f.incs, h)) f.incs.push_back(h); }
      if (!genh.empty() && r.chance(0.5)) f.incs.push_back(genh[r.below(genh.size())]);
      if (r.chance(0.15)) { string b = string(kRoot) + "/bin/b" + std::to_string(i) + ".bin"; if (!w.files.count(b)) newfile(b, 1); w.files[p].bins.push_back(b); }
      t.src.push_back(p);
    }
    if (!gensrc.empty() && r.chance(0.5)) { string g = gensrc[r.below(gensrc.size())]; t.src.push_back(g); }
    if (r.chance(0.15)) {                // a source outside the target root, possibly shared
      string p = string(kRoot) + "/shared" + (r.chance(0.6) ? "" : r.chance(0.5) ? "/v1.0" : "/v1_0") + "/x.cpp";
      if (!w.files.count(p)) newfile(p, 0);
      t.src.push_back(p);
    }
    if (r.chance(0.05)) t.dup = 1 + (int)r.below(t.src.size());
    for (int d = 0; d < ndir; d++) t.inc.push_back(string(kRoot) + "/" + kIncName + std::to_string(d));
    if (ndir == 2 && r.chance(0.5)) std::swap(t.inc[0], t.inc[1]);
    t.globinc = (feat & W_GLOB) && r.chance(0.2);
    t.glob = (feat & W_GLOB) && r.chance(0.3);
    if ((feat & W_PCH) && r.chance(0.35)) {
      int np = r.range(1, 2);
      for (int k = 0; k < np; k++) {
        string p = base + "/pch" + std::to_string(i) + std::to_string(k) + ".h";
        auto &f = newfile(p, 0);
        if (!hs.empty() && r.chance(0.6)) f.incs.push_back(tools::base(hs[r.below(hs.size())]));
        t.pch.push_back(p);
      }
    }
    for (int c = 0; c < K_N; c++) if (r.chance(0.35)) { int n = r.range(1, 2); for (int k = 0; k < n; k++) t.flags[c].push_back(new_flag(w, c, r.next())); }
    if (feat & W_LIBS) {
      for (auto &o : s.tgts) if (o.tc == t.tc && o.type != 0 && t.type == 0 && r.chance(0.6)) t.libs.push_back(o.name);
      if (t.type == 0 && r.chance(0.4)) {
        t.libdir.push_back(string(kRoot) + "/ext0");
        if (r.chance(0.5)) t.libdir.push_back(string(kRoot) + "/ext1");
        t.ext.push_back("-lfoo");
        if (r.chance(0.4)) t.ext.push_back("-lbar");
      }
    }
    if (t.type != 1 && r.chance(0.2)) {
      string l = string(kRoot) + "/ld/s" + std::to_string(i) + ".ld";
      newfile(l, 1);
      t.ldeps.push_back(l);
      t.flags[K_LINK].push_back("-T" + l);
    }
    for (auto &o : s.tgts) if (!has(t.libs, o.name) && r.chance(0.2)) t.deps.push_back(o.name);
    for (auto &g : s.gens) if (r.chance(0.1)) t.deps.push_back(g.name);
    if (t.style == 2 && !t.glob && !t.globinc && r.chance(0.75)) t.sync = r.range(1, 1000);
    s.tgts.push_back(t);
  }
  if (feat & W_TESTS) {
    for (auto &t : s.tgts) if (t.type == 0 && r.chance(0.8)) {
      Test x; x.tgt = t.name; x.out = (int)r.below(7); x.lines = (int)r.below(5); x.elines = (int)r.below(3); x.cwd = r.chance(0.3); x.tag = "T" + std::to_string(w.nextid++);
      s.tests.push_back(x);
    }
  }
  { bool on = false; for (auto &t : s.tgts) if (s.tcs[(size_t)t.tc].build) on = true; if (!on) for (auto &t : s.tcs) t.build = true; }
  refresh(w);
  return w;
}

bool file_is_used(const World &w, const string &p) {
  for (auto &t : w.sp.tgts) if (has(t.src, p) || has(t.headers, p) || has(t.pch, p) || has(t.cdeps, p) || has(t.ldeps, p)) return true;
  for (auto &g : w.sp.gens) for (auto &i : g.ids) if (has(i.in, p)) return true;
  return false;
}

string describe(const World &w) {
  string s;
  auto l = [&](const char *n, const vector<string> &v) { if (v.empty()) return; s += string(" ") + n + "=["; for (size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + v[i]; s += "]"; };
  static const char *kn[] = {"custom", "file", "template"}, *tn[] = {"exe", "static", "dynamic"};
  for (auto &g : w.sp.gens) {
    s += string("generator ") + g.name + " " + kn[g.kind];
    l("deps", g.deps);
    for (auto &i : g.ids) { s += " id=" + i.id; l("in", i.in); l("out", i.out); if (i.blob) s += " data=" + i.data; }
    l("cmds", g.cmdtags);
    s += "\n";
  }
  for (auto &t : w.sp.tgts) {
    s += string("target ") + t.name + " " + tn[t.type] + " root=" + (t.sub.empty() ? "." : t.sub);
    l("src", t.src); l("pch", t.pch); l("headers", t.headers); l("inc", t.inc); l("libs", t.libs); l("ext", t.ext); l("libdir", t.libdir); l("cdeps", t.cdeps); l("ldeps", t.ldeps); l("deps", t.deps);
    for (int c = 0; c < K_N; c++) l(kCatPrefix[c], t.flags[c]);
    s += " declared=" + std::to_string(t.style) + "/" + std::to_string(t.sync) + (t.glob ? " glob" : "") + (t.globinc ? " globinc" : "") + (t.dup ? " dup" + std::to_string(t.dup) : "");
    s += "\n";
  }
  for (auto &x : w.sp.tests) s += "test " + x.tgt + " rc=" + std::to_string(x.rc) + "\n";
  return s;
}
}  // namespace spec
