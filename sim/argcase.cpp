// Generated command lines and configuration files with the settings they stand for.
#include "script.h"
#include "rt.h"

namespace {
std::string word(sim::Rng &r) {
  static const char *w[] = {"gcc", "/usr/bin/arm-none-eabi-g++", "tool v2", "{compiler} {flags} -o {output} -c {input}", "a_b.c+d", "x", "/opt/my tools/ld", "Clang", "true", "0", "some longer text with words", "100%"};
  return std::string(w[r.below(12)]) + (r.chance(0.5) ? std::to_string(r.below(100)) : "");
}
}  // namespace

TcCase tc_case(uint64_t seed) {
  sim::Rng r(seed ^ 0x7cca);
  TcCase c;
  int k = (int)r.below(10);
  c.kind = k < 5 ? 0 : k < 7 ? 2 : k < 8 ? 3 : 4;
  spec::Tc t;
  t.kind = c.kind;
  auto n = spec::tc_tools(t);
  for (const char *x : {n.as, n.cc, n.cxx, n.ar, n.ld}) c.tools.push_back(x);
  static const char *a[] = {"x64", "x86", "arm64"};
  c.vs[0] = std::to_string(r.range(15, 17)) + "." + std::to_string(r.below(12)) + "." + std::to_string(r.below(40));
  c.vs[1] = a[r.below(3)]; c.vs[2] = a[r.below(3)];
  if (r.chance(0.3)) c.vson[r.below(3)] = false;
  return c;
}

FindCase find_case(uint64_t seed) {
  sim::Rng r(seed ^ 0xf19d);
  FindCase c;
  static const char *stem[] = {"gcc", "g++", "arm-gcc", "gcc-12", "clang", "xgcc", "gccx", "gc", "GCC", "gcc.exe", "a.b", "axb"};
  int nd = r.range(1, 5);
  std::vector<std::string> all;
  for (int i = 0; i < nd; i++) {
    std::string d = "/w/p/h" + std::to_string(i) + (r.chance(0.2) ? " dir" : "");
    all.push_back(d);
    if (r.chance(0.12)) continue;         // listed, but not there
    auto &v = c.dirs[d];
    int nf = (int)r.below(7);
    for (int k = 0; k < nf; k++) { std::string f = stem[r.below(12)]; bool dup = false; for (auto &x : v) if (x == f) dup = true; if (!dup) v.push_back(f); }
  }
  int nv = r.range(1, 3);
  for (int i = 0; i < nv; i++) {
    std::vector<std::string> v;
    int n = r.range(1, 4);
    for (int k = 0; k < n; k++) v.push_back(r.chance(0.1) ? "/w/p/file" : all[r.below(all.size())]);
    c.vars.push_back({"SIM_FIND_" + std::to_string(i), v});
    c.set.push_back(!r.chance(0.15));
  }
  for (int n = r.range(1, 3); n; n--) {
    switch (r.below(4)) {
    case 0: c.searches.push_back({"gcc", [](const std::string &s) { return s == "gcc"; }}); break;
    case 1: c.searches.push_back({".*gcc", [](const std::string &s) { return s.size() >= 3 && s.substr(s.size() - 3) == "gcc"; }}); break;
    case 2: c.searches.push_back({"(gcc|clang)(-[0-9]+)?", [](const std::string &s) { return s == "gcc" || s == "clang" || s == "gcc-12"; }}); break;
    default: c.searches.push_back({"a\\.b", [](const std::string &s) { return s == "a.b"; }});
    }
  }
  return c;
}

ArgCase arg_case(uint64_t seed) {
  sim::Rng r(seed ^ 0xa46);
  ArgCase c;
  static const char *lv[] = {"trace", "debug", "info", "warning", "critical"};
  static const char *ids[] = {"gcc", "msvc", "mingw", "clang", "custom", "undefined"};
  struct Opt { std::string sect, name; int kind; std::string dflt; };   // kind: 0 text, 1 flag, 2 level, 3 id, 4 path
  std::vector<Opt> o = {{"", "clean", 1, "0"}, {"", "loglevel", 2, "info"}, {"", "root_dir", 4, "?"}, {"", "build_dir", 4, "?"}};
  c.ntc = (int)r.below(4);
  c.ntg = (int)r.below(3);
  c.extra = r.chance(0.5);
  for (int i = 0; i < c.ntc; i++) {
    std::string s = "toolchain.t" + std::to_string(i);
    o.push_back({s, "build", 1, "0"});
    o.push_back({s, "test", 1, "0"});
    bool init = r.chance(0.5);
    ArgCase::Init in;
    if (init) { in.on = true; in.id = (int)r.below(6); in.name = word(r); for (auto &x : in.exe) x = word(r); }
    c.init.push_back(in);
    o.push_back({s, "id", 3, init ? ids[in.id] : "undefined"});
    o.push_back({s, "name", 0, init ? in.name : ""});
    static const char *en[] = {"asm_compiler", "c_compiler", "cpp_compiler", "archiver", "linker"};
    for (int k = 0; k < 5; k++) o.push_back({s, en[k], 0, init ? in.exe[k] : ""});
  }
  for (int i = 0; i < c.ntg; i++) {
    std::string s = "target.g" + std::to_string(i);
    bool init = r.chance(0.5);
    ArgCase::Init in;
    if (init) { in.on = true; in.exe[0] = word(r); in.exe[1] = word(r); }
    c.init.push_back(in);
    o.push_back({s, "compile_command", 0, init ? in.exe[0] : ""});
    o.push_back({s, "link_command", 0, init ? in.exe[1] : ""});
  }
  if (c.extra) { o.push_back({"", "extra", 0, "unset"}); o.push_back({"", "data", 0, "unset"}); }
  int nf = r.chance(0.1) ? r.range(4, 10) : (int)r.below(4);
  double pc = r.chance(0.3) ? 0.8 : 0.2, pf = r.chance(0.3) ? 0.7 : 0.3;
  std::vector<std::map<std::string, std::string>> file((size_t)nf);
  std::map<std::string, std::vector<std::string>> cli;
  auto value = [&](const Opt &x) -> std::string {
    if (x.kind == 1) return r.chance(0.5) ? "1" : "0";
    if (x.kind == 2) return lv[r.below(5)];
    if (x.kind == 3) return ids[r.below(6)];
    if (x.kind == 4) return (r.chance(0.5) ? "/w/p/" : "sub/") + std::string(1, (char)('a' + r.below(26))) + (r.chance(0.2) ? " dir" : "");
    return word(r);
  };
  int bad = r.chance(0.2) ? r.range(1, 5) : 0;
  for (auto &x : o) {
    std::string v = x.dflt;
    bool need = x.kind == 4, drop = bad == 1 && x.name == "root_dir";
    bool set = false;
    for (int k = 0; k < nf; k++) if (!drop && r.chance(pf)) {
      v = value(x); set = true;
      file[(size_t)k][x.sect] += x.name + " = " + (x.kind == 1 ? v == "1" ? "true" : "false" : "\"" + v + "\"") + "\n";
    }
    if (!drop && (r.chance(pc) || (need && !set))) {
      v = x.kind == 1 ? "1" : value(x); set = true;
      cli[x.sect].push_back("--" + x.name);
      if (x.kind != 1) cli[x.sect].push_back(v);
    }
    c.expect[(x.sect.empty() ? "" : x.sect + ".") + x.name] = v;
  }
  c.argv = {"build"};
  if (nf) {
    c.argv.push_back("--config");
    for (int k = 0; k < nf; k++) {
      std::string p = "/w/c" + std::to_string(k) + ".toml", t;
      for (auto &[s, b] : file[(size_t)k]) t += (s.empty() ? "" : "\n[" + s + "]\n") + b;
      c.files.push_back({p, t});
      c.argv.push_back(p);
    }
  }
  if (bad == 2) { c.argv.push_back("--config"); c.argv.push_back("/w/none.toml"); if (nf) bad = 0, c.argv.resize(c.argv.size() - 2); }
  auto &root = cli[""];
  if (bad == 3) { root.push_back("--loglevel"); root.push_back("loud"); bool twice = false; for (size_t i = 0; i + 2 < root.size(); i++) if (root[i] == "--loglevel") twice = true; (void)twice; }
  if (bad == 4) { root.push_back("--no_such_option"); root.push_back("1"); }
  if (!root.empty()) for (auto &x : root) c.argv.push_back(x);
  // sub commands; those of toolchains and targets follow their group
  for (const char *g : {"toolchain", "target"}) {
    bool first = true;
    int n = g[1] == 'o' ? c.ntc : c.ntg;
    for (int i = 0; i < n; i++) {
      std::string nm = (g[1] == 'o' ? "t" : "g") + std::to_string(i);
      auto it = cli.find(std::string(g) + "." + nm);
      if (it == cli.end()) continue;
      if (first) c.argv.push_back(g);
      first = false;
      c.argv.push_back(nm);
      for (auto &x : it->second) c.argv.push_back(x);
      if (bad == 5 && g[1] == 'o' ) { c.argv.push_back("--id"); c.argv.push_back("no_such_id"); bad = 6; }
    }
  }
  c.must_fail = bad == 1 || bad == 2 || bad == 3 || bad == 4 || bad == 6;
  return c;
}
