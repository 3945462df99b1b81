#include "bx.h"
#include "rt.h"
#include "tools.h"
#include <algorithm>
#include <unistd.h>

namespace bx {
using std::string;
using std::vector;
const char *const kHomes[2] = {"/w/bx/home", "/w/bx/my home"};

static const char *const kSrcDirs[] = {"lib/env/src", "schema/src", "lib/toolchain/src/api", "lib/toolchain/src/common", "lib/toolchain/src/toolchain", "lib/target/src/common",
  "lib/target/src/custom_generator", "lib/target/src/generator", "lib/target/src/api", "lib/target/src/target_info", "lib/target/src/target", "lib/target/src/target/friend",
  "lib/args/src", "toolchains/src", "plugins/src"};
static const char *const kHdrDirs[] = {"buildcc/lib/env/include/env", "buildcc/schema/include/schema", "buildcc/schema/include/schema/interface", "buildcc/lib/toolchain/include/toolchain",
  "buildcc/lib/toolchain/include/toolchain/api", "buildcc/lib/toolchain/include/toolchain/common", "buildcc/lib/target/include/target", "buildcc/lib/target/include/target/api",
  "buildcc/lib/target/include/target/common", "buildcc/lib/target/include/target/friend", "buildcc/lib/target/include/target/interface", "buildcc/lib/args/include/args",
  "buildcc/toolchains/include/toolchains", "buildcc/targets/include/targets", "buildcc/plugins/include/plugins",
  "third_party/json/include/nlohmann", "third_party/json/include/nlohmann/thirdparty/hedley", "third_party/json/include/nlohmann/detail", "third_party/json/include/nlohmann/detail/conversions",
  "third_party/json/include/nlohmann/detail/input", "third_party/json/include/nlohmann/detail/iterators", "third_party/json/include/nlohmann/detail/meta",
  "third_party/json/include/nlohmann/detail/meta/call_std", "third_party/json/include/nlohmann/detail/output", "third_party/CLI11/include/CLI", "third_party/fmt/include/fmt",
  "third_party/spdlog/include/spdlog", "third_party/spdlog/include/spdlog/cfg", "third_party/spdlog/include/spdlog/details", "third_party/spdlog/include/spdlog/fmt",
  "third_party/spdlog/include/spdlog/sinks", "third_party/taskflow/taskflow", "third_party/taskflow/taskflow/algorithm", "third_party/taskflow/taskflow/core",
  "third_party/taskflow/taskflow/cuda", "third_party/taskflow/taskflow/cuda/algorithm", "third_party/taskflow/taskflow/dsl", "third_party/taskflow/taskflow/sycl",
  "third_party/taskflow/taskflow/sycl/algorithm", "third_party/taskflow/taskflow/utility"};

// files of the home: path and what it includes
static vector<std::pair<string, vector<string>>> home_files(const Case &c, uint64_t base) {
  sim::Rng r(base ^ 0xb0e);
  vector<std::pair<string, vector<string>>> v;
  string b = c.home + "/buildcc/";
  v.push_back({b + "buildcc/buildcc.h", {"env/env.h"}});
  v.push_back({b + "buildcc/lib/env/include/env/env.h", {}});
  v.push_back({b + "third_party/fmt/include/fmt/format.h", {}});
  v.push_back({b + "third_party/json/include/nlohmann/json.hpp", {}});
  v.push_back({b + "third_party/taskflow/taskflow/taskflow.hpp", {}});
  v.push_back({b + "third_party/CLI11/include/CLI/CLI.hpp", {}});
  v.push_back({b + "third_party/spdlog/include/spdlog/spdlog.h", {}});
  v.push_back({b + "buildcc/schema/include/schema/path.h", {}});
  v.push_back({b + "buildcc/lib/toolchain/include/toolchain/toolchain.h", {"schema/path.h"}});
  v.push_back({b + "buildcc/lib/target/include/target/target.h", {}});
  v.push_back({b + "buildcc/lib/args/include/args/args.h", {"CLI/CLI.hpp"}});
  v.push_back({b + "buildcc/toolchains/include/toolchains/toolchain_gcc.h", {}});
  v.push_back({b + "buildcc/targets/include/targets/target_gcc.h", {}});
  v.push_back({b + "buildcc/plugins/include/plugins/buildcc_find.h", {}});
  v.push_back({b + "third_party/tiny-process-library/process.hpp", {}});
  v.push_back({b + "third_party/tiny-process-library/process.cpp", {"process.hpp"}});
  v.push_back({b + "third_party/tiny-process-library/process_unix.cpp", {"process.hpp"}});
  v.push_back({b + "third_party/tiny-process-library/process_win.cpp", {"process.hpp"}});
  static const char *inc[] = {"buildcc.h", "env/env.h", "fmt/format.h", "nlohmann/json.hpp", "taskflow/taskflow.hpp", "process.hpp",
    "CLI/CLI.hpp", "spdlog/spdlog.h", "schema/path.h", "toolchain/toolchain.h", "target/target.h", "args/args.h", "toolchains/toolchain_gcc.h", "targets/target_gcc.h", "plugins/buildcc_find.h"};
  bool any = false;
  for (size_t i = 0; i < sizeof kSrcDirs / sizeof *kSrcDirs; i++)
    if (r.chance(0.2) || (!any && i + 1 == sizeof kSrcDirs / sizeof *kSrcDirs)) { any = true; v.push_back({b + "buildcc/" + kSrcDirs[i] + "/s" + std::to_string(i) + ".cpp", {inc[r.below(sizeof inc / sizeof *inc)]}}); }
  return v;
}
vector<string> home_sources(const Case &c, bool tpl) {
  vector<string> v;
  string b = c.home + "/buildcc/";
  if (tpl) return {b + "third_party/tiny-process-library/process.cpp", b + "third_party/tiny-process-library/process_unix.cpp"};
  for (auto d : kSrcDirs)
    for (size_t i = 0; i < sizeof kSrcDirs / sizeof *kSrcDirs; i++) { string p = b + "buildcc/" + d + "/s" + std::to_string(i) + ".cpp"; if (sim::file_exists(p)) v.push_back(p); }
  return v;
}
string Case::out() const { static const char *e[] = {"", ".a", ".so"}; return build + "/" + tc + "/" + name + "/" + name + e[type]; }

static vector<std::pair<string, vector<string>>> user_files(const Case &c) {
  vector<std::pair<string, vector<string>>> v;
  for (string d : {string("/w/bx/ws"), string("/w/bx/ws/sub"), string("/w/bx/ws/a b")}) {
    v.push_back({d + "/a.cpp", {"h.h"}}); v.push_back({d + "/b.cpp", {"i.h"}}); v.push_back({d + "/c.c", {}}); v.push_back({d + "/d.s", {}});
    v.push_back({d + "/h.h", {}}); v.push_back({d + "/inc/i.h", {}}); v.push_back({d + "/ext/libfoo.a", {}}); v.push_back({d + "/ext/libbar.a", {}});
  }
  for (auto &l : c.libs) { string d = c.home + "/libs/" + l; v.push_back({d + "/" + l + ".cpp", {l + ".h"}}); v.push_back({d + "/" + l + ".h", {}}); v.push_back({d + "/x/more.cpp", {}}); }
  return v;
}

Case make(uint64_t base, uint64_t step) {
  sim::Rng r(base ^ 0xbe), s(step ^ 0x57e9);
  Case c;
  const bool vary = s.chance(0.4);
  auto odd = [&](double p) { return vary && s.chance(p); };
  c.home = kHomes[r.chance(0.25)];
  c.ws = "/w/bx/ws";
  string rel = r.chance(0.4) ? "" : r.chance(0.7) ? "sub" : "a b";
  c.root = rel.empty() ? c.ws : c.ws + "/" + rel;
  c.build = c.ws + (r.chance(0.2) ? "/_b dir" : "/_build");
  c.script = r.chance(0.6);
  c.type = c.script ? 0 : (int)r.below(3);
  c.tc = r.chance(0.3) ? "host_gcc" : "gcc";
  static const char *names[] = {"app", "prog", "my app"};
  c.name = names[r.below(3)];
  if (odd(0.15) && !c.script) c.type = (int)s.below(3);
  if (odd(0.1)) c.clean = true;
  for (const char *x : {"a.cpp", "b.cpp", "c.c", "d.s"}) if (r.chance(0.6) || (*x == 'd' && c.srcs.empty())) c.srcs.push_back(x);
  if (odd(0.3)) { const char *x[] = {"a.cpp", "b.cpp", "c.c", "d.s"}; string n = x[s.below(4)]; auto it = std::find(c.srcs.begin(), c.srcs.end(), n); if (it == c.srcs.end()) c.srcs.push_back(n); else if (c.srcs.size() > 1) c.srcs.erase(it); }
  c.incs = {"inc"};
  if (r.chance(0.3)) c.incs.push_back("");
  if (r.chance(0.5)) { c.libdirs = {"ext"}; c.ext = {"-lfoo"}; if (r.chance(0.5) != odd(0.3)) c.ext.push_back("-lbar"); }
  for (int k = 0; k < 6; k++) {
    static const char *n[] = {"-DP", "-O", "-Wa", "-fc", "-fx", "-Wl"};
    for (int q = 0; q < 2; q++) if (r.chance(0.35) != odd(0.15)) c.flags[k].push_back(n[k] + std::to_string(q));
  }
  for (const char *l : {"alpha", "beta", "gamma"}) if (r.chance(0.5)) c.libs.push_back(l);
  if (odd(0.15)) { c.libs.push_back("delta"); }
  if (c.script) {
    for (auto &l : c.libs) {
      if (l == "delta") continue;
      if (r.chance(0.5) != odd(0.2)) { c.libfiles.push_back({l, l + ".cpp"}); c.libfiles.push_back({l, l + ".h"}); }
      if (r.chance(0.3)) c.libfiles.push_back({l, "x/more.cpp"});
    }
    int n = (int)r.below(3) + odd(0.3);
    static const char *cf[] = {"build.toml", "conf/tool chain.toml", "/w/bx/ws/x.toml"};
    for (int i = 0; i < n; i++) c.configs.push_back(cf[i]);
  }
  if (odd(0.15)) c.home_bad = s.range(1, 5);
  // the settings, in files and on the command line
  bool infile = r.chance(0.5), two = r.chance(0.5);
  string t1, t2;
  vector<string> av = {"buildexe"};
  static const char *types[] = {"executable", "staticLibrary", "dynamicLibrary"}, *lv[] = {"trace", "debug", "info", "warning", "critical"};
  static const char *fn[] = {"preprocessor_flags", "common_compile_flags", "asm_compile_flags", "c_compile_flags", "cpp_compile_flags", "link_flags"};
  auto list = [](const vector<string> &v) { string o; for (auto &x : v) o += (o.empty() ? "\"" : ", \"") + x + "\""; return "[" + o + "]"; };
  auto one = [&](const string &k, const string &v) { if (infile) t1 += k + " = \"" + v + "\"\n"; else { av.push_back("--" + k); av.push_back(v); } };
  auto many = [&](const string &k, const vector<string> &v) { if (v.empty()) return; if (infile) t1 += k + " = " + list(v) + "\n"; else for (auto &x : v) av.push_back("--" + k + "=" + x); };
  one("root_dir", c.ws); one("build_dir", c.build); one("loglevel", lv[r.below(5)]);
  if (infile) t1 += string("clean = ") + (c.clean ? "true" : "false") + "\n"; else if (c.clean) av.push_back("--clean");
  one("mode", c.script ? "script" : "immediate"); one("name", c.name); one("type", types[c.type]); one("relative_to_root", rel);
  many("srcs", c.srcs);
  if (infile) many("includes", c.incs); else for (auto &x : c.incs) { av.push_back("--includes"); av.push_back(x); }
  many("lib_dirs", c.libdirs); many("external_libs", c.ext);
  for (int k = 0; k < 6; k++) many(fn[k], c.flags[k]);
  vector<std::pair<string, string>> tc = {{"id", "gcc"}, {"name", c.tc}, {"asm_compiler", "as"}, {"c_compiler", "gcc"}, {"cpp_compiler", "g++"}, {"archiver", "ar"}, {"linker", "ld"}};
  std::map<string, vector<string>> lf;
  for (auto &x : c.libfiles) lf[x.first].push_back(x.second);
  if (infile) {
    string &h = two ? t2 : t1;
    h += "\n[toolchain.host]\n";
    for (auto &x : tc) h += x.first + " = \"" + x.second + "\"\n";
    if (!c.configs.empty()) t1 += "\n[script]\nconfigs = " + list(c.configs) + "\n";
    if (!lf.empty()) { t1 += "\n[libs]\n"; for (auto &x : lf) t1 += x.first + " = " + list(x.second) + "\n"; }
    c.conf["/w/bx/build.toml"] = t1;
    av.push_back("--config"); av.push_back("/w/bx/build.toml");
    if (two) { c.conf["/w/bx/host.toml"] = t2; av.push_back("--config"); av.push_back("/w/bx/host.toml"); }
  } else {
    av.push_back("toolchain"); av.push_back("host");
    for (auto &x : tc) { av.push_back("--" + x.first); av.push_back(x.second); }
    if (!c.configs.empty()) { av.push_back("script"); for (auto &x : c.configs) { av.push_back("--configs"); av.push_back(x); } }
    if (!lf.empty()) { av.push_back("libs"); for (auto &x : lf) for (auto &y : x.second) { av.push_back("--" + x.first); av.push_back(y); } }
  }
  c.argv = av;
  return c;
}

bool broken(const Case &, uint64_t step, const string &path) { sim::Rng r(sim::fnv(path) ^ step); return r.chance(0.02); }

bool lay_out(const Case &c, uint64_t base, uint64_t step, ops::Files &f, string &what) {
  bool changed = false;
  for (auto d : {c.home + "/buildcc", c.home + "/libs", c.home + "/extensions", c.ws}) sim::make_dirs(d);
  sim::make_dirs("/w/bx/tc");
  for (const char *t : {"as", "gcc", "g++", "ar", "ld"}) if (string x = string("/w/bx/tc/") + t; !sim::file_exists(x)) sim::write_file(x, string("TOOL ") + t + " bx\nversion 13.3.0\nmachine x86_64-linux-gnu\n", 1);
  string b = c.home + "/buildcc/";
  for (auto d : kSrcDirs) sim::make_dirs(b + "buildcc/" + d);
  for (auto d : kHdrDirs) sim::make_dirs(b + d);
  for (int k = 3; k < 6; k++) { int i = 3; for (string d : {"buildcc", "libs", "extensions"}) if (i++ != k) sim::make_dirs("/w/bx/home" + std::to_string(k) + "/" + d); }
  sim::Rng s(step ^ 0xed17);
  double p = s.chance(0.3) ? 0 : s.chance(0.5) ? 0.05 : 0.3;
  auto files = user_files(c);
  for (auto &x : home_files(c, base)) files.push_back(x);
  for (auto &[path, inc] : files) {
    string now, want;
    bool there = sim::read_file(path, now);
    bool edit = s.chance(p), bad = edit && broken(c, step, path);
    // what a target cannot declare may change without a rebuild
    const bool lib = path.size() > 2 && path.compare(path.size() - 2, 2, ".a") == 0, root_header = tools::base(path) == "h.h";
    if (lib || root_header) bad = false;
    if (there && (lib || root_header)) edit = false;
    auto text = [&](const string &v) { string t = "// " + v + "\n"; for (auto &i : inc) t += "#include \"" + i + "\"\n"; return t + "int x;\n"; };
    if (edit) want = text(std::to_string(step)) + (bad ? "#error\n" : "");
    else if (!there) want = text("0");
    else if (now.find("#error") != string::npos) want = text("repaired");
    else continue;
    if (there && now == want) continue;
    sim::make_dirs(tools::dir(path));
    sim::write_file(path, want, f.fresh());
    what += "    " + path + (bad ? " broken\n" : there ? " edited\n" : " created\n");
    changed = true;
  }
  for (auto &[path, t] : c.conf) { string now; if (!sim::read_file(path, now) || now != t) { sim::write_file(path, t, f.fresh()); changed = true; } }
  return changed;
}
}  // namespace bx
