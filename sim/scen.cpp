// Direct scenarios against single components of the library, compiled with
// instrumentation.  Each logs what the caller observed; the engine judges.
#include "script.h"
#include "rt.h"
#include "bx.h"

#include <memory>
#include <stdlib.h>
#include <thread>

#include "args/args.h"
#include "env/command.h"
#include "env/util.h"
#include "schema/custom_generator_serialization.h"
#include "schema/target_serialization.h"
#include "args/register.h"
#include "spdlog/spdlog.h"
#include "plugins/buildcc_find.h"
#include "toolchains/toolchain_custom.h"
#include "toolchains/toolchain_gcc.h"
#include "toolchains/toolchain_mingw.h"
#include "toolchains/toolchain_msvc.h"

using namespace buildcc;

std::string scen_tc_dir(uint64_t seed, int i) { return "/w/tc/d" + std::string((seed >> 20) % 5 == 0 ? " " : "") + std::to_string(i); }

int buildexe_main(int argc, char **argv);   // the main function of buildexe/buildexe.cpp

namespace {
// n caller threads run commands through Command::Execute
void commands(const Scen &s) {
  sim::Rng top(s.seed);
  int nth = top.range(1, 5);
  std::vector<std::thread> ts;
  for (int t = 0; t < nth; t++) {
    uint64_t seed = top.next();
    int base = 1000 * (t + 1);
    ts.emplace_back([seed, base, &s]() {
      sim::Rng r(seed);
      int n = 1 + (int)r.below((uint64_t)s.n);
      for (int i = 0; i < n; i++) {
        int id = base + i;
        int rc = 0;
        if (r.chance(0.4)) { static const int codes[] = {1, 2, 3, 127, 128, 255, 9, 256 - 1, 64, 42}; rc = codes[r.below(10)]; }
        std::string cmd = "/w/tc/t0/bin/echoer --id " + std::to_string(id) + " --rc " + std::to_string(rc);
        if (r.chance(0.8)) cmd += " --out o" + std::to_string(id) + "_ --outn " + std::to_string(r.chance(0.1) ? 1500 : r.below(6));
        if (r.chance(0.6)) cmd += " --err e" + std::to_string(id) + "_ --errn " + std::to_string(r.chance(0.1) ? 1500 : r.below(4));
        bool co = r.chance(0.7), ce = r.chance(0.6), cwd = r.chance(0.4);
        std::vector<std::string> o, e;
        env::optional<fs::path> wd;
        if (cwd) wd = fs::path("/w/p/d" + std::to_string(r.below(3)));
        std::string pre;
        if (co && r.chance(0.2)) { o.push_back("earlier\n"); pre = "earlier\n"; }
        bool ok = false, threw = false;
        try { ok = env::Command::Execute(cmd, wd, co ? &o : nullptr, ce ? &e : nullptr); } catch (...) { threw = true; }
        std::string os, es;
        for (auto &x : o) os += x;
        for (auto &x : e) es += x;
        if (os.compare(0, pre.size(), pre) == 0) os.erase(0, pre.size()); else os += "<lost earlier contents>";
        sim::logf("XR %d ok=%d threw=%d co=%d ce=%d oh=%s eh=%s cwd=%s", id, ok, threw, co, ce, sim::hex(sim::fnv(os)).c_str(), sim::hex(sim::fnv(es)).c_str(), wd ? wd->string().c_str() : "-");
      }
    });
  }
  for (auto &t : ts) t.join();
  sim::logf("DONE");
}

void file_ops(uint64_t seed, int sn, int th) {
  sim::Rng r(seed);
  int n = r.range(2, 4 + sn);
  std::vector<std::string> paths = {"/w/p/f0", "/w/p/f1.bin", "/w/p/dir/f2", "/w/p/nodir/f3", "/w/p/dir"};
  if (th) for (int i = 0; i < 3; i++) paths[(size_t)i] += "_" + std::to_string(th);
  for (int i = 0; i < n; i++) {
    std::string p = paths[r.below(r.chance(0.8) ? 3 : paths.size())];
    bool bin = r.chance(0.5);
    if (r.chance(0.5)) {
      size_t len = r.chance(0.1) ? 0 : r.chance(0.3) ? 8000 + r.below(60000) : r.below(400);
      std::string d;
      bool derived = r.chance(0.35) && sim::read_file(p, d) && !d.empty();   // nearly what is there already
      if (derived) {
        switch (r.below(4)) {
        case 0: break;
        case 1: { size_t k = r.below(d.size()); d[k] = d[k] == 'q' ? 'r' : 'q'; break; }
        case 2: d.resize(r.below(d.size())); break;
        default: d += "tail\n";
        }
      }
      for (size_t k = 0; !derived && k < len; k++) d += r.chance(0.1) ? '\n' : r.chance(0.05) ? '\r' : bin && r.chance(0.05) ? '\0' : (char)('a' + r.below(26));
      bool ok = false, threw = false;
      try { ok = r.chance(0.5) ? env::save_file(p.c_str(), d, bin) : env::save_file(p.c_str(), d.data(), d.size(), bin); } catch (...) { threw = true; }
      std::string now;
      bool there = sim::read_file(p, now);
      sim::logf("SV %s ok=%d threw=%d same=%d want=%zu have=%zd", p.c_str(), ok, threw, there && now == d, d.size(), there ? (ssize_t)now.size() : (ssize_t)-1);
    } else {
      std::string b = r.chance(0.3) ? "stale" : "";
      bool ok = false, threw = false;
      try { ok = env::load_file(p.c_str(), bin, &b); } catch (...) { threw = true; }
      std::string now;
      bool there = sim::read_file(p, now);
      sim::logf("LD %s ok=%d threw=%d same=%d there=%d want=%zd have=%zu", p.c_str(), ok, threw, there && now == b, there, there ? (ssize_t)now.size() : (ssize_t)-1, b.size());
    }
  }
}

// one caller, or several that work on different files
void files(const Scen &s) {
  sim::Rng top(s.seed ^ 0x9e37);
  int nth = top.chance(0.3) ? top.range(2, 4) : 0;
  if (!nth) file_ops(s.seed, s.n, 0);
  std::vector<std::thread> ts;
  for (int t = 0; t < nth; t++) { uint64_t seed = top.next(); ts.emplace_back([seed, t, &s]() { file_ops(seed, s.n, t + 1); }); }
  for (auto &t : ts) t.join();
  sim::logf("DONE");
}

struct ExtraData : ArgCustom {
  std::string v = "unset";
  void Add(CLI::App &app) override { app.add_option("--data", v); }
};

void arguments(const Scen &s) {
  ArgCase c = arg_case(s.seed);
  std::vector<ArgToolchain> tc((size_t)c.ntc);
  std::vector<ArgTarget> tg((size_t)c.ntg);
  std::string extra = "unset";
  ExtraData data;
  auto &a = Args::Init();
  static const ToolchainId ids[] = {ToolchainId::Gcc, ToolchainId::Msvc, ToolchainId::MinGW, ToolchainId::Clang, ToolchainId::Custom, ToolchainId::Undefined};
  static const char *idn[] = {"gcc", "msvc", "mingw", "clang", "custom", "undefined"};
  for (int i = 0; i < c.ntc; i++) {
    auto &in = c.init[(size_t)i];
    if (in.on) a.AddToolchain("t" + std::to_string(i), "toolchain", tc[(size_t)i], ArgToolchain(ids[in.id], in.name, ToolchainExecutables(in.exe[0], in.exe[1], in.exe[2], in.exe[3], in.exe[4]), ToolchainConfig()));
    else a.AddToolchain("t" + std::to_string(i), "toolchain", tc[(size_t)i]);
  }
  for (int i = 0; i < c.ntg; i++) {
    auto &in = c.init[(size_t)(c.ntc + i)];
    ArgTarget t;
    t.compile_command = in.exe[0]; t.link_command = in.exe[1];
    if (in.on) a.AddTarget("g" + std::to_string(i), "target", tg[(size_t)i], t); else a.AddTarget("g" + std::to_string(i), "target", tg[(size_t)i]);
  }
  if (c.extra) { a.AddCustomCallback([&](CLI::App &app) { app.add_option("--extra", extra); }); a.AddCustomData(data); }
  std::vector<const char *> av;
  for (auto &x : c.argv) av.push_back(x.c_str());
  a.Parse((int)av.size(), av.data());
  auto put = [](const std::string &k, const std::string &v) { sim::logf("AV %s=%s", k.c_str(), v.c_str()); };
  auto id = [&](ToolchainId i) { for (int k = 0; k < 6; k++) if (ids[k] == i) return std::string(idn[k]); return std::string("?"); };
  static const char *lv[] = {"trace", "debug", "info", "warning", "critical"};
  static const env::LogLevel ll[] = {env::LogLevel::Trace, env::LogLevel::Debug, env::LogLevel::Info, env::LogLevel::Warning, env::LogLevel::Critical};
  std::string l = "?";
  for (int k = 0; k < 5; k++) if (ll[k] == Args::GetLogLevel()) l = lv[k];
  put("clean", Args::Clean() ? "1" : "0");
  put("loglevel", l);
  put("root_dir", Args::GetProjectRootDir().string());
  put("build_dir", Args::GetProjectBuildDir().string());
  for (int i = 0; i < c.ntc; i++) {
    std::string p = "toolchain.t" + std::to_string(i) + ".";
    auto &t = tc[(size_t)i];
    put(p + "build", t.state.build ? "1" : "0"); put(p + "test", t.state.test ? "1" : "0");
    put(p + "id", id(t.id)); put(p + "name", t.name);
    put(p + "asm_compiler", t.executables.assembler); put(p + "c_compiler", t.executables.c_compiler); put(p + "cpp_compiler", t.executables.cpp_compiler);
    put(p + "archiver", t.executables.archiver); put(p + "linker", t.executables.linker);
  }
  for (int i = 0; i < c.ntg; i++) { std::string p = "target.g" + std::to_string(i) + "."; put(p + "compile_command", tg[(size_t)i].compile_command); put(p + "link_command", tg[(size_t)i].link_command); }
  if (c.extra) { put("extra", extra); put("data", data.v); }
  // what the settings turn into
  const std::string cwd = fs::current_path().string();
  Reg::Init();
  put("project.cwd", cwd);
  put("project.root", Project::GetRootDir().string());
  put("project.build", Project::GetBuildDir().string());
  l = "?";
  for (int k = 0; k < 5; k++) if (static_cast<spdlog::level::level_enum>(ll[k]) == spdlog::get_level()) l = lv[k];
  put("project.loglevel", l);
  for (int i = 0; i < c.ntc; i++) {
    int n = 0;
    Reg::Toolchain(tc[(size_t)i].state).Func([&n](int by) { n += by; }, 1);
    Reg::Call(tc[(size_t)i].state.build).Func([&n](int by) { n += by; }, 10);
    put("called.t" + std::to_string(i), std::to_string(n));
  }
  int n = 0;
  Reg::Call().Func([&n]() { n++; });
  put("called", std::to_string(n));
  sim::logf("DONE");
}

// What a schema holds, written out independently of its own conversions
struct Dump {
  std::string s;
  Dump &str(const std::string &x) { s += std::to_string(x.size()) + ":" + x; return *this; }
  Dump &num(long x) { s += "#" + std::to_string(x); return *this; }
  Dump &list(const std::vector<std::string> &v) { num((long)v.size()); for (auto &x : v) str(x); return *this; }
  Dump &infos(const internal::PathInfoList &l, bool sorted) {
    std::vector<std::pair<std::string, std::string>> v;
    for (auto &i : l.GetPathInfos()) v.push_back({i.path, i.hash});
    if (sorted) std::sort(v.begin(), v.end());
    num((long)v.size());
    for (auto &i : v) str(i.first).str(i.second);
    return *this;
  }
};
std::string dump(const internal::TargetSchema &t) {
  Dump d;
  d.str(t.name).num((long)t.type).infos(t.sources, true).infos(t.headers, false).infos(t.pchs, false).infos(t.libs, false).list(t.external_libs);
  d.list(t.include_dirs.GetPaths()).list(t.lib_dirs.GetPaths()).list(t.preprocessor_flags).list(t.common_compile_flags).list(t.pch_compile_flags).list(t.pch_object_flags);
  d.list(t.asm_compile_flags).list(t.c_compile_flags).list(t.cpp_compile_flags).list(t.link_flags).infos(t.compile_dependencies, false).infos(t.link_dependencies, false);
  d.num(t.pch_compiled).num(t.target_linked);
  return d.s;
}
std::string dump(const internal::CustomGeneratorSchema &t) {
  Dump d;
  d.str(t.name).num((long)t.internal_ids.size());
  std::vector<std::string> ids;
  for (auto &i : t.internal_ids) ids.push_back(i.first);
  std::sort(ids.begin(), ids.end());
  for (auto &i : ids) { auto &x = t.internal_ids.at(i); d.str(i).infos(x.inputs, false).list(x.outputs.GetPaths()).str(std::string(x.userblob.begin(), x.userblob.end())); }
  return d.s;
}
std::string text(sim::Rng &r) {
  static const char *piece[] = {"a", "-O2", " ", "\"", "\\", "\n", "\t", "\x01", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "{}", "/", "'", "-DX=\"y\"", ",", "null", "0", "\r\n", "\\u0041", "[", ":"};
  std::string o;
  size_t n = r.chance(0.1) ? 0 : r.chance(0.05) ? r.below(3000) : 1 + r.below(8);
  for (size_t i = 0; i < n; i++) { if (r.chance(0.03)) o += '\0'; else o += piece[r.below(23)]; }
  return o;
}
// a path that is already in normal form
std::string norm(sim::Rng &r) {
  static const char *dir[] = {"src", "a b", "\xc3\xa9t\xc3\xa9", "x.y", "q\"q", "-d", "{z}"};
  std::string o = r.chance(0.5) ? "/" : r.chance(0.2) ? "../" : "";
  for (uint64_t i = r.below(4); i; i--) o += std::string(dir[r.below(7)]) + "/";
  return o + "f" + std::to_string(r.below(50)) + (r.chance(0.5) ? ".cpp" : "");
}
std::vector<std::string> texts(sim::Rng &r) { std::vector<std::string> v; for (uint64_t n = r.chance(0.3) ? 0 : r.below(5); n; n--) v.push_back(text(r)); return v; }
internal::PathInfoList infos(sim::Rng &r) { internal::PathInfoList l; for (uint64_t n = r.chance(0.3) ? 0 : r.below(5); n; n--) l.Emplace(norm(r), r.chance(0.9) ? std::to_string(r.next()) : text(r)); return l; }
internal::PathList paths(sim::Rng &r) { internal::PathList l; for (uint64_t n = r.below(4); n; n--) l.Emplace(norm(r)); return l; }

void target_schema(uint64_t seed, int rounds, const std::string &file) {
  sim::Rng r(seed);
  std::vector<std::string> maybe;        // what the file may hold
  bool sure = false;
  for (int k = 0; k < rounds; k++) {
    internal::TargetSchema t;
    t.name = text(r);
    static const TargetType ty[] = {TargetType::Executable, TargetType::StaticLibrary, TargetType::DynamicLibrary, TargetType::Undefined};
    t.type = ty[r.below(4)];
    t.headers = infos(r); t.libs = infos(r); t.external_libs = texts(r); t.include_dirs = paths(r); t.lib_dirs = paths(r);
    t.preprocessor_flags = texts(r); t.common_compile_flags = texts(r); t.pch_compile_flags = texts(r); t.pch_object_flags = texts(r);
    t.asm_compile_flags = texts(r); t.c_compile_flags = texts(r); t.cpp_compile_flags = texts(r); t.link_flags = texts(r);
    t.compile_dependencies = infos(r); t.link_dependencies = infos(r); t.pchs = infos(r);
    bool pch = r.chance(0.4), linked = r.chance(0.5), early = r.chance(0.5);
    internal::TargetSerialization ser(file);
    if (early) ser.UpdateStore(t);
    if (pch) ser.UpdatePchCompiled(t); else t.pchs = internal::PathInfoList();
    t.pch_compiled = pch;
    // sources are recorded by the tasks that compiled them, at the same time
    int nth = (int)r.below(5);
    std::vector<std::vector<std::pair<std::string, std::string>>> src((size_t)nth);
    for (int i = 0; i < nth; i++) for (uint64_t n = 1 + r.below(4); n; n--) { auto p = norm(r); auto h = std::to_string(r.next()); src[(size_t)i].push_back({p, h}); t.sources.Emplace(p, h); }
    std::vector<std::thread> ts;
    for (int i = 0; i < nth; i++) ts.emplace_back([&ser, &src, i]() { for (auto &x : src[(size_t)i]) ser.AddSource(x.first, x.second); });
    for (auto &x : ts) x.join();
    if (linked) ser.UpdateTargetCompiled();
    t.target_linked = linked;
    if (!early || r.chance(0.3)) ser.UpdateStore(t);
    std::string want = dump(t);
    bool ok = false, threw = false;
    try { ok = ser.StoreToFile(); } catch (...) { threw = true; }
    sim::logf("SS target kept=%d ok=%d threw=%d", dump(ser.GetStore()) == want, ok, threw);
    if (ok) { maybe = {want}; sure = true; } else { maybe.push_back(want); sure = false; }
    for (uint64_t n = 1 + r.below(2); n; n--) {
      internal::TargetSerialization l(file);
      bool lo = false, lt = false;
      try { lo = l.LoadFromFile(); } catch (...) { lt = true; }
      sim::logf("SL target ok=%d threw=%d flag=%d sure=%d same=%d", lo, lt, l.IsLoaded(), sure, std::find(maybe.begin(), maybe.end(), dump(l.GetLoad())) != maybe.end());
    }
  }
}
void generator_schema(uint64_t seed, int rounds, const std::string &file) {
  sim::Rng r(seed);
  std::vector<std::string> maybe;
  bool sure = false;
  for (int k = 0; k < rounds; k++) {
    internal::CustomGeneratorSchema t;
    t.name = text(r);
    for (uint64_t n = r.below(5); n; n--) {
      internal::CustomGeneratorSchema::IdInfo i;
      i.inputs = infos(r); i.outputs = paths(r);
      for (uint64_t b = r.chance(0.4) ? 0 : r.below(40); b; b--) i.userblob.push_back((uint8_t)r.below(256));
      t.internal_ids[text(r)] = i;
    }
    internal::CustomGeneratorSerialization ser(file);
    ser.UpdateStore(t);
    std::string want = dump(t);
    bool ok = false, threw = false;
    try { ok = ser.StoreToFile(); } catch (...) { threw = true; }
    sim::logf("SS generator kept=%d ok=%d threw=%d", dump(ser.GetStore()) == want, ok, threw);
    if (ok) { maybe = {want}; sure = true; } else { maybe.push_back(want); sure = false; }
    internal::CustomGeneratorSerialization l(file);
    bool lo = false, lt = false;
    try { lo = l.LoadFromFile(); } catch (...) { lt = true; }
    sim::logf("SL generator ok=%d threw=%d flag=%d sure=%d same=%d", lo, lt, l.IsLoaded(), sure, std::find(maybe.begin(), maybe.end(), dump(l.GetLoad())) != maybe.end());
  }
}
void schemas(const Scen &s) {
  sim::Rng top(s.seed);
  int nth = top.range(1, 3), rounds = 1 + s.n / 3;
  std::vector<std::thread> ts;
  for (int t = 0; t < nth; t++) {
    uint64_t seed = top.next();
    bool tg = top.chance(0.6);
    ts.emplace_back([=]() { std::string f = "/w/p/dir/state" + std::to_string(t) + ".bin"; if (tg) target_schema(seed, rounds, f); else generator_schema(seed, rounds, f); });
  }
  for (auto &t : ts) t.join();
  sim::logf("DONE");
}

// worker threads that expand patterns of one shared command
void patterns(const Scen &s) {
  sim::Rng top(s.seed);
  env::Command cmd;
  static const char *keys[] = {"compiler", "flags", "input", "output", "include_dirs", "a", "b2", "link_flags"};
  auto val = [](sim::Rng &r) { std::string v = text(r); for (auto &c : v) if (!c) c = 'z'; if (r.chance(0.2)) v += "{a}"; return v; };
  std::map<std::string, std::string> dflt;
  for (int i = 0; i < 4; i++) if (top.chance(0.7)) dflt[keys[i]] = val(top);
  if (top.chance(0.5)) cmd.AddDefaultArguments(std::unordered_map<std::string, std::string>(dflt.begin(), dflt.end())); else for (auto &x : dflt) cmd.AddDefaultArgument(x.first, x.second);
  // values made of earlier ones, as a generator's patterns are
  if (top.chance(0.5)) {
    std::string want;
    std::thread([&]() {
      for (int i = 0; i < 4; i++) {
        std::string k = "p" + std::to_string(i), v = i ? "<" + k + "{p" + std::to_string(i - 1) + "}>" : val(top), got;
        bool threw = false;
        if (!i) { cmd.AddDefaultArgument(k, v); want = v; }
        else {
          want = "<" + k + want + ">";
          try { got = cmd.Construct(v); } catch (...) { threw = true; }
          sim::logf("CP bad=0 threw=%d same=%d chained", threw, got == want);
          cmd.AddDefaultArgument(k, got);
        }
        dflt[k] = want;
        threw = false; got.clear();
        std::string next = "p" + std::to_string(i + 1);
        try { got = cmd.Construct("{" + next + "}"); } catch (...) { threw = true; }
        sim::logf("CP bad=1 threw=%d same=0 not yet there", threw);
      }
    }).join();
  }
  int nth = top.range(1, 4);
  std::vector<std::thread> ts;
  for (int t = 0; t < nth; t++) {
    uint64_t seed = top.next();
    ts.emplace_back([&, seed]() {
      sim::Rng r(seed);
      for (int n = 1 + (int)r.below((uint64_t)s.n); n; n--) {
        std::unordered_map<const char *, std::string> args;
        std::map<std::string, std::string> all = dflt;
        for (int i = 4; i < 8; i++) if (r.chance(0.6)) { std::string v = val(r); args[keys[i]] = v; all[keys[i]] = v; }
        std::string pat, want;
        bool bad = false;
        for (uint64_t k = r.below(9); k; k--) {
          double q = r.unit();
          if (q < 0.3) { std::string x = text(r), y; for (char c : x) if (c && c != '{' && c != '}') y += c; pat += y; want += y; }
          else if (q < 0.4) { pat += "{{"; want += "{"; }
          else if (q < 0.5) { pat += "}}"; want += "}"; }
          else if (q < 0.96 && !all.empty()) { auto it = all.begin(); std::advance(it, (long)r.below(all.size())); pat += "{" + it->first + "}"; want += it->second; }
          else if (q < 0.98) { pat += r.chance(0.7) ? "{no_such_key}" : "{unclosed"; bad = true; }
        }
        std::string got;
        bool threw = false;
        try { got = cmd.Construct(pat, args); } catch (...) { threw = true; }
        sim::logf("CP bad=%d threw=%d same=%d pattern=%s", bad, threw, got == want, sim::hex(sim::fnv(pat)).c_str());
      }
      bool same = cmd.GetDefaultValues().size() == dflt.size();
      for (auto &x : dflt) try { same = same && cmd.GetDefaultValueByKey(x.first) == x.second; } catch (...) { same = false; }
      sim::logf("CP bad=0 threw=0 same=%d defaults", same);
    });
  }
  for (auto &t : ts) t.join();
  sim::logf("DONE");
}

void toolchain(const Scen &s) {
  sim::Rng r(s.seed);
  std::vector<fs::path> abs;
  std::vector<int> order;
  for (int i = 0; i < s.n; i++) order.push_back(i);
  for (int i = s.n - 1; i > 0; i--) std::swap(order[(size_t)i], order[r.below((uint64_t)i + 1)]);
  std::string envp[2], first, rest[2];
  for (int i : order) {
    std::string d = scen_tc_dir(s.seed, i);
    int k = r.chance(0.6) ? 0 : 1 + (int)r.below(2);
    auto put = [&](const std::string &x) {
      if (k == 0) abs.push_back(x); else envp[k - 1] += (envp[k - 1].empty() ? "" : r.chance(0.1) ? "::" : ":") + x;
    };
    if (r.chance(0.15)) put("/w/tc/none");
    if (r.chance(0.1)) put("/w/p/file");
    put(d);
    (k == 0 ? first : rest[k - 1]) += " " + std::to_string(i);
  }
  std::vector<std::string> ev;
  for (int k = 0; k < 2; k++) {
    if (envp[k].empty()) continue;
    std::string n = "SIM_TC_PATH" + std::to_string(k);
    setenv(n.c_str(), envp[k].c_str(), 1);
    ev.push_back(n);
  }
  auto e1 = [](const std::string &x) { std::string o; for (char c : x) o += c == '\n' ? '~' : c == ' ' ? '^' : c; return o; };
  sim::logf("TO%s%s%s", first.c_str(), rest[0].c_str(), rest[1].c_str());
  const TcCase cs = tc_case(s.seed);
  static const char *vsn[] = {"VSCMD_VER", "VSCMD_ARG_HOST_ARCH", "VSCMD_ARG_TGT_ARCH"};
  for (int k = 0; k < 3; k++) { if (cs.vson[k]) setenv(vsn[k], cs.vs[k].c_str(), 1); else unsetenv(vsn[k]); }
  std::unique_ptr<BaseToolchain> made;
  if (cs.kind == 0) made = std::make_unique<Toolchain_gcc>("t0");
  else if (cs.kind == 2) made = std::make_unique<Toolchain_mingw>("t0");
  else if (cs.kind == 3) made = std::make_unique<Toolchain_custom>(ToolchainId::Clang, "t0", ToolchainExecutables(cs.tools[0], cs.tools[1], cs.tools[2], cs.tools[3], cs.tools[4]));
  else made = std::make_unique<Toolchain_msvc>("t0");
  auto &tc = *made;
  if (r.chance(0.3)) {
    std::string l;
    for (auto &p : tc.Find(ToolchainFindConfig(ev, abs))) l += " " + e1(p.string());
    sim::logf("TF%s", l.c_str());
  }
  auto info = tc.Verify(ToolchainFindConfig(ev, abs));
  sim::logf("TV path=%s version=%s arch=%s", e1(info.path.string()).c_str(), e1(info.compiler_version).c_str(), e1(info.target_arch).c_str());
  auto &x = tc.GetToolchainExecutables();
  sim::logf("TX %s %s %s %s %s", e1(x.assembler).c_str(), e1(x.c_compiler).c_str(), e1(x.cpp_compiler).c_str(), e1(x.archiver).c_str(), e1(x.linker).c_str());
  sim::logf("DONE");
}

void buildexe(const Scen &s) {
  bx::Case c = bx::make((uint64_t)s.big, s.seed);
  setenv("PATH", "/w/tc/none:/w/bx/tc", 1);
  if (c.home_bad == 1) unsetenv("BUILDCC_HOME");
  else setenv("BUILDCC_HOME", c.home_bad == 2 ? "/w/bx/nowhere" : c.home_bad ? ("/w/bx/home" + std::to_string(c.home_bad)).c_str() : c.home.c_str(), 1);
  static std::vector<std::string> av = c.argv;
  static std::vector<char *> ap;
  for (auto &x : av) ap.push_back(&x[0]);
  ap.push_back(nullptr);
  int rc = buildexe_main((int)av.size(), ap.data());
  sim::logf("RETURNED %d", rc);
  exit(rc);
}

void search(const Scen &s) {
  FindCase c = find_case(s.seed);
  for (size_t i = 0; i < c.vars.size(); i++) {
    std::string v;
    for (size_t k = 0; k < c.vars[i].second.size(); k++) v += (k ? (s.seed + k) % 7 ? ":" : "::" : "") + c.vars[i].second[k];
    if (c.set[i]) setenv(c.vars[i].first.c_str(), v.c_str(), 1); else unsetenv(c.vars[i].first.c_str());
  }
  for (auto &one : c.searches) {
    bool ok = false, threw = false;
    plugin::BuildccFind f(one.regex, plugin::BuildccFind::Type::HostExecutable, {c.vars[0].first});
    for (size_t i = 1; i < c.vars.size(); i++) (s.seed + i) % 2 ? f.AddHostEnvVars({c.vars[i].first}) : f.AddHostEnvVar(c.vars[i].first);
    try { ok = f.Search(); } catch (...) { threw = true; }
    sim::logf("BF ok=%d threw=%d n=%zu", ok, threw, f.GetPathMatches().size());
    for (auto &p : f.GetPathMatches()) sim::logf("BM %s", p.string().c_str());
  }
  sim::logf("DONE");
}
} // namespace

void scen_run(const Scen &s) {
  if (s.kind == 1) commands(s);
  if (s.kind == 2) files(s);
  if (s.kind == 3) toolchain(s);
  if (s.kind == 4) arguments(s);
  if (s.kind == 5) schemas(s);
  if (s.kind == 6) patterns(s);
  if (s.kind == 7) search(s);
  if (s.kind == 8) buildexe(s);
}
