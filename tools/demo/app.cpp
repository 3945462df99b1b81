// A build script whose project is described by a text file, one declaration per line:
//   toolchain NAME BINDIR
//   target exe|static|dynamic NAME [TOOLCHAIN]     starts a target; the lines below belong to it
//     src|header|pch|inc|libdir|cdep|ldep PATH     (absolute)
//     lib TARGET | ext LIB
//     flag pre|common|pchc|pcho|asm|c|cpp|link FLAG
//   custom NAME                                    starts a custom generator
//     id ID in=A,B out=C,D [blob=TEXT] cmd=SHELL   ($OUT,$IN,$BLOB are set; cmd is the rest of the line; exit 9: throw int)
//   file NAME                                      starts a file generator: in PATH, out PATH, cmd SHELL
//   template NAME                                  starts a template generator: tpl IN OUT, pattern K V
//   dep A B | (OUTTYPE 5, 6: user redirect of one stream only) test TARGET OUTTYPE [CWD] | ccdb | post FILE
// usage: app PROJECT ROOT BUILD
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include "args/args.h"
#include "args/register.h"
#include "plugins/clang_compile_commands.h"
#include "target/template_generator.h"
#include "targets/target_gcc.h"
#include "toolchains/toolchain_gcc.h"
using namespace buildcc;
using V = std::vector<std::string>;
static V split(const std::string &s, char c) { V v; std::stringstream ss(s); std::string x; while (std::getline(ss, x, c)) if (!x.empty()) v.push_back(x); return v; }
struct Block { std::string kind, name, arg; std::vector<V> lines; V raw; };

int main(int argc, char **argv) {
  if (argc < 4) return 99;
  std::vector<Block> bl;
  std::vector<V> top;
  std::ifstream f(argv[1]);
  std::string line;
  while (std::getline(f, line)) {
    V w = split(line, ' ');
    if (w.empty() || w[0][0] == '#') continue;
    if (w[0] == "target") bl.push_back({w[1], w[2], w.size() > 3 ? w[3] : "t", {}, {}});
    else if (w[0] == "custom" || w[0] == "file" || w[0] == "template") bl.push_back({w[0], w[1], "", {}, {}});
    else if (w[0] == "toolchain" || w[0] == "dep" || w[0] == "test" || w[0] == "ccdb" || w[0] == "post") top.push_back(w);
    else { bl.back().lines.push_back(w); bl.back().raw.push_back(line); }
  }
  std::map<std::string, std::unique_ptr<ArgToolchain>> at;
  std::map<std::string, std::unique_ptr<Toolchain_gcc>> tc;
  V av = {"app", "--root_dir", argv[2], "--build_dir", argv[3], "--loglevel", getenv("LOGLEVEL") ? getenv("LOGLEVEL") : "info", "toolchain"};
  auto &args = Args::Init();
  for (auto &t : top) if (t[0] == "toolchain") {
    at[t[1]] = std::make_unique<ArgToolchain>();
    args.AddToolchain(t[1], "toolchain", *at[t[1]]);
    for (auto x : V{t[1], "--build", "--test"}) av.push_back(x);
  }
  std::vector<const char *> cav;
  for (auto &a : av) cav.push_back(a.c_str());
  args.Parse((int)cav.size(), cav.data());
  Reg::Init();
  for (auto &t : top) if (t[0] == "toolchain") {
    std::string b = t[2] + "/";
    tc[t[1]] = std::make_unique<Toolchain_gcc>(t[1], ToolchainExecutables(b + "as", b + "gcc", b + "g++", b + "ar", b + "ld"));
  }
  std::map<std::string, std::unique_ptr<BaseTarget>> tg;
  std::map<std::string, std::unique_ptr<CustomGenerator>> gn;
  std::map<std::string, internal::BuilderInterface *> all;
  std::map<std::string, std::string> tgtc;
  std::vector<std::unique_ptr<std::string>> blobs;
  for (auto &b : bl) {
    if (b.kind == "exe") tg[b.name] = std::make_unique<ExecutableTarget_gcc>(b.name, *tc.at(b.arg), "");
    else if (b.kind == "static") tg[b.name] = std::make_unique<StaticTarget_gcc>(b.name, *tc.at(b.arg), "");
    else if (b.kind == "dynamic") tg[b.name] = std::make_unique<DynamicTarget_gcc>(b.name, *tc.at(b.arg), "");
    else if (b.kind == "custom") gn[b.name] = std::make_unique<CustomGenerator>(b.name, "");
    else if (b.kind == "file") gn[b.name] = std::make_unique<FileGenerator>(b.name, "");
    else gn[b.name] = std::make_unique<TemplateGenerator>(b.name, "");
    if (tg.count(b.name)) { all[b.name] = tg[b.name].get(); tgtc[b.name] = b.arg; } else all[b.name] = gn[b.name].get();
  }
  for (auto &b : bl) {
    if (b.kind == "custom") {
      Reg::Call().Build([&](CustomGenerator &g) {
        for (size_t k = 0; k < b.lines.size(); k++) {
          auto &l = b.lines[k];
          std::unordered_set<std::string> in, out;
          std::shared_ptr<CustomBlobHandler> h;
          std::string blob, cmd = b.raw[k].substr(b.raw[k].find("cmd=") + 4);
          for (auto &x : l) {
            if (x.rfind("in=", 0) == 0) for (auto &p : split(x.substr(3), ',')) in.insert(p);
            if (x.rfind("out=", 0) == 0) for (auto &p : split(x.substr(4), ',')) out.insert(p);
            if (x.rfind("blob=", 0) == 0) { blob = x.substr(5); blobs.push_back(std::make_unique<std::string>(blob)); h = std::make_shared<TypedCustomBlobHandler<std::string>>(*blobs.back()); }
            if (x.rfind("cmd=", 0) == 0) break;
          }
          g.AddIdInfo(l[1], in, out, [blob, cmd](const CustomGeneratorContext &ctx) {
            std::string c = "IN='", o = "OUT='";
            for (auto &i : ctx.inputs) c += (c.back() == 0x27 ? "" : " ") + i;
            for (auto &i : ctx.outputs) o += (o.back() == 0x27 ? "" : " ") + i;
            int rc = system((c + "' " + o + "' BLOB='" + blob + "'; " + cmd).c_str());
            if (WIFEXITED(rc) && WEXITSTATUS(rc) == 9) throw 9;
            return rc == 0;
          }, h);
        }
        g.Build();
      }, *gn.at(b.name));
    } else if (b.kind == "file") {
      Reg::Call().Build([&](FileGenerator &g) {
        for (size_t k = 0; k < b.lines.size(); k++) {
          auto &l = b.lines[k];
          if (l[0] == "in") g.AddInput(l[1]); else if (l[0] == "out") g.AddOutput(l[1]);
          else g.AddCommand(b.raw[k].substr(b.raw[k].find("cmd ") + 4));
        }
        g.Build();
      }, *static_cast<FileGenerator *>(gn.at(b.name).get()));
    } else if (b.kind == "template") {
      Reg::Call().Build([&](TemplateGenerator &g) {
        for (auto &l : b.lines) if (l[0] == "pattern") g.AddPattern(l[1], l[2]);
        for (auto &l : b.lines) if (l[0] == "tpl") g.AddTemplate(l[1], l[2]);
        g.Build();
      }, *static_cast<TemplateGenerator *>(gn.at(b.name).get()));
    } else {
      Reg::Toolchain(at.at(b.arg)->state).Build([&](BaseTarget &t) {
        for (auto &l : b.lines) {
          if (l[0] == "src") t.AddSourceAbsolute(l[1]);
          else if (l[0] == "header") t.AddHeaderAbsolute(l[1]);
          else if (l[0] == "pch") t.AddPchAbsolute(l[1]);
          else if (l[0] == "inc") t.AddIncludeDirAbsolute(l[1]);
          else if (l[0] == "libdir") t.AddLibDirAbsolute(l[1]);
          else if (l[0] == "cdep") t.AddCompileDependencyAbsolute(l[1]);
          else if (l[0] == "ldep") t.AddLinkDependencyAbsolute(l[1]);
          else if (l[0] == "lib") t.AddLibDep(*tg.at(l[1]));
          else if (l[0] == "ext") t.AddLibDep(l[1]);
          else if (l[0] == "flag") {
            if (l[1] == "pre") t.AddPreprocessorFlag(l[2]);
            if (l[1] == "common") t.AddCommonCompileFlag(l[2]);
            if (l[1] == "pchc") t.AddPchCompileFlag(l[2]);
            if (l[1] == "pcho") t.AddPchObjectFlag(l[2]);
            if (l[1] == "asm") t.AddAsmCompileFlag(l[2]);
            if (l[1] == "c") t.AddCCompileFlag(l[2]);
            if (l[1] == "cpp") t.AddCppCompileFlag(l[2]);
            if (l[1] == "link") t.AddLinkFlag(l[2]);
          }
        }
        t.Build();
      }, *tg.at(b.name));
    }
  }
  ArgToolchainState on(true, true);
  for (auto &t : top) if (t[0] == "dep") Reg::Toolchain(on).Dep(*all.at(t[1]), *all.at(t[2]));
  std::map<std::string, std::pair<V, V>> user;
  for (auto &t : top) if (t[0] == "test") {
    int ty = std::stoi(t[2]);
    env::optional<fs::path> cwd;
    if (t.size() > 3) cwd = fs::path(t[3]);
    Reg::Toolchain(at.at(tgtc.at(t[1]))->state).Test("{executable}", *tg.at(t[1]), TestConfig({}, cwd, TestOutput(static_cast<TestOutput::Type>(ty > 4 ? 4 : ty), ty == 4 || ty == 5 ? &user[t[1]].first : nullptr, ty == 4 || ty == 6 ? &user[t[1]].second : nullptr)));
  }
  Reg::Run([&]() {
    for (auto &t : top) {
      if (t[0] == "post") std::ofstream(t[1]) << "post\n";
      if (t[0] == "ccdb") { std::vector<const BaseTarget *> v; for (auto &b : bl) if (tg.count(b.name)) v.push_back(tg[b.name].get()); plugin::ClangCompileCommands(std::move(v)).Generate(); }
    }
  });
  for (auto &[n, u] : user) {
    for (auto &x : u.first) std::cout << "USEROUT " << n << " " << x << "\n";
    for (auto &x : u.second) std::cout << "USERERR " << n << " " << x << "\n";
  }
  return 0;
}
