// Build script driven by a spec.  Compiled with instrumentation, like the
// library itself.
#include "script.h"
#include "rt.h"

#include <algorithm>
#include <memory>
#include <stdexcept>
#include <unordered_set>

#include "args/args.h"
#include "args/register.h"
#include "env/util.h"
#include "plugins/clang_compile_commands.h"
#include "target/template_generator.h"
#include "targets/target_gcc.h"
#include "targets/target_generic.h"
#include "targets/target_mingw.h"
#include "targets/target_msvc.h"
#include "env/storage.h"
#include "toolchains/toolchain_custom.h"
#include "toolchains/toolchain_gcc.h"
#include "toolchains/toolchain_generic.h"

using namespace buildcc;
using spec::Gen;
using spec::GenId;
using spec::Tgt;
using spec::World;

namespace {
struct UserOut { std::string tag; std::vector<std::string> o, e; bool on = false; };
std::vector<UserOut *> *g_user = nullptr;

std::string esc(const std::string &s) {
  std::string r;
  for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\"; else r += c; }
  return r;
}

std::string quote(const std::string &p) { return spec::kBuild.find(' ') == std::string::npos ? p : "\"" + p + "\""; }

template <class T> void add_flags(T &t, const std::vector<std::string> *f) {
  for (auto &x : f[spec::K_PRE]) t.AddPreprocessorFlag(x);
  for (auto &x : f[spec::K_COMMON]) t.AddCommonCompileFlag(x);
  for (auto &x : f[spec::K_PCHC]) t.AddPchCompileFlag(x);
  for (auto &x : f[spec::K_PCHO]) t.AddPchObjectFlag(x);
  for (auto &x : f[spec::K_ASM]) t.AddAsmCompileFlag(x);
  for (auto &x : f[spec::K_C]) t.AddCCompileFlag(x);
  for (auto &x : f[spec::K_CPP]) t.AddCppCompileFlag(x);
  for (auto &x : f[spec::K_LINK]) t.AddLinkFlag(x);
}

// one generator callback
bool custom_cb(const std::string &gname, const std::string &id, bool blob, const CustomGeneratorContext &ctx) {
  std::string key = gname + "/" + id;
  sim::event("callback");
  sim::logf("GS %s", key.c_str());
  sim::Plan::CbFault *f = nullptr;
  for (auto &c : sim::plan.cb)
    if (!f && key.find(c.match) != std::string::npos && (c.count < 0 || c.seen < c.count)) { c.seen++; f = &c; }
  auto bad = [&]() -> bool {
    sim::shm->fault[sim::FS_CB]++;
    sim::logf("GE %s fail", key.c_str());
    if (f->mode == 2) throw std::runtime_error("generator callback failed");
    if (f->mode == 3) throw 42;
    return false;
  };
  if (f && f->when == 0) return bad();
  std::vector<std::pair<std::string, std::string>> in;
  bool err = false, thr = false;
  for (auto &i : ctx.inputs) {
    std::string t;
    if (!env::load_file(i.c_str(), (i.size() & 1) != 0, &t)) { sim::logf("GE %s fail", key.c_str()); return false; }
    if (t.find("#error") != std::string::npos) err = true;
    if (t.find("#throw") != std::string::npos) thr = true;
    in.push_back({i, t});
  }
  if (err) {
    sim::logf("GE %s fail", key.c_str());
    if (thr) throw std::runtime_error("bad input");
    return false;
  }
  std::string tag = key;
  if (blob) tag += "=" + TypedCustomBlobHandler<std::string>::Deserialize(ctx.userblob);
  sim::event("callback-work");
  size_t k = 0;
  for (auto &o : ctx.outputs) {
    std::string txt = tools::gen_text(tag, o, in);
    if (f && f->when == 1 && k++ == 0) { (void)env::save_file(o.c_str(), txt.substr(0, txt.size() / 2), false); return bad(); }
    if (!env::save_file(o.c_str(), txt, false)) { sim::logf("GE %s fail", key.c_str()); return false; }
  }
  if (f) return bad();
  sim::event("callback-end");
  sim::logf("GE %s ok", key.c_str());
  return true;
}

// another spelling of the same path; n tells apart several mentions of one path
std::string spelled(const World &w, const std::string &p, uint64_t n = 0) {
  if (!w.sp.spell) return p;
  uint64_t h = sim::fnv(p, (uint64_t)w.sp.spell * 31 + n);
  static const char *in[] = {"/./", "//", "/zz/../", "/.//./", "/zz/y y/../../", "/./zz/.././"};
  std::string r = p;
  for (uint64_t k = h % 3; k > 0; k--) {
    h = sim::fnv("x", h);
    std::vector<size_t> at;
    for (size_t i = 1; i < r.size(); i++) if (r[i] == '/' && r[i - 1] != '/') at.push_back(i);
    if (at.empty()) break;
    r.replace(at[(h >> 8) % at.size()], 1, in[(h >> 32) % 6]);
  }
  return r;
}

template <class T> void fill(T &t, const World &w, const Tgt &s, const std::map<std::string, BaseTarget *> &tg) {
  // whether a path is under the root directory of the target, and where
  auto under = [](const std::string &p, const std::string &root, std::string &rel) { if (p.compare(0, root.size() + 1, root + "/")) return false; rel = p.substr(root.size() + 1); return true; };
  auto split = [](const std::string &rel, std::string &d, std::string &f) { size_t i = rel.rfind('/'); if (i == std::string::npos) return false; d = rel.substr(0, i); f = rel.substr(i + 1); return true; };
  std::string rel, rd, rf;
  auto sp = [&](const std::string &p, uint64_t n = 0) { return spelled(w, p, n); };
  std::string root = s.sub.empty() ? std::string(spec::kRoot) : std::string(spec::kRoot) + "/" + s.sub;
  bool alt = s.style == 1;
  for (auto &x : s.inc) {
    if (alt && under(x, root, rel)) t.AddIncludeDir(sp(rel), s.globinc);
    else t.AddIncludeDirAbsolute(s.globinc ? x : sp(x), s.globinc);
  }
  std::set<std::string> globbed;
  if (s.glob)
    for (auto &x : s.src) {             // a directory whose sources are exactly those wanted
      std::string d = tools::dir(x);
      if (globbed.count(d) || !w.files.count(x)) continue;
      bool exact = true;
      for (auto &y : s.src) if (tools::dir(y) == d && !(w.files.count(y) && w.files.at(y).there())) exact = false;
      for (auto &[y, u] : w.files) {
        std::string e = y.size() > 2 ? y.substr(y.rfind('.')) : "";
        if (u.exists && tools::dir(y) == d && spec::lang(y) > 0 && spec::lang(y) < 4 && std::find(s.src.begin(), s.src.end(), y) == s.src.end()) exact = false;
      }
      if (!exact) continue;
      globbed.insert(d);
      if (alt && d.compare(0, root.size() + 1, root + "/") == 0) t.GlobSources(d.substr(root.size() + 1));
      else t.GlobSourcesAbsolute(d);
    }
  for (auto &x : s.src) {
    if (globbed.count(tools::dir(x))) continue;
    if (alt && under(x, root, rel)) { if (x.size() % 2 && split(rel, rd, rf)) t.AddSource(rf, sp(rd)); else t.AddSource(sp(rel)); }
    else t.AddSourceAbsolute(sp(x));
  }
  if (s.dup && s.dup <= (int)s.src.size()) t.AddSourceAbsolute(sp(s.src[(size_t)s.dup - 1], 1));
  for (auto &x : s.headers) {
    if (s.globinc) { bool g = false; for (auto &d : s.inc) if (tools::dir(x) == d && w.files.count(x) && w.files.at(x).there()) g = true; if (g) continue; }
    if (alt && under(x, root, rel)) { if (x.size() % 2 && split(rel, rd, rf)) t.AddHeader(rf, sp(rd)); else t.AddHeader(sp(rel)); }
    else t.AddHeaderAbsolute(sp(x));
  }
  for (auto &x : s.pch) {
    if (alt && under(x, root, rel)) { if (x.size() % 2 && split(rel, rd, rf)) t.AddPch(rf, sp(rd)); else t.AddPch(sp(rel)); }
    else t.AddPchAbsolute(sp(x));
  }
  for (auto &x : s.libdir) { if (alt && under(x, root, rel)) t.AddLibDir(sp(rel)); else t.AddLibDirAbsolute(sp(x)); }
  for (auto &x : s.libs) t.AddLibDep(*tg.at(x));
  for (auto &x : s.ext) t.AddLibDep(x);
  for (auto &x : s.cdeps) { if (alt && under(x, root, rel)) t.AddCompileDependency(sp(rel)); else t.AddCompileDependencyAbsolute(sp(x)); }
  for (auto &x : s.ldeps) { if (alt && under(x, root, rel)) t.AddLinkDependency(sp(rel)); else t.AddLinkDependencyAbsolute(sp(x)); }
  if ((w.sp.baddep == 5 || w.sp.baddep == 6) && !w.sp.tgts.empty() && &s == &w.sp.tgts[(size_t)w.sp.bad_a % w.sp.tgts.size()]) {
    // a file of another kind
    static const char *no_src[] = {"a.h", "a.txt", "a", "a.cpp.o", "d.cpp/a", ".cpp", "a.CPP", "a.c~", "a.hpp", "a.cp"};
    static const char *no_hdr[] = {"a.cpp", "a.txt", "a", "a.h.in", "d.h/a", ".h", "a.H2", "a.c", "a.s", "a.hp"};
    std::string f = std::string(spec::kRoot) + "/" + (w.sp.baddep == 5 ? no_src : no_hdr)[w.sp.bad_b % 10];
    sim::logf("BAD kind %s", f.c_str());
    if (w.sp.baddep == 5) { if (w.sp.bad_b & 16) t.AddSource(f); else t.AddSourceAbsolute(f); }
    else if (w.sp.bad_b & 16) t.AddPchAbsolute(f);
    else if (w.sp.bad_b & 32) t.AddHeader(f);
    else t.AddHeaderAbsolute(f);
  }
}
// Declares a target through descriptions it takes options from: each option comes from
// the target itself or from one of four descriptions, inserted or copied, shared or given up.
template <class F> void in_lists(std::vector<SyncOption> v, sim::Rng &r, const F &f) {
  for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
  for (size_t i = 0; i < v.size();) {
    size_t n = std::min<size_t>(v.size() - i, 1 + r.below(4));
    if (n == 1) f(std::initializer_list<SyncOption>{v[i]});
    else if (n == 2) f(std::initializer_list<SyncOption>{v[i], v[i + 1]});
    else if (n == 3) f(std::initializer_list<SyncOption>{v[i], v[i + 1], v[i + 2]});
    else f(std::initializer_list<SyncOption>{v[i], v[i + 1], v[i + 2], v[i + 3]});
    i += n;
  }
}
void declare_shared(BaseTarget &b, const World &w, const Tgt &t, const BaseToolchain &tc, const std::map<std::string, BaseTarget *> &tg) {
  using O = SyncOption;
  static const O opt[] = {O::PreprocessorFlags, O::CommonCompileFlags, O::PchCompileFlags, O::PchObjectFlags, O::AsmCompileFlags, O::CCompileFlags, O::CppCompileFlags, O::LinkFlags,
    O::CompileDependencies, O::LinkDependencies, O::SourceFiles, O::HeaderFiles, O::PchFiles, O::LibDeps, O::ExternalLibDeps, O::IncludeDirs, O::LibDirs};
  static_assert(spec::K_N == 8, "one option per kind of flags");
  constexpr int n = 17;
  sim::Rng r(sim::fnv(t.name, (uint64_t)t.sync));
  auto list = [](Tgt &x, int i) -> std::vector<std::string> & {
    std::vector<std::string> *v[] = {&x.cdeps, &x.ldeps, &x.src, &x.headers, &x.pch, &x.libs, &x.ext, &x.inc, &x.libdir};
    return i < spec::K_N ? x.flags[i] : *v[i - spec::K_N];
  };
  const std::string d = std::string(spec::kRoot) + "/decoy";
  const std::vector<std::string> other = {d + "/dep", d + "/dep", d + "/d.cpp", d + "/d.h", d + "/p.h", "", "-ldecoy", d, d};
  auto decoy = [&](Tgt &x, int i) {
    if (i < spec::K_N) list(x, i).push_back("-DDECOY" + std::to_string(i));
    else if (i == 13) { for (auto &o : tg) if (o.first != t.name) { x.libs.push_back(o.first); break; } }
    else list(x, i).push_back(other[(size_t)i - spec::K_N]);
  };
  Tgt empty = t;
  for (int i = 0; i < n; i++) list(empty, i).clear();
  empty.dup = 0;
  empty.glob = empty.globinc = false;
  Tgt full = t, own = empty, part[5] = {empty, empty, empty, empty, empty};
  std::vector<O> sel[5];
  const bool noise = r.chance(0.6);
  const bool ms = w.sp.tcs[(size_t)t.tc].kind == 4;
  auto cls_flags = [&](int i) { return i == spec::K_PCHO || i == spec::K_COMMON || (ms && i < spec::K_N); };   // the class itself has added flags
  for (int i = 0; i < n; i++) {
    auto &v = list(full, i);
    int way = r.chance(0.25) ? 0 : 1 + (int)r.below(4);
    if (cls_flags(i) && way > 2) way -= 2;
    if (way == 0) list(own, i) = v;
    else {
      sel[way].push_back(opt[i]);
      if (way <= 2) {
        size_t k = r.below(v.size() + 1);
        list(own, i).assign(v.begin(), v.begin() + (long)k);
        if (i == 10 && k && r.chance(0.3)) k--;                 // a source in both
        list(part[way], i).assign(v.begin() + (long)k, v.end());
      } else {
        if (noise) decoy(own, i);
        list(part[way], i) = v;
      }
    }
    if (noise) for (int k = 1; k < 5; k++) if (k != way) decoy(part[k], i);
    if (i == 10 && way != 1 && way != 2) (way ? part[way] : own).dup = t.dup;
  }
  fill(b, w, own, tg);
  add_flags(b, own.flags);
  const BaseToolchain plain(tc.GetId(), tc.GetName(), tc.GetToolchainExecutables(), tc.GetConfig());   // inserted flags come without those of the toolchain
  int order[] = {1, 2, 3, 4};
  for (int i = 4; i > 1; i--) std::swap(order[i - 1], order[r.below((uint64_t)i)]);
  for (int g : order) {
    TargetEnv env(t.sub.c_str());
    TargetInfo info(g <= 2 ? plain : tc, env), mid(plain, env);
    fill(info, w, part[g], tg);
    add_flags(info, part[g].flags);
    const TargetInfo &shared = info;
    if (g == 1 || g == 3) in_lists(sel[g], r, [&](std::initializer_list<O> l) { if (g == 1 && r.chance(0.5)) mid.Insert(shared, l); else mid.Copy(shared, l); });   // another one takes them over first
    const TargetInfo &from = r.chance(0.3) ? mid : info;
    in_lists(sel[g], r, [&](std::initializer_list<O> l) {
      if (g == 1) b.Insert(from, l);
      if (g == 2) b.Insert(std::move(info), l);
      if (g == 3) b.Copy(from, l);
      if (g == 4) b.Copy(std::move(info), l);
    });
  }
}
// a declaration that contradicts the others
template <class G, class T> void contradict(const World &w, std::vector<BaseToolchain *> &tcs, std::map<std::string, BaseTarget *> &tg, std::map<std::string, CustomGenerator *> &gn,
                                            const std::vector<std::string> &order, const G &reg_gen, const T &reg_tgt) {
  const spec::Spec &sp = w.sp;
  const ArgToolchainState on(true, true);
  const size_t a = (size_t)sp.bad_a, b = (size_t)sp.bad_b;
  const std::string &name = order[a % order.size()];
  sim::logf("BAD contradiction %d", sp.baddep);
  auto nop = [](const CustomGeneratorContext &) { return true; };
  switch (sp.baddep) {
  case 7: {                  // a step identifier twice
    auto *c = new CustomGenerator("twice", "");
    const std::string in = std::string(spec::kRoot) + "/none";
    size_t n = 1 + b % 3;
    for (size_t i = 0; i < n; i++) c->AddIdInfo("id" + std::to_string(i), {in}, {"{current_build_dir}/o" + std::to_string(i)}, nop);
    c->AddIdInfo("id" + std::to_string(a % n), {in}, {"{current_build_dir}/o" + std::to_string(b & 4 ? a % n : n)}, nop);
    break;
  }
  case 8:                    // the same builder, or another one of the same name
    if (auto *g = spec::find_gen(sp, name)) {
      if (b & 1) gn[name] = g->kind == 0 ? new CustomGenerator(name, "") : g->kind == 1 ? new FileGenerator(name, "") : static_cast<CustomGenerator *>(new TemplateGenerator(name, ""));
      reg_gen(*g);
    } else {
      const Tgt &t = *spec::find_tgt(sp, name);
      if (b & 1) tg[name] = new ExecutableTarget_gcc(name, *tcs[(size_t)t.tc], TargetEnv(b & 2 ? "other" : t.sub.c_str()));
      reg_tgt(t);
    }
    break;
  case 9:                    // two tests of one target
  case 10: {                 // a test of a target that is not built
    BaseTarget *t = tg.empty() || sp.baddep == 10 ? new ExecutableTarget_gcc("alone", *tcs[a % tcs.size()], TargetEnv("")) : std::next(tg.begin(), (long)(a % tg.size()))->second;
    // also with another command, or with what an earlier run would have left behind
    if (sp.baddep == 10 && (b & 2)) { fs::create_directories(t->GetTargetPath().parent_path()); std::ofstream(t->GetTargetPath().string()) << "old"; }
    for (int i = sp.baddep == 9 ? 2 : 1; i; i--) Reg::Toolchain(on).Test(b & 1 ? "{executable} again" : (b & 4) && i == 1 ? "{executable} other" : "{executable}", *t, (b & 8) && i == 1 ? TestConfig({{"x", "y"}, {"z", "y"}}) : TestConfig());
    break;
  }
  case 11: {                 // an identifier twice in the storage, or looked up as what it is not
    const std::string id = "kept" + std::to_string(a);
    auto &s = Storage::Add<std::string>(id, "first");
    if (b % 4 == 0) (void)Storage::Add<std::string>(id, "second");
    else if (b % 4 == 1) (void)Storage::Add<int>(id, 2);
    else if (b % 4 == 2) (void)Storage::Ref<int>(id);
    else (void)Storage::ConstRef<std::string>(id + (s.empty() ? "" : "x"));
    break;
  }
  case 12: {                 // no callback
    auto *c = new CustomGenerator("nothing", "");
    c->AddIdInfo("id", {}, {"{current_build_dir}/o"}, GenerateCb());
    break;
  }
  case 14: {                 // a placeholder that nothing defines
    auto *c = new CustomGenerator("open", "");
    if (b & 1) c->AddPattern("known", "{current_build_dir}");
    if (b % 4 < 2) c->AddIdInfo("id", {}, {"{current_build_dir}/{unknown}/o"}, nop);
    else if (b % 4 == 2) c->AddPattern("more", "{unknown}");
    else (void)c->Get("unknown");
    break;
  }
  case 15: {                 // no target
    plugin::ClangCompileCommands p({});
    p.AddTarget(nullptr);
    break;
  }
  default: new BaseTarget("kind", static_cast<TargetType>(3 + b % 100), *tcs[a % tcs.size()], TargetEnv("")); break;
  }
}
} // namespace

void script_at_exit() {
  if (!g_user) return;
  for (auto *u : *g_user) {
    if (!u->on) continue;
    std::string o, e;
    for (auto &x : u->o) o += x;
    for (auto &x : u->e) e += x;
    sim::logf("UR %s o %s", u->tag.c_str(), esc(o).c_str());
    sim::logf("UR %s e %s", u->tag.c_str(), esc(e).c_str());
  }
}

void script_run(const World &w) {
  const spec::Spec &sp = w.sp;
  g_user = new std::vector<UserOut *>;
  size_t ntc = sp.tcs.size();
  auto *arg = new std::vector<ArgToolchain>(ntc);
  static const char *lv[] = {"info", "debug", "trace", "warning"};
  std::vector<std::string> av = {"build"};
  if (sp.argstyle) { av.push_back("--config"); for (auto &c : spec::config_files(sp)) av.push_back(c.first); }
  else av = {"build", "--root_dir", spec::kRoot, "--build_dir", spec::kBuild, "--loglevel", lv[sp.loglevel & 3], "toolchain"};
  auto &args = Args::Init();
  for (size_t i = 0; i < ntc; i++) {
    args.AddToolchain(sp.tcs[i].name, "toolchain", (*arg)[i]);
    if (sp.argstyle || (!sp.tcs[i].build && !sp.tcs[i].test)) continue;
    av.push_back(sp.tcs[i].name);
    if (sp.tcs[i].build) av.push_back("--build");
    if (sp.tcs[i].test) av.push_back("--test");
  }
  std::vector<const char *> cav;
  for (auto &a : av) cav.push_back(a.c_str());
  args.Parse((int)cav.size(), cav.data());
  Reg::Init();

  std::vector<BaseToolchain *> tcs;
  for (auto &tc : sp.tcs) {
    std::string b = "/w/tc/" + tc.name + "/bin/";
    auto tn = spec::tc_tools(tc);
    env::optional<ToolchainExecutables> ex;
    env::optional<ToolchainConfig> cfg;
    if (!sp.verify) ex = ToolchainExecutables(b + tn.as, b + tn.cc, b + tn.cxx, b + tn.ar, b + tn.ld);
    if (tc.cfg) {
      auto c = spec::tc_config(tc);
      ToolchainConfig v;
      v.obj_ext = c.obj; v.pch_header_ext = c.pch_header; v.pch_compile_ext = c.pch; v.prefix_include_dir = c.inc; v.prefix_lib_dir = c.lib;
      v.valid_cpp_ext.insert({".cppm", ".c"});
      v.valid_c_ext.clear();
      cfg = v;
    }
    BaseToolchain *t = nullptr;
    switch (tc.kind) {
    case 0: t = new Toolchain_gcc(tc.name, ex, cfg); break;
    case 1: t = &Toolchain_generic::New(ToolchainId::Gcc, tc.name, ex, cfg); break;
    case 2: t = &Toolchain_generic::New(ToolchainId::MinGW, tc.name, ex, cfg); break;
    case 3: {
      auto e = ex.value_or(ToolchainExecutables(tn.as, tn.cc, tn.cxx, tn.ar, tn.ld));
      const bool own = (sim::fnv(tc.name) + (uint64_t)sp.regorder) % 2;
      t = &Toolchain_generic::New(own ? ToolchainId::Custom : ToolchainId::Clang, tc.name, e, cfg);
      if (own) t->SetToolchainInfoCb([](const ToolchainExecutables &) -> env::optional<ToolchainCompilerInfo> { ToolchainCompilerInfo i; i.compiler_version = "1"; i.target_arch = "m"; return i; });
      break;
    }
    case 4: t = &Toolchain_generic::New(ToolchainId::Msvc, tc.name, ex, cfg); setenv("VSCMD_VER", "17.1", 1); setenv("VSCMD_ARG_HOST_ARCH", "x64", 1); setenv("VSCMD_ARG_TGT_ARCH", "x64", 1); break;
    }
    if (sp.verify) {
      (void)t->Verify(ToolchainFindConfig({}, {fs::path("/w/tc/none"), fs::path("/w/tc/partial"), fs::path("/w/tc/" + tc.name + "/bin")}));
    }
    add_flags(*t, tc.flags);
    tcs.push_back(t);
  }

  std::map<std::string, BaseTarget *> tg;
  // targets of toolchains that are switched off are declared all the same
  for (auto &t : sp.off) {
    BaseTarget *b = new ExecutableTarget_gcc(t.name, *tcs[(size_t)t.tc], TargetEnv(t.sub.c_str()));
    Reg::Toolchain((*arg)[(size_t)t.tc].state).Func([&t]() { sim::logf("OFFCALLED %s", t.name.c_str()); }).Build([&](BaseTarget &x) { fill(x, w, t, {}); x.Build(); }, *b);
    Reg::Toolchain((*arg)[(size_t)t.tc].state).Dep(*b, *b);   // not registered: nothing to order
    for (auto &x : sp.offtests) if (x.tgt == t.name) Reg::Toolchain((*arg)[(size_t)t.tc].state).Test("{executable} --tag " + x.tag, *b);
  }
  std::map<std::string, CustomGenerator *> gn;
  std::map<std::string, internal::BuilderInterface *> all;
  for (auto &t : sp.tgts) {
    TargetEnv env(t.sub.c_str());
    auto &tc = *tcs[(size_t)t.tc];
    BaseTarget *b = nullptr;
    const int tk = sp.tcs[(size_t)t.tc].kind;
    if (tk == 3) {
      TargetConfig c;
      c.target_ext = spec::kCustomExt[t.type];
      c.pch_command = spec::kCustomPch;
      c.compile_command = spec::kCustomCompile;
      c.link_command = t.type == 0 ? spec::kCustomExe : t.type == 1 ? spec::kCustomStatic : spec::kCustomDynamic;
      b = new BaseTarget(t.name, t.type == 0 ? TargetType::Executable : t.type == 1 ? TargetType::StaticLibrary : TargetType::DynamicLibrary, tc, env, c);
      DefaultGccOptions(*b);
    } else if (t.style == 1 && (t.name.back() & 1)) {
      if (t.type == 0) b = new ExecutableTarget_generic(t.name, tc, env);
      else if (t.type == 1) b = new StaticTarget_generic(t.name, tc, env);
      else b = new DynamicTarget_generic(t.name, tc, env);
    } else if (t.style == 1) b = new Target_generic(t.name, t.type == 0 ? TargetType::Executable : t.type == 1 ? TargetType::StaticLibrary : TargetType::DynamicLibrary, tc, env);
    else if (tk == 4) {
      if (t.type == 0) b = new ExecutableTarget_msvc(t.name, tc, env);
      else if (t.type == 1) b = new StaticTarget_msvc(t.name, tc, env);
      else b = new DynamicTarget_msvc(t.name, tc, env);
    } else if (tk == 2) {
      if (t.type == 0) b = new ExecutableTarget_mingw(t.name, tc, env);
      else if (t.type == 1) b = new StaticTarget_mingw(t.name, tc, env);
      else b = new DynamicTarget_mingw(t.name, tc, env);
    }
    else if (t.type == 0) b = new ExecutableTarget_gcc(t.name, tc, env);
    else if (t.type == 1) b = new StaticTarget_gcc(t.name, tc, env);
    else b = new DynamicTarget_gcc(t.name, tc, env);
    tg[t.name] = b;
    all[t.name] = b;
  }
  auto *blobs = new std::vector<std::unique_ptr<std::string>>;
  for (auto &g : sp.gens) {
    CustomGenerator *c = g.kind == 0 ? new CustomGenerator(g.name, "") : g.kind == 1 ? new FileGenerator(g.name, "") : static_cast<CustomGenerator *>(new TemplateGenerator(g.name, ""));
    gn[g.name] = c;
    all[g.name] = c;
  }
  // registration in an arbitrary order
  std::vector<std::string> order;
  for (auto &[n, _] : all) order.push_back(n);
  sim::Rng pr((uint64_t)sp.regorder);
  for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[pr.below(i)]);

  auto any_order = [&](std::vector<std::string> v) { if (sp.spell % 2) std::reverse(v.begin(), v.end()); return v; };   // sets have no order
  auto reg_gen = [&](const Gen &g) {
    auto in_build = [&](const std::string &p) {   // paths may be given through patterns
      std::string d = spec::gen_dir(g) + "/", r = std::string(spec::kRoot) + "/";
      if (p.compare(0, d.size(), d) == 0) return "{current_build_dir}/" + p.substr(d.size());
      if (p.compare(0, r.size(), r) == 0) return "{project_root_dir}/" + p.substr(r.size());
      return p;
    };
    if (g.kind == 0) {
      Reg::Call().Build([&](CustomGenerator &c) {
        for (auto &i : g.ids) {
          std::unordered_set<std::string> in, out;
          for (auto &x : any_order(i.in)) in.insert(spelled(w, in_build(x)));
          for (auto &x : any_order(i.out)) out.insert(spelled(w, in_build(x)));
          std::shared_ptr<CustomBlobHandler> h;
          if (i.blob) {
            blobs->push_back(std::make_unique<std::string>(i.data));
            h = std::make_shared<TypedCustomBlobHandler<std::string>>(*blobs->back());
          }
          std::string gname = g.name, id = i.id;
          bool blob = i.blob;
          c.AddIdInfo(id, in, out, [gname, id, blob](const CustomGeneratorContext &ctx) { return custom_cb(gname, id, blob, ctx); }, h);
        }
        c.Build();
      }, *gn[g.name]);
    } else if (g.kind == 1) {
      Reg::Call().Build([&](FileGenerator &c) {
        auto &i = g.ids[0];
        for (auto &x : any_order(i.in)) c.AddInput(spelled(w, in_build(x)));
        for (auto &x : any_order(i.out)) c.AddOutput(spelled(w, in_build(x)));
        for (size_t k = 0; k < g.cmdtags.size(); k++) {
          std::string outs, ins;
          for (size_t j = 0; j < i.out.size(); j++) if (j % g.cmdtags.size() == k) outs += " -o " + quote(in_build(i.out[j]));
          if (outs.empty()) continue;
          for (auto &x : i.in) ins += " " + quote(in_build(x));
          c.AddCommand("{tool} -a {tag}" + outs + ins, {{"tool", "/w/tc/t0/bin/gen"}, {"tag", g.cmdtags[k]}});
        }
        c.Build();
      }, *static_cast<FileGenerator *>(gn[g.name]));
    } else {
      Reg::Call().Build([&](TemplateGenerator &c) {
        if (sp.spell % 3 == 1) c.AddPatterns({g.pats.begin(), g.pats.end()});
        else for (auto &[k, v] : g.pats) c.AddPattern(k, v);
        for (auto &i : g.ids) c.AddTemplate(spelled(w, in_build(i.in[0])), spelled(w, in_build(i.out[0])));
        c.Build();
      }, *static_cast<TemplateGenerator *>(gn[g.name]));
    }
  };
  auto reg_tgt = [&](const Tgt &t) {
    auto &state = (*arg)[(size_t)t.tc].state;
    Reg::Toolchain(state).Build([&](BaseTarget &b) {
      if (t.style == 2 && t.sync && w.sp.baddep != 5 && w.sp.baddep != 6) {
        declare_shared(b, w, t, *tcs[(size_t)t.tc], tg);
        b.Build();
        return;
      }
      if (t.style == 2) {
        TargetInfo info(*tcs[(size_t)t.tc], TargetEnv(t.sub.c_str()));
        fill(info, w, t, tg);
        if (sim::fnv(t.name) % 2 && sp.tcs[(size_t)t.tc].kind != 4) {     // replace everything, flags included
          std::vector<std::string> fi[spec::K_N], fb[spec::K_N];
          for (int c = 0; c < spec::K_N; c++) (c == spec::K_COMMON || c == spec::K_PCHO ? fb : fi)[c] = t.flags[c];
          add_flags(info, fi);
          b.Copy(info, {SyncOption::PreprocessorFlags, SyncOption::PchCompileFlags, SyncOption::AsmCompileFlags, SyncOption::CCompileFlags, SyncOption::CppCompileFlags, SyncOption::LinkFlags, SyncOption::CompileDependencies, SyncOption::LinkDependencies, SyncOption::SourceFiles, SyncOption::HeaderFiles, SyncOption::PchFiles, SyncOption::LibDeps, SyncOption::IncludeDirs, SyncOption::LibDirs, SyncOption::ExternalLibDeps});
          add_flags(b, fb);
          b.Build();
          return;
        }
        b.Insert(info, {SyncOption::SourceFiles, SyncOption::HeaderFiles, SyncOption::PchFiles, SyncOption::LibDeps, SyncOption::IncludeDirs, SyncOption::LibDirs, SyncOption::ExternalLibDeps, SyncOption::CompileDependencies, SyncOption::LinkDependencies});
      } else fill(b, w, t, tg);
      add_flags(b, t.flags);
      b.Build();
    }, *tg[t.name]);
  };
  std::string skip;   // builder left unregistered
  if (sp.baddep == 4 && order.size() > 1) skip = order[(size_t)sp.bad_a % order.size()];
  for (auto &n : order) {
    if (n == skip) continue;
    if (auto *g = spec::find_gen(sp, n)) reg_gen(*g);
    else reg_tgt(*spec::find_tgt(sp, n));
  }
  std::vector<std::pair<std::string, std::string>> deps;
  for (auto &g : sp.gens) for (auto &d : g.deps) deps.push_back({g.name, d});
  for (auto &t : sp.tgts) for (auto &d : t.deps) deps.push_back({t.name, d});
  for (size_t i = deps.size(); i > 1; i--) std::swap(deps[i - 1], deps[pr.below(i)]);
  if (sp.baddep == 2) {
    // an edge that closes a cycle, mostly a long one, declared at any point
    auto d = spec::builder_deps(sp);
    std::vector<std::pair<std::string, std::string>> rev, far;
    for (auto &[n, ds] : d) for (auto &x : ds) { rev.push_back({x, n}); if (std::find(deps.begin(), deps.end(), std::make_pair(n, x)) == deps.end()) far.push_back({x, n}); }
    sim::logf("BAD cycle");
    if (rev.empty()) deps.push_back({order[0], order[0]});
    else { auto &v = !far.empty() && sp.bad_b % 4 ? far : rev; deps.insert(deps.begin() + (long)(pr.below(deps.size() + 1)), v[(size_t)sp.bad_a % v.size()]); }
  }
  ArgToolchainState on(true, true);
  auto dep = [&](const std::string &a, const std::string &b) { Reg::Toolchain(on).Dep(*all[a], *all[b]); };
  size_t at = deps.empty() ? 0 : (size_t)sp.bad_b % (deps.size() + 1);
  for (size_t i = 0; i < deps.size(); i++) {
    if (deps[i].first == skip || deps[i].second == skip) continue;
    dep(deps[i].first, deps[i].second);
    if (sp.baddep == 3 && i == at % deps.size()) { sim::logf("BAD dup"); dep(deps[i].first, deps[i].second); }
  }
  if (sp.baddep == 1 || (sp.baddep == 3 && deps.empty())) {
    auto &n = order[(size_t)sp.bad_a % order.size()];
    sim::logf("BAD self");
    dep(n, n);
  }
  if (sp.baddep == 4) {
    sim::logf("BAD unregistered");
    if (skip.empty()) dep(order[0], order[0]);
    else { std::string o = order[0] == skip ? order[1] : order[0]; if (sp.bad_b & 1) dep(o, skip); else dep(skip, o); }
  }
  if (sp.baddep >= 7) contradict(w, tcs, tg, gn, order, reg_gen, reg_tgt);
  if (sp.baddep) sim::logf("BADPASSED");

  for (auto &x : sp.tests) {
    auto *u = new UserOut;
    u->tag = x.tag;
    u->on = x.out >= 4;
    g_user->push_back(u);
    // 4: both streams to the user, 5: only stdout, 6: only stderr
    TestOutput to(static_cast<TestOutput::Type>(x.out > 4 ? 4 : x.out), x.out == 4 || x.out == 5 ? &u->o : nullptr, x.out == 4 || x.out == 6 ? &u->e : nullptr);
    env::optional<fs::path> cwd;
    if (x.cwd) cwd = fs::path(spec::kBuild);
    const Tgt &t = *spec::find_tgt(sp, x.tgt);
    Reg::Toolchain((*arg)[(size_t)t.tc].state).Test("{executable} --tag {tag} --lines {lines} --elines {elines} --rc {rc}", *tg[x.tgt], TestConfig({{"tag", x.tag}, {"lines", std::to_string(x.lines)}, {"elines", std::to_string(x.elines)}, {"rc", std::to_string(x.rc)}}, cwd, to));
  }
  for (auto &x : sp.offtests)
    if (tg.count(x.tgt)) Reg::Toolchain((*arg)[(size_t)spec::find_tgt(sp, x.tgt)->tc].state).Test("{executable} --tag {tag}", *tg[x.tgt], TestConfig({{"tag", x.tag}}));
  auto ccdb = [&]() {
    std::vector<const BaseTarget *> v;
    for (auto &t : sp.tgts) v.push_back(tg[t.name]);
    plugin::ClangCompileCommands(std::move(v)).Generate();
  };
  Reg::Run([&]() {
    sim::event("post-build");
    if (sp.ccdb == 1) ccdb();
    sim::logf("POST");
  });
  if (sp.ccdb == 2) ccdb();
  sim::logf("DONE");
}
