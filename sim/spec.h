// Project specification, user files, and the reference model of a build.
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>
#include "rt.h"
#include "tools.h"

namespace spec {
using std::map;
using std::set;
using std::string;
using std::vector;

constexpr const char *kRoot = "/w/p";
extern string kBuild;              // set by gen_world

struct UFile {                    // a user-edited file
  vector<string> incs, bins;
  int ver = 0;
  int mark = 0;                   // 0 fine, 1 broken (fails its step), 2 broken (throws in a callback), 3 not there
  int kind = 0;                   // 0 source/header text, 1 data, 2 template
  uint64_t mtime = 0;
  bool exists = true;
  bool there() const { return exists && mark != 3; }
  string render(const string &path) const;
};

enum Cat { K_PRE = 0, K_COMMON, K_PCHC, K_PCHO, K_ASM, K_C, K_CPP, K_LINK, K_N };
extern const char *const kCatPrefix[K_N];

// kind: 0 gcc, 1 gcc made by name and kept in the global storage, 2 mingw (made
// likewise), 3 custom with its own target configuration, 4 msvc
struct Tc { string name; vector<string> flags[K_N]; bool build = true, test = true; int kind = 0; bool cfg = false; };
struct TcTools { const char *as, *cc, *cxx, *ar, *ld; };
TcTools tc_tools(const Tc &t);
// what a toolchain or target configuration of the user holds
struct TcConfig { const char *obj, *pch_header, *pch, *inc, *lib; };
TcConfig tc_config(const Tc &t);
extern const char *const kCustomExt[3], *const kCustomPch, *const kCustomCompile, *const kCustomExe, *const kCustomStatic, *const kCustomDynamic;

struct GenId { string id; vector<string> in, out; string data; bool blob = true; };
struct Gen {
  string name;
  int kind = 0;                   // 0 custom, 1 file, 2 template
  vector<GenId> ids;              // file: exactly one; template: one per template
  map<string, string> pats;       // template patterns
  vector<string> cmdtags;         // file: one command per entry, command k writes out[k % n]
  vector<string> deps;            // builders
};
struct Tgt {
  string name;
  int type = 0;                   // 0 exe, 1 static, 2 dynamic
  int tc = 0;
  string sub;                     // target root relative to the project root
  int style = 0;                  // 0 gcc class, 1 generic class, 2 via TargetInfo insert
  int sync = 0;                   // style 2: seed of which options come from where (0: most from one insert or copy)
  bool glob = false;              // sources of its own directory by glob
  int dup = 0;                    // k: the k-th source is added a second time
  bool globinc = false;           // headers of its include dirs by glob
  vector<string> src, pch, inc, libdir, libs, ext, ldeps, cdeps;   // absolute paths; libs: target names
  vector<string> flags[K_N];
  vector<string> deps;            // builders (all of libs and used generators included)
  vector<string> headers;         // computed
};
struct Test { string tgt; int out = 3; int lines = 1, elines = 1; int rc = 0; bool cwd = false; string tag; };

struct Spec {
  vector<Tc> tcs;
  vector<Gen> gens;
  vector<Tgt> tgts;
  vector<Test> tests;
  bool verify = true;
  int ccdb = 1;                   // 0 none, 1 in the post-build step, 2 after the run
  int baddep = 0;                 // 1 self, 2 cycle, 3 duplicate, 4 unregistered
  int bad_a = 0, bad_b = 0;
  int regorder = 0;               // permutation seed for registration order
  int loglevel = 0;               // 0 info, 1 debug, 2 trace, 3 warning
  int spell = 0;                  // seed of the spelling of declared paths (0: as they are)
  int argstyle = 0;               // settings on the command line, in one, in two configuration files
  vector<Tgt> off;                // targets of toolchains that are switched off (see active)
  vector<Test> offtests;
};

struct World {
  Spec sp;
  map<string, UFile> files;       // absolute virtual path
  int ver = 1;                    // content version counter
  int nextid = 1;
};

struct Step {
  string key, builder, sig;
  char kind = 'c';                // c p l a g
  vector<string> outs;
  bool fails = false;
};
struct Model {
  map<string, string> out;        // expected contents of every output
  map<string, Step> steps;        // by key: command output path, or G:<gen>/<id>
  map<string, string> step_of_out;// output path -> step key
  map<string, set<string>> deps;  // transitive builder dependencies
  set<string> failed;             // builders that fail or depend on one that fails
  bool ok = true;
  map<string, string> owner;      // output path -> builder
  vector<std::pair<string, string>> ccdb;   // (source, compile command fields) per target source
};

string obj_path(const World &w, const Tgt &t, const string &src);
string tgt_dir(const World &w, const Tgt &t);
string tgt_out(const World &w, const Tgt &t);
string pch_header(const World &w, const Tgt &t);
int lang(const string &path, bool cfg = false);   // 0 none, 1 asm, 2 C, 3 C++, 4 header; cfg: the user's toolchain configuration builds .c as C++
string gen_dir(const Gen &g);
string tgt_state(const World &w, const Tgt &t);
string gen_state(const Gen &g);
vector<string> state_files(const World &w);
const Tgt *find_tgt(const Spec &s, const string &n);
const Gen *find_gen(const Spec &s, const string &n);
map<string, set<string>> builder_deps(const Spec &s);
Spec active(const Spec &s);       // what a run has to do: without switched off toolchains
vector<std::pair<string, string>> config_files(const Spec &s);
void refresh(World &w);           // recompute declared headers, generated-file deps
Model model(const World &w);
string new_flag(World &w, int c, uint64_t h);
World gen_world(sim::Rng &r, int size, unsigned feat);
string render_template(const string &text, const Gen &g, bool &ok);
bool file_is_used(const World &w, const string &p);
string describe(const World &w);

enum Feat : unsigned { W_GEN = 1, W_PCH = 2, W_TESTS = 4, W_MULTITC = 8, W_LIBS = 16, W_TEMPLATE = 32, W_ASM = 64, W_GLOB = 128, W_SPACE = 256, W_GRAPH = 512, W_WIDE = 1024, W_ALL = 0xffff };
}  // namespace spec
