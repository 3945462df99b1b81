#pragma once
#include "spec.h"
#include <functional>
// The generic build script: registers the project described by the spec with
// the real library and runs it, exactly as a user's build script would.
void script_run(const spec::World &w);
void script_at_exit();
// Direct scenarios (command execution, file helpers, toolchain verification).
struct Scen {
  int kind = 0;        // 1 commands, 2 files, 3 toolchain, 4 arguments, 5 schemas, 6 patterns, 7 program search, 8 buildexe
  uint64_t seed = 1;
  int n = 1;
  uint64_t big = 0;    // 8: what the workspace is made from
};
// Settings given on a command line and in configuration files, and what the build script has to see.
struct ArgCase {
  struct Init { bool on = false; int id = 0; std::string name, exe[5]; };
  std::vector<std::string> argv;
  std::vector<std::pair<std::string, std::string>> files;
  std::map<std::string, std::string> expect;
  std::vector<Init> init;       // toolchains, then targets
  int ntc = 0, ntg = 0;
  bool extra = false, must_fail = false;
};
ArgCase arg_case(uint64_t seed);
void scen_run(const Scen &s);
std::string scen_tc_dir(uint64_t seed, int i);
// Which toolchain scenario 3 verifies and what a Visual Studio prompt has set up.
struct TcCase { int kind = 0; std::vector<std::string> tools; std::string vs[3]; bool vson[3] = {true, true, true}; };
TcCase tc_case(uint64_t seed);
// A search for programs: directories with files in them, and the variables that name the directories.
struct FindCase {
  std::map<std::string, std::vector<std::string>> dirs;       // files of each directory that exists
  std::vector<std::pair<std::string, std::vector<std::string>>> vars;   // name and its elements, in search order
  std::vector<bool> set;
  struct Search { std::string regex; std::function<bool(const std::string &)> match; };
  std::vector<Search> searches;       // one after the other, in one process
};
FindCase find_case(uint64_t seed);
