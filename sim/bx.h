// Runs of the buildexe program: its command line, its home directory and its workspace.
#pragma once
#include "ops.h"
#include <map>
#include <set>
#include <string>
#include <vector>

namespace bx {
struct Case {
  std::string home, ws, root, build;           // BUILDCC_HOME, workspace, target root, build directory
  int home_bad = 0;                            // 1: not set, 2..5: a directory of it is missing
  bool script = false, clean = false;
  int type = 0;                                // 0 executable, 1 static library, 2 dynamic library
  std::string tc, name;
  std::vector<std::string> srcs, incs, libdirs, ext, configs;
  std::vector<std::string> flags[6];           // preprocessor, common, asm, c, cpp, link
  std::vector<std::string> libs;               // library directories of the home
  std::vector<std::pair<std::string, std::string>> libfiles;   // library, file
  std::vector<std::string> argv;
  std::map<std::string, std::string> conf;     // configuration files to write
  std::string out() const;
};
Case make(uint64_t base, uint64_t step);
// Brings the files of the case up to date; returns whether anything on disk changed.
bool lay_out(const Case &c, uint64_t base, uint64_t step, ops::Files &f, std::string &what);
bool broken(const Case &c, uint64_t step, const std::string &path);
extern const char *const kHomes[2];
std::vector<std::string> home_sources(const Case &c, bool tpl);   // what the two libraries of the home are built from
}  // namespace bx
