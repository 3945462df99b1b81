// Simulated toolchain, generator and test programs.
#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace tools {
using Reader = std::function<bool(const std::string &, std::string &)>;

struct Result {
  int rc = 0;
  char kind = 'x';   // c compile, p precompiled header, l link, a archive, g generate, t test, v query, x other
  std::string out;   // main output path
  std::vector<std::pair<std::string, std::string>> writes;
  std::string so, se;
};

std::vector<std::string> split_cmd(const std::string &cmd);
Result classify(const std::vector<std::string> &argv);      // kind and output path only
Result run(const std::vector<std::string> &argv, const Reader &rd);

std::string seal(const std::string &body);                  // append checksum trailer
bool sealed(const std::string &data, std::string *body = nullptr);
std::string gen_text(const std::string &tag, const std::string &out, const std::vector<std::pair<std::string, std::string>> &inputs);
std::string base(const std::string &p);
std::string dir(const std::string &p);
// closure of "#include"d and ".incbin" files; missing files are listed too
void closure(const std::string &file, const std::vector<std::string> &incdirs, const Reader &rd, std::vector<std::string> &headers, std::vector<std::string> &bins);
}  // namespace tools
