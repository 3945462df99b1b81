// Stand-in for tiny-process-library (absent here): the part of its interface buildcc uses.
#pragma once
#include <fcntl.h>
#include <poll.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstddef>
#include <functional>
#include <string>
namespace TinyProcessLib {
class Process {
public:
  using string_type = std::string;
  using Fn = std::function<void(const char *, size_t)>;
  Process(const string_type &cmd, const string_type &dir = string_type(), Fn out = nullptr, Fn err = nullptr, bool = false) {
    int po[2], pe[2];
    if (out && pipe2(po, O_CLOEXEC)) return;
    if (err && pipe2(pe, O_CLOEXEC)) return;
    pid_ = fork();
    if (pid_ == 0) {
      if (out) dup2(po[1], 1);
      if (err) dup2(pe[1], 2);
      if (!dir.empty() && chdir(dir.c_str())) _exit(126);
      execl("/bin/sh", "sh", "-c", cmd.c_str(), (char *)nullptr);
      _exit(127);
    }
    if (out) close(po[1]);
    if (err) close(pe[1]);
    bool o = (bool)out, e = (bool)err;
    while (o || e) {
      pollfd f[2] = {{o ? po[0] : -1, POLLIN, 0}, {e ? pe[0] : -1, POLLIN, 0}};
      if (poll(f, 2, -1) < 0) continue;
      char b[4096];
      if (o && f[0].revents) { ssize_t n = read(po[0], b, sizeof b); if (n > 0) out(b, (size_t)n); else { o = false; close(po[0]); } }
      if (e && f[1].revents) { ssize_t n = read(pe[0], b, sizeof b); if (n > 0) err(b, (size_t)n); else { e = false; close(pe[0]); } }
    }
  }
  int get_exit_status() {
    if (pid_ <= 0) return -1;
    int st = 0;
    while (waitpid(pid_, &st, 0) < 0) {}
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
  }
  bool try_get_exit_status(int &s) { s = get_exit_status(); return true; }
private:
  pid_t pid_ = -1;
};
} // namespace TinyProcessLib
