// Stand-in for tiny-process-library: same class and blocking behaviour
// (exit status is returned after the captured streams were read to the end),
// but the process is simulated (sim/proc.cpp) and scheduled by the simulator.
#pragma once
#include <functional>
#include <string>
#include <thread>
#include <vector>

int simproc_spawn(const std::string &command, const std::string &cwd, bool out, bool err);
long simproc_read(int h, char *buf, size_t n, int *which);  // blocks; 0 at end of both streams
int simproc_wait(int h);
bool simproc_try_wait(int h, int *rc);
void simproc_kill(int h);

namespace TinyProcessLib {
struct Config {
  std::size_t buffer_size = 131072;
  bool inherit_file_descriptors = false;
  std::function<void()> on_stdout_close = nullptr;
  std::function<void()> on_stderr_close = nullptr;
};
class Process {
public:
  typedef int id_type;
  typedef int fd_type;
  typedef std::string string_type;

  Process(const string_type &command, const string_type &path = string_type(),
          std::function<void(const char *bytes, size_t n)> read_stdout = nullptr,
          std::function<void(const char *bytes, size_t n)> read_stderr = nullptr,
          bool open_stdin = false, const Config &config = {}) noexcept
      : out_(std::move(read_stdout)), err_(std::move(read_stderr)), config_(config) {
    (void)open_stdin;
    h_ = simproc_spawn(command, path, static_cast<bool>(out_), static_cast<bool>(err_));
    if (h_ > 0 && (out_ || err_)) {
      reader_ = std::thread([this]() {
        std::string buf(config_.buffer_size < 4096 ? config_.buffer_size : 4096, 0);
        for (;;) {
          int which = 0;
          long n = simproc_read(h_, &buf[0], buf.size(), &which);
          if (n <= 0) break;
          if (which == 1 && out_) out_(buf.data(), static_cast<size_t>(n));
          if (which == 2 && err_) err_(buf.data(), static_cast<size_t>(n));
        }
      });
    }
  }
  ~Process() noexcept { close_fds(); }
  Process(const Process &) = delete;

  id_type get_id() const noexcept { return h_; }
  int get_exit_status() noexcept {
    if (h_ <= 0) return -1;
    int rc = simproc_wait(h_);
    close_fds();
    return rc;
  }
  bool try_get_exit_status(int &exit_status) noexcept {
    if (h_ <= 0) return false;
    if (!simproc_try_wait(h_, &exit_status)) return false;
    close_fds();
    return true;
  }
  void kill(bool force = false) noexcept { (void)force; if (h_ > 0) simproc_kill(h_); }
  bool write(const char *, size_t) { return false; }
  bool write(const std::string &) { return false; }
  void close_stdin() noexcept {}

private:
  void close_fds() noexcept {
    if (reader_.joinable()) reader_.join();
  }
  int h_ = -1;
  std::function<void(const char *, size_t)> out_, err_;
  Config config_;
  std::thread reader_;
};
} // namespace TinyProcessLib
