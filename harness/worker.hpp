// A child process that executes one command at a time and can be killed.
#pragma once
#include <poll.h>
#include <sys/wait.h>
#include <unistd.h>
#include <functional>
#include <string>

struct Worker {
  pid_t pid = -1;
  int to = -1, from = -1;
  // f runs in the child, for every command; it returns the answer (one line)
  void start(std::function<std::string(const std::string&)> f) {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) _exit(99);
    VTrace::get().flush();
    pid = fork();
    if (pid < 0) _exit(99);
    if (pid == 0) {
      for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) signal(s, SIG_DFL);
      close(a[1]);
      close(b[0]);
      std::string line;
      char c;
      while (read(a[0], &c, 1) == 1) {
        if (c != '\n') { line += c; continue; }
        std::string r = f(line) + "\n";
        if (write(b[1], r.data(), r.size()) != (ssize_t)r.size()) _exit(0);
        line.clear();
      }
      _exit(0);
    }
    close(a[0]);
    close(b[1]);
    to = a[1];
    from = b[0];
  }
  bool send(const std::string& cmd) {
    std::string c = cmd + "\n";
    return write(to, c.data(), c.size()) == (ssize_t)c.size();
  }
  // "" if the child died, "?" if there was no answer in time
  std::string answer(int timeout_ms = 10000) {
    std::string r;
    char c;
    while (true) {
      struct pollfd p = {from, POLLIN, 0};
      if (poll(&p, 1, timeout_ms) <= 0) return "?";
      if (read(from, &c, 1) != 1) return "";
      if (c == '\n') return r;
      r += c;
    }
  }
  std::string call(const std::string& cmd, int timeout_ms = 10000) { send(cmd); return answer(timeout_ms); }
  void kill9() {
    if (pid > 0) { ::kill(pid, SIGKILL); stop(); }
  }
  void stop() {
    if (to >= 0) close(to);
    if (from >= 0) close(from);
    to = from = -1;
    if (pid > 0) { int s; waitpid(pid, &s, 0); }
    pid = -1;
  }
};
