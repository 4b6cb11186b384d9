// Files under the simulator: every mapping of one file is the same piece of sim::shared(), as the kernel's would be the
// same physical pages. Link with --wrap=mmap --wrap=munmap.
#pragma once
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <map>
#include "sim.hpp"

namespace simfile {
static const size_t BASE = 24 * 1024, SLOT = 8 * 1024, SLOTS = 5;
inline std::map<ino_t, size_t>& slots() { static std::map<ino_t, size_t> m; return m; }
inline int& base_fd() { static int n = -1; return n; }
inline long& live() { static long n = 0; return n; }   // mappings not yet undone
inline void start_run() {
  slots().clear();
  live() = 0;
  if (base_fd() < 0) { base_fd() = dup(0) + 1; close(base_fd() - 1); }
}
inline void end_run() { close_range(base_fd(), ~0u, 0); }
inline bool ours(void* p) { return (uint8_t*)p >= sim::shared() + BASE && (uint8_t*)p < sim::shared() + BASE + SLOT * SLOTS; }
}  // namespace simfile

extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
void* __wrap_mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
  struct stat st;
  if (fd < 0 || !sim::shared() || fstat(fd, &st) || !S_ISREG(st.st_mode)) return __real_mmap(a, n, prot, flags, fd, off);
  auto& m = simfile::slots();
  if (!m.count(st.st_ino)) {
    size_t k = m.size();
    if (k >= simfile::SLOTS || n > simfile::SLOT) { fprintf(stderr, "simfile: out of room\n"); _exit(99); }
    m[st.st_ino] = k;
  }
  simfile::live()++;
  return sim::shared() + simfile::BASE + m[st.st_ino] * simfile::SLOT;
}
int __wrap_munmap(void* a, size_t n) {
  if (sim::shared() && simfile::ours(a)) { simfile::live()--; return 0; }
  return __real_munmap(a, n);
}
}
