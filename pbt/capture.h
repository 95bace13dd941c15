// Collects what a function writes to standard output.
#pragma once
#include <cstdio>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
template <class F> std::string captureStdout(F f) {
  fflush(stdout);
  int fd = memfd_create("out", 0), old = dup(1);
  if (fd < 0 || old < 0) { if (fd >= 0) close(fd); if (old >= 0) close(old); return "?"; }
  dup2(fd, 1); f(); fflush(stdout); dup2(old, 1); close(old);
  std::string s; char b[4096]; ssize_t k; lseek(fd, 0, SEEK_SET); while ((k = read(fd, b, sizeof b)) > 0) s.append(b, k);
  close(fd); return s;
}
