// Preloaded into the generator: records where it writes instead of writing (files too large to keep).
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/types.h>
#include <mutex>
#include <vector>
namespace {
std::mutex m;
struct W { long long off; long long len; };
std::vector<W>* all;
void dump() {
  FILE* f = fopen(getenv("PWREC"), "w");
  for (auto& w : *all) fprintf(f, "%lld %lld\n", w.off, w.len);
  fclose(f);
}
ssize_t rec(size_t n, long long off) {
  std::lock_guard<std::mutex> l(m);
  if (!all) {
    all = new std::vector<W>;
    atexit(dump);
  }
  all->push_back({off, (long long)n});
  return n;
}
}
extern "C" ssize_t pwrite(int, const void*, size_t n, off_t off) { return rec(n, off); }
extern "C" ssize_t pwrite64(int, const void*, size_t n, off64_t off) { return rec(n, off); }
