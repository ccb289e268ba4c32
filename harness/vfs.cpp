#include "vfs.h"
#include "vnet.h"
#include "vsched.h"
#include <dlfcn.h>
#include <errno.h>
#include <dirent.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <map>

#define REALFN(name) static auto r = (decltype(&name))dlsym(RTLD_NEXT, #name)

namespace vfs {
Params params;
Hooks hooks;
namespace {
const char* kLog = ".wdt.log";
struct File {
  bool src = false, log = false, direct = false;
  long pos = 0;
  long size0 = 0;
  Block b;
};
std::map<int, File>& files() {
  static auto* m = new std::map<int, File>;
  return *m;
}
long nops = 0;

// the path below root, or false
bool below(const std::string& root, const char* path, std::string& rel) {
  if (root.empty() || strncmp(path, root.c_str(), root.size()) != 0) {
    return false;
  }
  const char* p = path + root.size();
  while (*p == '/') {
    p++;
  }
  rel = p;
  return true;
}
File* get(int fd) {
  if (!sched::on()) {
    return nullptr;
  }
  auto it = files().find(fd);
  return it == files().end() ? nullptr : &it->second;
}
enum Act { GO, FAIL, HALF };
// called before every change below dst
Act step(const std::string& op, const std::string& rel) {
  sched::yield();
  if (!params.failOp.empty() && params.failOp != op) {
    return GO;
  }
  long n = nops++;
  if (n == params.crashAt) {
    if (params.crashMid && op == "write") {
      return HALF;
    }
    if (hooks.crash) {
      hooks.crash();
    }
    _exit(99);
  }
  if (n == params.failAt) {
    if (hooks.failed) {
      hooks.failed(op, rel);
    }
    errno = params.failErrno;
    return FAIL;
  }
  return GO;
}
void crashNow() {
  if (hooks.crash) {
    hooks.crash();
  }
  _exit(99);
}
}  // namespace
long ops() {
  return nops;
}
int openFiles() {
  return files().size();
}
}  // namespace vfs
using namespace vfs;

static int myOpen(const char* path, int flags, mode_t mode) {
  static auto r = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open");
  std::string rel;
  if (!sched::on()) {
    return r(path, flags, mode);
  }
  bool src = below(params.src, path, rel);
  bool dst = !src && below(params.dst, path, rel);
  if ((!src && !dst) || (flags & O_DIRECTORY)) {
    return r(path, flags, mode);
  }
  bool changing = dst && (flags & (O_CREAT | O_TRUNC));
  if (changing) {
    if (step("open", rel) == FAIL) {
      return -1;
    }
  } else {
    sched::yield();
  }
  File f;
  f.direct = flags & O_DIRECT;
  struct stat st;
  bool existed = ::stat(path, &st) == 0;
  int fd = r(path, flags & ~O_DIRECT, mode);
  if (fd < 0) {
    return fd;
  }
  f.src = src;
  f.log = dst && (rel == kLog || rel == ".wdt.log.bug");
  f.b.rel = rel;
  files()[fd] = f;
  if (dst && changing && !f.log && hooks.op) {
    if (!existed) {
      hooks.op("create", rel, 0);
    } else if (flags & O_TRUNC) {
      hooks.op("resize", rel, 0);
    }
  }
  return fd;
}

extern "C" {
int open(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t mode = va_arg(ap, mode_t);
  va_end(ap);
  return myOpen(path, flags, mode);
}
int open64(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t mode = va_arg(ap, mode_t);
  va_end(ap);
  return myOpen(path, flags, mode);
}
static ssize_t srcRead(File* f, int fd, void* buf, size_t n, off_t off, bool seq) {
  static auto rp = (ssize_t(*)(int, void*, size_t, off_t))dlsym(RTLD_NEXT, "pread");
  if (f->direct && ((n & 511) || (off & 511) || ((uintptr_t)buf & 511))) {
    errno = EINVAL;
    return -1;
  }
  if (f->b.rel == params.srcFile && params.srcLimit >= 0 && !params.srcFile.empty()) {
    if (off >= params.srcLimit) {
      if (params.srcErrno) {
        errno = params.srcErrno;
        return -1;
      }
      return 0;
    }
    n = std::min<size_t>(n, params.srcLimit - off);
  }
  ssize_t k = rp(fd, buf, n, off);
  if (k > 0 && hooks.srcRead) {
    hooks.srcRead(f->b.rel, off, k);
  }
  return k;
}
ssize_t read(int fd, void* buf, size_t n) {
  if (vnet::isSocket(fd)) {
    return vnet::readSock(fd, buf, n);
  }
  static auto r = (ssize_t(*)(int, void*, size_t))dlsym(RTLD_NEXT, "read");
  File* f = get(fd);
  if (f && f->src) {
    sched::yield();
    ssize_t k = srcRead(f, fd, buf, n, f->pos, true);
    f->pos += k > 0 ? k : 0;
    return k;
  }
  return r(fd, buf, n);
}
ssize_t pread(int fd, void* buf, size_t n, off_t off) {
  static auto r = (ssize_t(*)(int, void*, size_t, off_t))dlsym(RTLD_NEXT, "pread");
  File* f = get(fd);
  if (f && f->src) {
    sched::yield();
    return srcRead(f, fd, buf, n, off, false);
  }
  return r(fd, buf, n, off);
}
ssize_t pread64(int fd, void* buf, size_t n, off64_t off) {
  return pread(fd, buf, n, off);
}
static void wrote(File* f, int fd, const char* buf, long off, long n) {
  if (f->log) {
    if (hooks.log) {
      hooks.log(buf, n, false);
    }
    return;
  }
  if (f->b.off < 0) {
    f->b.off = off;
  } else if (off != f->b.off + f->b.len) {
    f->b.contiguous = false;
  }
  f->b.len += n;
  f->b.synced = false;
  bool good = !hooks.goodData || hooks.goodData(f->b.rel, off, buf, n);
  f->b.good = f->b.good && good;
  if (hooks.wrote) {
    hooks.wrote(f->b.rel, off, n, good);
  }
}
static ssize_t dstWrite(File* f, int fd, const void* buf, size_t n, off_t off) {
  static auto rp = (ssize_t(*)(int, const void*, size_t, off_t))dlsym(RTLD_NEXT, "pwrite");
  std::string rel = f->b.rel;
  Act a = step("write", rel);
  if (a == FAIL) {
    return -1;
  }
  if (a == HALF) {
    ssize_t k = rp(fd, buf, n / 2, off);
    if (k > 0) {
      wrote(f, fd, (const char*)buf, off, k);
    }
    crashNow();
  }
  if (params.shortWrites && n > 1 && !f->log && sched::rnd(3) == 0) {
    n = 1 + sched::rnd(n - 1);
  }
  ssize_t k = rp(fd, buf, n, off);
  if (k > 0) {
    wrote(f, fd, (const char*)buf, off, k);
  }
  return k;
}
ssize_t write(int fd, const void* buf, size_t n) {
  if (vnet::isSocket(fd)) {
    return vnet::writeSock(fd, buf, n);
  }
  static auto r = (ssize_t(*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write");
  static auto rl = (off_t(*)(int, off_t, int))dlsym(RTLD_NEXT, "lseek");
  File* f = get(fd);
  if (f && !f->src) {
    off_t off = rl(fd, 0, SEEK_CUR);
    ssize_t k = dstWrite(f, fd, buf, n, off);
    if (k > 0) {
      rl(fd, off + k, SEEK_SET);
    }
    return k;
  }
  return r(fd, buf, n);
}
ssize_t pwrite(int fd, const void* buf, size_t n, off_t off) {
  static auto r = (ssize_t(*)(int, const void*, size_t, off_t))dlsym(RTLD_NEXT, "pwrite");
  File* f = get(fd);
  if (f && !f->src) {
    return dstWrite(f, fd, buf, n, off);
  }
  return r(fd, buf, n, off);
}
ssize_t pwrite64(int fd, const void* buf, size_t n, off64_t off) {
  return pwrite(fd, buf, n, off);
}
int ftruncate(int fd, off_t len) {
  static auto r = (int (*)(int, off_t))dlsym(RTLD_NEXT, "ftruncate");
  File* f = get(fd);
  if (!f || f->src) {
    return r(fd, len);
  }
  std::string rel = f->b.rel;
  if (step("truncate", rel) == FAIL) {
    return -1;
  }
  int k = r(fd, len);
  if (k == 0 && hooks.op && !f->log) {
    hooks.op("resize", rel, len);
  }
  if (k == 0 && f->log && hooks.op) {
    hooks.op("logtrunc", rel, len);
  }
  return k;
}
int ftruncate64(int fd, off64_t len) {
  return ftruncate(fd, len);
}
int posix_fallocate(int fd, off_t off, off_t len) {
  static auto r = (int (*)(int, off_t, off_t))dlsym(RTLD_NEXT, "posix_fallocate");
  File* f = get(fd);
  if (!f || f->src) {
    return r(fd, off, len);
  }
  std::string rel = f->b.rel;
  if (step("fallocate", rel) == FAIL) {
    return params.failErrno;
  }
  int k = r(fd, off, len);
  if (k == 0 && hooks.op) {
    hooks.op("resize", rel, off + len);
  }
  return k;
}
int posix_fallocate64(int fd, off64_t off, off64_t len) {
  return posix_fallocate(fd, off, len);
}
int fsync(int fd) {
  static auto r = (int (*)(int))dlsym(RTLD_NEXT, "fsync");
  File* f = get(fd);
  if (!f || f->src) {
    return r(fd);
  }
  if (step("fsync", f->b.rel) == FAIL) {
    return -1;
  }
  f->b.synced = true;
  if (!f->log && hooks.synced) {
    hooks.synced(f->b.rel);
  }
  if (f->log && hooks.logSynced) {
    hooks.logSynced();
  }
  return 0;
}
int fdatasync(int fd) {
  return fsync(fd);
}
int sync_file_range(int fd, off64_t off, off64_t n, unsigned int flags) {
  static auto r = (int (*)(int, off64_t, off64_t, unsigned int))dlsym(RTLD_NEXT, "sync_file_range");
  File* f = get(fd);
  if (!f) {
    return r(fd, off, n, flags);
  }
  return 0;
}
int posix_fadvise(int fd, off_t off, off_t n, int advice) {
  static auto r = (int (*)(int, off_t, off_t, int))dlsym(RTLD_NEXT, "posix_fadvise");
  return get(fd) ? 0 : r(fd, off, n, advice);
}
int posix_fadvise64(int fd, off64_t off, off64_t n, int advice) {
  return posix_fadvise(fd, off, n, advice);
}
int unlink(const char* path) {
  static auto r = (int (*)(const char*))dlsym(RTLD_NEXT, "unlink");
  std::string rel;
  if (!sched::on() || !below(params.dst, path, rel)) {
    return r(path);
  }
  if (step("unlink", rel) == FAIL) {
    return -1;
  }
  int k = r(path);
  if (k == 0 && hooks.op) {
    hooks.op("unlink", rel, 0);
  }
  return k;
}
int rename(const char* a, const char* b) {
  static auto r = (int (*)(const char*, const char*))dlsym(RTLD_NEXT, "rename");
  std::string ra, rb;
  if (!sched::on() || !below(params.dst, a, ra)) {
    return r(a, b);
  }
  below(params.dst, b, rb);
  if (step("rename", ra) == FAIL) {
    return -1;
  }
  int k = r(a, b);
  if (k == 0 && hooks.op) {
    hooks.op("rename", ra + ">" + rb, 0);
  }
  return k;
}
DIR* opendir(const char* path) {
  static auto r = (DIR * (*)(const char*)) dlsym(RTLD_NEXT, "opendir");
  std::string rel;
  if (sched::on() && !params.srcDir.empty() && below(params.src, path, rel) && (rel == params.srcDir || rel == params.srcDir + "/")) {
    errno = EACCES;
    return nullptr;
  }
  return r(path);
}
int mkdir(const char* path, mode_t mode) {
  static auto r = (int (*)(const char*, mode_t))dlsym(RTLD_NEXT, "mkdir");
  std::string rel;
  if (!sched::on() || !below(params.dst, path, rel)) {
    return r(path, mode);
  }
  if (step("mkdir", rel) == FAIL) {
    return -1;
  }
  int k = r(path, mode);
  if (k == 0 && hooks.op) {
    hooks.op("mkdir", rel, 0);
  }
  return k;
}
int close(int fd) {
  if (vnet::isSocket(fd)) {
    return vnet::closeSock(fd);
  }
  static auto r = (int (*)(int))dlsym(RTLD_NEXT, "close");
  File* f = get(fd);
  if (!f) {
    return r(fd);
  }
  sched::yield();
  File copy = *f;
  files().erase(fd);
  int k = r(fd);
  if (!copy.src && !copy.log && hooks.block) {
    hooks.block(copy.b);
  }
  return k;
}
}
