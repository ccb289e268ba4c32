// Reads and writes blocks with the real FileByteSource and FileWriter, the
// answers of the system calls being given. One case per line:
//  read flen direct own other buf off size n (off|reply)*   -> a record (JSON)
//   reply: 0 all there is, k>0 at most k bytes, -1 EIO, -2 EINTR, -100 A: close,
//   advance by at most A bytes, open again
//  write fsize pre mustsync was waslen skip interval nblocks (off size)* nops
//        (op b n nans ans*)*
//   ans: k>0 at most k bytes, k<0 errno
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>
#include <wdt/util/FileByteSource.h>
#include <wdt/util/FileCreator.h>
#include <wdt/util/FileWriter.h>
#include <deque>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
using namespace facebook::wdt;
using std::string;

static bool armed = false;      // calls on the case's file are answered as told
static dev_t theDev;
static ino_t theIno;
static std::deque<long> script;
static bool flt, shrt, misuse, isDirect, unsynced, syncFail, closeFail, cflt;
static long writes;
static const char *bufLo, *bufHi;
static bool watchBuf = false;

static bool ours(int fd) {
  struct stat s;
  return armed && fd > 2 && fstat(fd, &s) == 0 && s.st_dev == theDev && s.st_ino == theIno;
}
template <class F>
static F real(const char* n) {
  return (F)dlsym(RTLD_NEXT, n);
}
static ssize_t doRead(int fd, void* b, size_t n, off_t o) {
  static auto f = real<ssize_t (*)(int, void*, size_t, off_t)>("pread");
  if (!ours(fd)) {
    return f(fd, b, n, o);
  }
  const char* p = (const char*)b;
  if (watchBuf && (p < bufLo || p + n > bufHi)) {
    misuse = true;
  }
  if (isDirect && (n % 4096 || o % 4096 || (uintptr_t)b % 4096)) {
    misuse = true;
  }
  long r = 0;
  if (!script.empty() && script.front() != -100) {
    r = script.front();
    script.pop_front();
  }
  if (r == -1 || r == -2) {
    flt = true;
    errno = r == -1 ? EIO : EINTR;
    return -1;
  }
  ssize_t got = f(fd, b, n, o);
  if (r > 0 && got > r) {
    shrt = true;
    memset((char*)b + r, 0x55, got - r);
    got = r;
  }
  return got;
}
static ssize_t doWrite(int fd, const void* b, size_t n, off_t o, bool at) {
  static auto f = real<ssize_t (*)(int, const void*, size_t)>("write");
  static auto fp = real<ssize_t (*)(int, const void*, size_t, off_t)>("pwrite");
  if (ours(fd)) {
    writes++;
    unsynced = true;
    if (!script.empty()) {
      long r = script.front();
      script.pop_front();
      if (r < 0) {
        if (r != -EINTR) {
          flt = true;
        }
        errno = -r;
        return -1;
      }
      if (r > 0 && (size_t)r < n) {
        n = r;
      }
    }
  }
  return at ? fp(fd, b, n, o) : f(fd, b, n);
}
extern "C" {
ssize_t pread(int fd, void* b, size_t n, off_t o) {
  return doRead(fd, b, n, o);
}
ssize_t pread64(int fd, void* b, size_t n, off64_t o) {
  return doRead(fd, b, n, o);
}
ssize_t read(int fd, void* b, size_t n) {
  static auto f = real<ssize_t (*)(int, void*, size_t)>("read");
  if (!ours(fd)) {
    return f(fd, b, n);
  }
  off_t o = lseek(fd, 0, SEEK_CUR);
  ssize_t r = doRead(fd, b, n, o);
  if (r > 0) {
    lseek(fd, o + r, SEEK_SET);
  }
  return r;
}
ssize_t write(int fd, const void* b, size_t n) {
  return doWrite(fd, b, n, 0, false);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  return doWrite(fd, b, n, o, true);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) {
  return doWrite(fd, b, n, o, true);
}
static int syncs(int fd, const char* name) {
  int r = real<int (*)(int)>(name)(fd);
  if (ours(fd)) {
    if (syncFail) {
      syncFail = false;
      flt = true;
      errno = EIO;
      return -1;
    }
    unsynced = false;
  }
  return r;
}
int fsync(int fd) {
  return syncs(fd, "fsync");
}
int fdatasync(int fd) {
  return syncs(fd, "fdatasync");
}
int close(int fd) {
  static auto f = real<int (*)(int)>("close");
  bool hit = closeFail && ours(fd);
  int r = f(fd);
  if (hit) {
    closeFail = false;
    cflt = true;
    errno = EIO;
    return -1;
  }
  return r;
}
// the file system at hand may not do direct I/O: its rules are checked above
int open(const char* p, int fl, ...) {
  static auto f = real<int (*)(const char*, int, int)>("open");
  va_list a;
  va_start(a, fl);
  int mode = fl & O_CREAT ? va_arg(a, int) : 0;
  va_end(a);
  if (armed && (fl & O_DIRECT)) {
    isDirect = true;
    fl &= ~O_DIRECT;
  }
  return f(p, fl, mode);
}
}

static sigjmp_buf jb;
static void onsig(int) {
  armed = false;
  siglongjmp(jb, 1);
}
static int fds() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d)) {
    n++;
  }
  closedir(d);
  return n;
}
static unsigned char at(int64_t p, int salt) {
  uint64_t x = (uint64_t)p * 0x9E3779B97F4A7C15ull + salt * 0x1234567ull;
  x ^= x >> 29;
  x *= 0xBF58476D1CE4E5B9ull;
  return (unsigned char)(x >> 40);
}
static void target(const string& f) {
  struct stat s;
  if (stat(f.c_str(), &s) == 0) {
    theDev = s.st_dev;
    theIno = s.st_ino;
  }
}

static string doReadCase(const string& dir, std::istringstream& is) {
  int64_t flen, buf, off, size;
  int direct, own, other, n;
  is >> flen >> direct >> own >> other >> buf >> off >> size >> n;
  script.clear();
  for (int i = 0; i < n; i++) {
    long r;
    is >> r;
    script.push_back(r);
  }
  string f = dir + "/in";
  {
    string c;
    for (int64_t i = 0; i < flen; i++) {
      c += (char)at(i, 1);
    }
    std::ofstream(f, std::ios::binary | std::ios::trunc) << c;
  }
  target(f);
  WdtOptions o;
  o.buffer_size = buf;
  o.skip_fadvise = flen % 2;
  ThreadCtx ctx(o, true), ctx2(o, true);
  SourceMetaData md;
  md.fullPath = f;
  md.relPath = "in";
  md.size = off + size;
  md.directReads = direct;
  isDirect = false;
  misuse = flt = shrt = false;
  int before = fds();
  if (own) {
    md.fd = ::open(f.c_str(), O_RDONLY);
    isDirect = direct;
  }
  std::ostringstream out;
  out << "{\"kind\":\"read\",\"flen\":" << flen << ",\"direct\":" << (direct ? "true" : "false") << ",\"passes\":[";
  bool sawDirect = false;
  {
    FileByteSource src(&md, size, off);
    FileByteSource two(&md, off + size, 0);
    int64_t got2 = 0;
    bool bad2 = false, open2 = false;
    if (other) {
      open2 = two.open(&ctx2) == OK;
    }
    bufLo = ctx.getBuffer()->getData();
    bufHi = bufLo + ctx.getBuffer()->getSize();
    bool first = true;
    while (true) {
      flt = shrt = false;
      armed = true;
      bool opened = src.open(&ctx) == OK;
      armed = false;
      sawDirect = sawDirect || isDirect;
      int64_t got = 0;
      std::ostringstream ch;
      string end;
      int k = 0;
      while (end.empty()) {
        if (src.finished()) {
          end = "fin";
        } else if (!opened || src.hasError()) {
          end = "err";
        } else if (!script.empty() && script.front() == -100) {
          end = "part";
        } else {
          int64_t s = -1;
          armed = watchBuf = true;
          char* p = src.read(s);
          armed = watchBuf = false;
          if (p != nullptr) {
            bool same = s > 0 && p >= bufLo && p + s <= bufHi;
            for (int64_t i = 0; same && i < s; i++) {
              same = (unsigned char)p[i] == at(off + got + i, 1);
            }
            ch << (k++ ? "," : "") << "{\"at\":" << (same ? off + got : -1) << ",\"k\":" << s << "}";
            got += s;
            if (s <= 0 || k > 1000) {
              end = "odd";
            }
          } else if (!src.hasError() && !src.finished()) {
            end = "nil";
          } else if (s != 0) {
            end = "size";
          }
          if (open2 && !two.finished() && !two.hasError()) {
            int64_t s2;
            char* p2 = two.read(s2);
            for (int64_t i = 0; p2 && i < s2; i++) {
              bad2 = bad2 || (unsigned char)p2[i] != at(got2 + i, 1);
            }
            got2 += s2;
          }
        }
      }
      out << (first ? "" : ",") << "{\"off\":" << off << ",\"size\":" << size << ",\"chunks\":[" << ch.str() << "],\"end\":\"" << end
          << "\",\"flt\":" << (flt ? "true" : "false") << ",\"short\":" << (shrt ? "true" : "false") << "}";
      first = false;
      while (!script.empty() && script.front() != -100) {
        script.pop_front();
      }
      if (script.empty()) {
        break;
      }
      script.pop_front();
      int64_t a = std::min<int64_t>(got, script.front());
      script.pop_front();
      src.close();
      src.advanceOffset(a);
      off += a;
      size -= a;
      if (src.getOffset() != off || src.getSize() != size) {
        misuse = true;
      }
    }
    misuse = misuse || bad2;
  }
  bool closed = false;
  if (own) {
    closed = fcntl(md.fd, F_GETFD) == -1;
    if (!closed) {
      ::close(md.fd);
    }
  }
  if (direct && !sawDirect) {
    misuse = true;  // direct reads were asked for
  }
  out << "],\"misaligned\":" << (misuse ? "true" : "false") << ",\"closedfd\":" << (closed ? "true" : "false") << ",\"leak\":" << fds() - before << "}";
  return out.str();
}

static string doWriteCase(const string& dir, std::istringstream& is) {
  int64_t fsize, waslen;
  int pre, must, skip, nb, nops;
  double interval;
  string was;
  is >> fsize >> pre >> must >> was >> waslen >> skip >> interval >> nb;
  struct B {
    BlockDetails d;
    int64_t put = 0, gave = 0;
    bool opened = false, failed = false, wflt = false, sflt = false, cflt = false, synced = false;
    string sync = "OK", close = "OK";
    std::unique_ptr<ThreadCtx> ctx;
    std::unique_ptr<FileWriter> w;
  };
  string root = dir + "/out", f = root + "/d/f";
  WdtOptions o;
  o.disable_preallocation = !pre;
  o.fsync = must;
  o.skip_writes = skip;
  o.disk_sync_interval_mb = interval;
  o.buffer_size = 4096;
  mkdir(root.c_str(), 0755);
  unlink(f.c_str());
  if (was != "new") {
    mkdir((root + "/d").c_str(), 0755);
    string c;
    for (int64_t i = 0; i < waslen; i++) {
      c += (char)at(i, 2);
    }
    std::ofstream(f, std::ios::binary | std::ios::trunc) << c;
  }
  std::vector<B> bs(nb);
  for (int i = 0; i < nb; i++) {
    auto& d = bs[i].d;
    is >> d.offset >> d.dataSize;
    d.fileName = "d/f";
    d.seqId = 7;
    d.fileSize = fsize;
    d.allocationStatus = was == "new" ? NOT_EXISTS : was == "large" ? EXISTS_TOO_LARGE : was == "small" ? EXISTS_TOO_SMALL : EXISTS_CORRECT_SIZE;
    d.prevSeqId = was == "large" ? 3 : 0;
  }
  int before = fds();
  writes = 0;
  {
    TransferLogManager log(o, root);
    FileCreator fc(root, nb, log, skip);
    for (int i = 0; i < nb; i++) {
      bs[i].ctx.reset(new ThreadCtx(o, true, i));
      bs[i].w.reset(new FileWriter(*bs[i].ctx, &bs[i].d, &fc));
    }
    is >> nops;
    for (int i = 0; i < nops; i++) {
      string op;
      int b, na;
      int64_t n;
      is >> op >> b >> n >> na;
      B& x = bs[b - 1];
      std::deque<long> ans(na);
      for (auto& a : ans) {
        is >> a;
      }
      target(f);
      flt = cflt = syncFail = closeFail = false;
      armed = true;
      if (op == "open") {
        ErrorCode e = x.w->open();
        x.opened = e == OK;
      } else if (op == "write" && x.opened && !x.failed) {
        string c;
        for (int64_t k = 0; k < n; k++) {
          c += (char)at(x.d.offset + x.put + k, 3);
        }
        script = ans;
        ErrorCode e = x.w->write(&c[0], n);
        script.clear();
        x.put += n;
        if (e == OK) {
          x.gave += n;
          if (x.w->getTotalWritten() != x.gave) {
            x.failed = true;
          }
        } else {
          x.failed = true;
        }
        x.wflt = x.wflt || flt;
        unsynced = unsynced || n > 0;
      } else if (op == "sync") {
        syncFail = na;
        x.sync = errorCodeToStr(x.w->sync());
        x.synced = !unsynced;
        x.sflt = flt;
      } else if (op == "close") {
        closeFail = na;
        x.close = errorCodeToStr(x.w->close());
        x.cflt = cflt;
      }
      armed = false;
    }
    for (auto& x : bs) {
      x.w.reset();
    }
  }
  string now;
  {
    std::ifstream in(f, std::ios::binary);
    std::stringstream ss;
    ss << in.rdbuf();
    now = ss.str();
  }
  int64_t other = 0;
  bool whole = true;
  std::vector<bool> covered(std::max<int64_t>(fsize, now.size()) + 1, false);
  std::ostringstream out;
  out << "{\"kind\":\"write\",\"blocks\":[";
  for (int i = 0; i < nb; i++) {
    B& x = bs[i];
    int64_t m = 0;
    while (m < x.d.dataSize && x.d.offset + m < (int64_t)now.size() && (unsigned char)now[x.d.offset + m] == at(x.d.offset + m, 3)) {
      m++;
    }
    for (int64_t k = 0; k < x.put; k++) {
      covered[x.d.offset + k] = true;
    }
    auto t = [](bool v) { return v ? "true" : "false"; };
    out << (i ? "," : "") << "{\"off\":" << x.d.offset << ",\"size\":" << x.d.dataSize << ",\"gave\":" << x.gave << ",\"put\":" << x.put
        << ",\"opened\":" << t(x.opened) << ",\"failed\":" << t(x.failed) << ",\"match\":" << m << ",\"wflt\":" << t(x.wflt) << ",\"oflt\":false"
        << ",\"sflt\":" << t(x.sflt) << ",\"cflt\":" << t(x.cflt) << ",\"synced\":" << t(x.synced) << ",\"sync\":\"" << x.sync << "\",\"close\":\""
        << x.close << "\"}";
  }
  int64_t keep = was == "new" || was == "large" ? 0 : std::min(waslen, fsize);
  for (int64_t p = 0; p < (int64_t)now.size(); p++) {
    if (!covered[p] && was != "large" && !skip) {
      other += (unsigned char)now[p] != (p < keep ? at(p, 2) : 0);
    }
  }
  if (skip && was != "new") {
    other += (int64_t)now.size() != waslen;
    for (int64_t p = 0; p < (int64_t)now.size(); p++) {
      other += (unsigned char)now[p] != at(p, 2);
    }
  }
  if ((int64_t)now.size() > fsize && !skip) {
    other += now.size() - fsize;
  }
  for (int64_t p = 0; p < fsize; p++) {
    whole = whole && covered[p];
  }
  out << "],\"fsize\":" << fsize << ",\"flen\":" << now.size() << ",\"pre\":" << (pre ? "true" : "false") << ",\"skip\":" << (skip ? "true" : "false")
      << ",\"mustsync\":" << (must ? "true" : "false") << ",\"whole\":" << (whole ? "true" : "false") << ",\"other\":" << other << ",\"writes\":" << writes
      << ",\"leak\":" << fds() - before << "}";
  return out.str();
}

int main(int, char** argv) {
  FLAGS_minloglevel = 4;
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onsig;
  sa.sa_flags = SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) {
    sigaction(s, &sa, nullptr);
  }
  std::ios::sync_with_stdio(false);
  string line, dir = string(argv[1]) + "/" + std::to_string(getpid());
  mkdir(dir.c_str(), 0755);
  while (std::getline(std::cin, line)) {
    string r;
    if (sigsetjmp(jb, 1) == 0) {
      std::istringstream is(line);
      string op;
      is >> op;
      r = op == "read" ? doReadCase(dir, is) : doWriteCase(dir, is);
    } else {
      r = "{\"kind\":\"crash\"}";
      armed = watchBuf = false;
    }
    std::cout << r << std::endl;
  }
}
