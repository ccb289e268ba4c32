// Programs over the file creator, see spec/FileOpen.tla. usage: fileopen DIR
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <atomic>
#include <condition_variable>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#define protected public
#define private public
#include <wdt/util/TransferLogManager.h>
#include <wdt/util/FileCreator.h>
#undef protected
#undef private
#include <wdt/util/ThreadTransferHistory.h>
#include "hist.h"
using namespace facebook::wdt;
using std::string;

extern "C" int posix_fallocate(int fd, off_t o, off_t n) {
  static auto f = (int (*)(int, off_t, off_t))dlsym(RTLD_NEXT, "posix_fallocate");
  if (sched::on()) {
    sched::yield();
  }
  int r = n == 9 ? ENOSPC : f(fd, o, n);
  if (sched::on()) {
    sched::yield();
  }
  return r;
}
extern "C" int ftruncate(int fd, off_t n) noexcept {
  static auto f = (int (*)(int, off_t))dlsym(RTLD_NEXT, "ftruncate");
  if (sched::on()) {
    sched::yield();
  }
  if (n == 7) {
    errno = EIO;
    return -1;
  }
  int r = f(fd, n);
  if (sched::on()) {
    sched::yield();
  }
  return r;
}
extern "C" int mkdir(const char* p, mode_t m) noexcept {
  static auto f = (int (*)(const char*, mode_t))dlsym(RTLD_NEXT, "mkdir");
  if (sched::on()) {
    sched::yield();
  }
  int r = f(p, m);
  if (sched::on()) {
    int e = errno;
    sched::yield();
    errno = e;
  }
  return r;
}
static int fdCount() {
  int n = 0;
  for (int i = 0; i < 256; i++) {
    n += fcntl(i, F_GETFD) >= 0;
  }
  return n;
}

// the log's entries are kept in memory, not written, if its fields are named as
// they were; otherwise there is no log here
template <class T>
auto keepLog(T* t, int) -> decltype((void)t->entries_.front().size(), (void)(t->headerWritten_ = true), (void)(t->fd_ = 1), true) {
  t->fd_ = 1 << 20;
  t->headerWritten_ = true;
  return true;
}
template <class T>
bool keepLog(T*, long) {
  return false;
}
template <class T>
auto logEntries(T* t, int) -> decltype((void)t->entries_.front().size(), std::vector<string>()) {
  return t->entries_;
}
template <class T>
std::vector<string> logEntries(T*, long) {
  return {};
}

int main(int argc, char** argv) {
  FLAGS_minloglevel = 4;
  if (argc < 2) {
    WdtOptions o;
    TransferLogManager l(o, "/nowhere");
    puts(keepLog(&l, 0) ? "log" : "nolog");
    fflush(stdout);
    _exit(0);
  }
  const string base = argv[1];
  return sched::pool(8, 30, [&](const string& line, FILE* out) {
    auto sc = sched::parse(line);
    auto num = [&](const char* k) { return atoi(sc[k].c_str()); };
    const string root = base + "/o" + std::to_string(getpid());
    mkdir(root.c_str(), 0777);
    auto put = [&](const string& f, const char* k) {
      if (num(k) >= 0) {
        std::filesystem::create_directories(std::filesystem::path(root + "/" + f).parent_path());
        std::ofstream(root + "/" + f) << string(num(k), (char)7);
      }
    };
    put("f1", "f1");
    put("f2", "f2");
    put("d/f3", "f3");
    put("d/e/f4", "f4");
    std::ofstream(root + "/x") << "x";
    WdtOptions o;
    o.overwrite = num("ow");
    o.enable_download_resumption = num("res");
    o.resume_using_dir_tree = num("tree");
    o.disable_preallocation = !num("pre");
    auto* tlm = new TransferLogManager(o, root);
    keepLog(tlm, 0);
    int n = 0;
    while (sc.count("t" + std::to_string(n))) {
      n++;
    }
    auto* fc = new FileCreator(root, n, *tlm, false);
    std::vector<ThreadCtx*> ctx;
    std::vector<int> fd(n, -1);
    for (int i = 0; i < n; i++) {
      ctx.push_back(new ThreadCtx(o, false, i));
    }
    const int fds0 = fdCount();
    int byes = 0;
    LogEncoderDecoder dec;
    const std::map<string, FileAllocationStatus> hows = {{"NOT_EXISTS", NOT_EXISTS}, {"TOO_LARGE", EXISTS_TOO_LARGE}, {"TOO_SMALL", EXISTS_TOO_SMALL},
                                                         {"CORRECT", EXISTS_CORRECT_SIZE}, {"DELETE", TO_BE_DELETED}};
    hist::runThreads(sc, out, [&](int t, const std::vector<string>& op, hist::Prog&) -> string {
      const string& w = op[0];
      auto arg = [&](size_t i) { return atoi(op[i].c_str()); };
      if (w == "open") {
        if (fd[t] >= 0) {
          close(fd[t]);
        }
        BlockDetails b;
        b.fileName = op[1];
        b.seqId = arg(2);
        b.fileSize = arg(3);
        b.offset = 0;
        b.dataSize = 1;
        b.allocationStatus = hows.at(op[4]);
        b.prevSeqId = arg(2) + 10;
        fd[t] = fc->openForBlocks(*ctx[t], &b);
        return fd[t] >= 0 ? "true" : "false";
      } else if (w == "write") {
        string s(arg(3), (char)arg(2));
        return fd[t] >= 0 && pwrite(fd[t], s.data(), s.size(), arg(1)) == (ssize_t)s.size() ? "true" : "false";
      } else if (w == "blk") {
        if (fd[t] >= 0 && o.isLogBasedResumption()) {
          tlm->addBlockWriteEntry(arg(1), 0, 1);
        }
        return fd[t] >= 0 ? "true" : "false";
      } else if (w == "read") {
        std::ifstream f(root + "/" + op[1]);
        if (!f) {
          return "[-1]";
        }
        string r = "[";
        char c;
        while (f.get(c)) {
          r += (r.size() > 1 ? "," : "") + std::to_string((int)c);
        }
        return r + "]";
      } else if (w == "log") {
        string r = "[";
        for (auto& e : logEntries(tlm, 0)) {
          int16_t size;
          memcpy(&size, e.data(), 2);
          char* p = const_cast<char*>(e.data()) + 3;
          int64_t ts, q, z, off;
          string name, x = "[\"?\"]";
          switch (e[2]) {
            case TransferLogManager::FILE_CREATION:
              if (dec.decodeFileCreationEntry(p, size - 1, ts, name, q, z)) {
                x = "[\"C\"," + std::to_string(q) + "," + std::to_string(z) + ",\"" + name + "\"]";
              }
              break;
            case TransferLogManager::FILE_RESIZE:
              if (dec.decodeFileResizeEntry(p, size - 1, ts, q, z)) {
                x = "[\"R\"," + std::to_string(q) + "," + std::to_string(z) + "]";
              }
              break;
            case TransferLogManager::BLOCK_WRITE:
              if (dec.decodeBlockWriteEntry(p, size - 1, ts, q, off, z)) {
                x = "[\"B\"," + std::to_string(q) + "]";
              }
              break;
            case TransferLogManager::FILE_INVALIDATION:
              if (dec.decodeFileInvalidationEntry(p, size - 1, ts, q)) {
                x = "[\"I\"," + std::to_string(q) + "]";
              }
              break;
          }
          r += (r.size() > 1 ? "," : "") + x;
        }
        return r + "]";
      } else if (w == "clear") {
        fc->clearAllocationMap();
      } else if (w == "rmdir") {
        std::filesystem::remove_all(root + "/d");
      } else if (w == "fds") {
        int held = 0;
        for (int f : fd) {
          held += f >= 0;
        }
        return std::to_string(fdCount() - fds0 - held);
      } else if (w == "bye") {
        byes++;
      } else if (w == "join") {
        sched::waitFor([&] { return byes == n - 1; }, -1, "join");
      }
      return "true";
    });
    hist::dump(out);
    std::error_code ec;
    std::filesystem::remove_all(root, ec);
    fflush(out);
    _exit(0);
  });
}
