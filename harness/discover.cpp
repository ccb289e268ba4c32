// Runs DirectorySourceQueue over a tree built in a scratch directory, as an
// unprivileged user.  usage: discover SCRATCH; one case per line, tokens:
//   d:PATH  f:PATH:SIZE:ID  l:PATH:TEXT (@ = scratch)  x:PATH (fifo)
//   O:PATH dir cannot be opened  S:PATH entries cannot be looked at
//   R:PATH file cannot be read   L:PATH:N listing fails after N entries
//   unk=1 (entry types unknown)  rev=1 (entries listed in another order)
//   follow= inc= exc= prune= (- none) open= direct= block= (bytes) par= (threads)
//   list=NAME:SIZE:HOW,...  (HOW 0 name, 1 own descriptor)  gen=...;...
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <wdt/Reporting.h>
#include <wdt/util/DirectorySourceQueue.h>
#include <algorithm>
#include <cstring>
#include <filesystem>
#include <iostream>
#include <map>
#include <sstream>
#include <mutex>
#include <set>
#include <thread>
using namespace facebook::wdt;
using std::string;
static std::map<std::pair<dev_t, ino_t>, int> failList;
static bool unk = false, rev = false;
struct Listing {
  std::vector<struct dirent> all;
  size_t pos = 0;
  int fail = -1;
};
static std::mutex mu;
static std::map<DIR*, Listing> lists;
extern "C" DIR* opendir(const char* p) {
  static auto f = (DIR * (*)(const char*)) dlsym(RTLD_NEXT, "opendir");
  static auto rd = (struct dirent * (*)(DIR*)) dlsym(RTLD_NEXT, "readdir");
  DIR* d = f(p);
  if (d) {
    Listing l;
    while (auto e = rd(d)) {
      l.all.push_back(*e);
      if (unk) {
        l.all.back().d_type = DT_UNKNOWN;
      }
    }
    std::sort(l.all.begin(), l.all.end(), [](const dirent& a, const dirent& b) { return (strcmp(a.d_name, b.d_name) < 0) != rev; });
    struct stat s;
    fstat(dirfd(d), &s);
    auto it = failList.find({s.st_dev, s.st_ino});
    if (it != failList.end()) {
      l.fail = it->second;
    }
    std::lock_guard<std::mutex> g(mu);
    lists[d] = l;
  }
  return d;
}
extern "C" struct dirent* readdir(DIR* d) {
  std::lock_guard<std::mutex> g(mu);
  Listing& l = lists[d];
  if (l.fail >= 0 && (int)l.pos >= l.fail) {
    errno = EIO;
    return nullptr;
  }
  return l.pos < l.all.size() ? &l.all[l.pos++] : nullptr;
}
static std::vector<string> split(const string& s, char c) {
  std::vector<string> r;
  std::stringstream ss(s);
  string x;
  while (std::getline(ss, x, c)) {
    r.push_back(x);
  }
  return r;
}
static int openFds() {
  int n = 0;
  for (int i = 3; i < 256; i++) {
    n += fcntl(i, F_GETFD) >= 0;
  }
  return n;
}
static string q(const string& s) {
  return "\"" + s + "\"";
}
struct Checker : IAbortChecker {
  bool shouldAbort() const override {
    return false;
  }
};
int main(int argc, char** argv) {
  if (getuid() == 0 && (setgid(65534) || setuid(65534))) {
    return 3;
  }
  umask(0);
  struct rlimit lim = {4ul << 30, 4ul << 30};
  setrlimit(RLIMIT_AS, &lim);
  setenv("PATH", "/usr/bin:/bin", 1);
  string line;
  int nth = 0;
  while (std::getline(std::cin, line)) {
    const string base = string(argv[1]) + "/c" + std::to_string(getpid()) + "_" + std::to_string(nth++);
    mkdir(base.c_str(), 0777);
    alarm(20);  // discovery ends
    std::map<string, string> kv;
    std::vector<string> dirs, order;
    failList.clear();
    std::vector<std::pair<string, int>> modes;
    auto at = [&](const string& p) { return base + "/" + p; };
    for (auto& t : split(line, ' ')) {
      if (t.size() > 1 && t[1] == ':') {
        auto a = split(t, ':');
        const string p = at(a[1]);
        if (t[0] == 'd') {
          mkdir(p.c_str(), 0777);
        } else if (t[0] == 'f') {
          int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0666);
          string body(std::stoi(a[2]), (char)std::stoi(a[3]));
          if (write(fd, body.data(), body.size()) < 0) {
            return 3;
          }
          close(fd);
        } else if (t[0] == 'l') {
          string to = a[2];
          if (to[0] == '@') {
            to = base + to.substr(1);
          }
          if (symlink(to.c_str(), p.c_str())) {
            return 3;
          }
        } else if (t[0] == 'x') {
          mkfifo(p.c_str(), 0666);
        } else if (t[0] == 'O') {
          modes.emplace_back(p, 0300);
        } else if (t[0] == 'S') {
          modes.emplace_back(p, 0600);
        } else if (t[0] == 'R') {
          modes.emplace_back(p, 0);
        } else if (t[0] == 'L') {
          struct stat s;
          stat(p.c_str(), &s);
          failList[{s.st_dev, s.st_ino}] = std::stoi(a[2]);
        }
      } else {
        auto e = t.find('=');
        kv[t.substr(0, e)] = t.substr(e + 1);
      }
    }
    for (auto it = modes.rbegin(); it != modes.rend(); ++it) {
      chmod(it->first.c_str(), it->second);
    }
    unk = kv["unk"] == "1";
    rev = kv["rev"] == "1";
    const int before = openFds();
    bool ok, again, rep, status, qerr = false;
    std::ostringstream fo, bl;
    int64_t count = 0, dup = 0;
    {
      WdtOptions opt;
      Checker ck;
      opt.open_files_during_discovery = std::stoi(kv["open"]);
      opt.odirect_reads = kv["direct"] == "1";
      opt.block_size_mbytes = std::stod(kv["block"]) / 1048576;
      DirectorySourceQueue dq(opt, at("src"), &ck);
      if (kv["follow"] == "1") {
        dq.setFollowSymlinks(true);
      }
      auto pat = [&](const char* k) { return kv[k] == "-" ? string() : kv[k]; };
      dq.setIncludePattern(pat("inc"));
      dq.setExcludePattern(pat("exc"));
      dq.setPruneDirPattern(pat("prune"));
      dq.setBlockSizeMbytes(opt.block_size_mbytes);
      dq.setOpenFilesDuringDiscovery(opt.open_files_during_discovery);
      dq.setDirectReads(opt.odirect_reads);
      auto infos = [&](const string& s) {
        std::vector<WdtFileInfo> v;
        for (auto& x : split(s, ',')) {
          auto a = split(x, ':');
          if (a[2] == "1") {
            int fd = open(at("src/" + a[0]).c_str(), O_RDONLY);
            v.emplace_back(fd, std::stoll(a[1]), a[0]);
          } else {
            v.emplace_back(a[0], std::stoll(a[1]), opt.odirect_reads);
          }
        }
        return v;
      };
      std::vector<int> own;
      std::vector<string> gens = split(kv.count("gen") ? kv["gen"] : "", ';');
      size_t g = 0;
      if (kv.count("list")) {
        auto v = infos(kv["list"] == "-" ? "" : kv["list"]);
        for (auto& x : v) {
          own.push_back(x.fd);
        }
        dq.setFileInfo(v);
        if (!gens.empty()) {
          dq.setFileInfoGenerator([&]() -> std::optional<std::vector<WdtFileInfo>> {
            if (g == gens.size()) {
              return std::nullopt;
            }
            auto r = infos(gens[g] == "-" ? "" : gens[g]);
            g++;
            for (auto& x : r) {
              own.push_back(x.fd);
            }
            return r;
          });
        }
      }
      std::vector<TransferStats> threadStats(1);
      const int par = std::stoi(kv["par"]);
      std::mutex m;
      std::set<string> seen;
      int64_t bytes = 0;
      bool first = true;
      auto pull = [&] {
        ThreadCtx ctx(opt, true);
        ctx.setAbortChecker(&ck);
        while (true) {
          ErrorCode st;
          auto s = dq.getNextSource(&ctx, st);
          if (!s) {
            std::lock_guard<std::mutex> l(m);
            qerr = qerr || st != OK;
            break;
          }
          int64_t got = 0;
          int id = -1;
          while (!s->finished()) {
            int64_t n;
            char* b = s->read(n);
            if (!b || n <= 0) {
              break;
            }
            for (int64_t i = 0; i < n; i++) {
              id = (got + i == 0) ? b[i] : (id == b[i] ? id : -2);
            }
            got += n;
          }
          if (got != s->getSize()) {
            id = -3;
          }
          std::lock_guard<std::mutex> l(m);
          bytes += got;
          const string key = s->getMetaData().relPath + ":" + std::to_string(s->getOffset()) + ":" + std::to_string(s->getSize());
          dup += !seen.insert(key).second;
          bl << (first ? "" : ",") << "{\"n\":" << q(s->getMetaData().relPath) << ",\"off\":" << s->getOffset() << ",\"len\":" << s->getSize() << ",\"good\":" << id << "}";
          first = false;
          s->close();
        }
      };
      std::vector<std::thread> th;
      for (int i = 0; i < par; i++) {
        th.emplace_back(pull);
      }
      ok = dq.buildQueueSynchronously();
      for (auto& t : th) {
        t.join();
      }
      if (!par) {
        pull();
      }
      again = dq.buildQueueSynchronously();
      count = dq.getCount();
      first = true;
      for (auto md : dq.getDiscoveredFilesMetaData()) {
        fo << (first ? "" : ",") << "{\"n\":" << q(md->relPath) << ",\"sz\":" << md->size << "}";
        first = false;
      }
      status = dq.getNumBlocksAndStatus().second == OK && !qerr;
      threadStats[0].setLocalErrorCode(OK);
      threadStats[0].addDataBytes(bytes);
      threadStats[0].addEffectiveBytes(0, bytes);
      std::vector<TransferStats> none;
      TransferReport tr(none, dq.getFailedSourceStats(), threadStats, dq.getFailedDirectories(), 1, dq.getTotalSize(), count, 0, true);
      rep = tr.getSummary().getErrorCode() == OK;
      for (int fd : own) {
        if (fd >= 0) {
          close(fd);
        }
      }
    }
    std::cout << "{\"ok\":" << std::boolalpha << ok << ",\"again\":" << again << ",\"rep\":" << rep << ",\"status\":" << status << ",\"count\":" << count
              << ",\"dup\":" << dup << ",\"leak\":" << openFds() - before << ",\"found\":[" << fo.str() << "],\"blocks\":[" << bl.str() << "]}" << std::endl;
    lists.clear();
    for (auto& m : modes) {
      chmod(m.first.c_str(), 0700);
    }
    std::error_code ec;
    std::filesystem::remove_all(base, ec);
  }
}
