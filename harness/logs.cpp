// Lets the real log manager work on logs made of given bytes, one per line:
//   op alloc tree rid cfg ip nfiles (name size)* hex
// op: match (ip "-": not verified), print, compact, write NENTRIES (C name seq
// size | B seq off len | R seq size | I seq)*
// -> status verified nfiles (seq name size nchunks (start end)*)* hex-after
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>
#include <wdt/ErrorCodes.h>
#include <wdt/util/TransferLogManager.h>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace facebook::wdt;
using std::string;

static sigjmp_buf jb;
static void onsig(int) {
  siglongjmp(jb, 1);
}
static string unhex(const string& h) {
  string r;
  for (size_t i = 0; h != "-" && i + 1 < h.size(); i += 2) {
    r += (char)std::stoi(h.substr(i, 2), nullptr, 16);
  }
  return r;
}
static string hex(const string& s) {
  static const char* d = "0123456789abcdef";
  string r;
  for (unsigned char c : s) {
    r += d[c >> 4];
    r += d[c & 15];
  }
  return r.empty() ? "-" : r;
}

static string run(const string& dir, const string& line) {
  std::istringstream is(line);
  string op, rid, ip, h;
  int alloc, tree, n;
  int64_t cfg;
  is >> op >> alloc >> tree >> rid >> cfg >> ip >> n;
  string logName = dir + "/" + kWdtLogName;
  for (int i = 0; i < n; i++) {
    string name;
    int64_t size;
    is >> name >> size;
    string f = dir + "/" + name;
    int fd = open(f.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    if (ftruncate(fd, size) != 0) {
      return "setup";
    }
    close(fd);
  }
  is >> h;
  {
    std::ofstream o(logName, std::ios::binary | std::ios::trunc);
    o << unhex(h);
  }
  WdtOptions options;
  options.enable_download_resumption = true;
  options.disable_preallocation = !alloc;
  options.resume_using_dir_tree = tree;
  options.transfer_log_write_interval_ms = 1;
  std::ostringstream out;
  ErrorCode st = OK;
  bool ver = true;
  std::vector<FileChunksInfo> info;
  TransferLogManager* m = new TransferLogManager(options, dir);
  if (m->openLog() != OK) {
    return "noopen";
  }
  if (op == "print") {
    std::ostringstream sink;
    std::streambuf* old = std::cout.rdbuf(sink.rdbuf());
    ver = m->parseAndPrint();
    std::cout.rdbuf(old);
  } else {
    st = m->parseAndMatch(rid, cfg, info);
    if (m->getResumptionStatus() != st) {
      out << "status! ";
    }
  }
  if (op == "match" && ip != "-") {
    ver = m->verifySenderIp(ip);
  }
  if (op == "compact") {
    if (!tree) {
      m->startThread();
    }
    m->compactLog();
  }
  if (op == "write") {
    m->writeLogHeader();
    m->startThread();
    int k;
    is >> k;
    for (int i = 0; i < k; i++) {
      string t, name;
      int64_t a, b, c;
      is >> t;
      if (t == "C") {
        is >> name >> a >> b;
        m->addFileCreationEntry(name, a, b);
      } else if (t == "B") {
        is >> a >> b >> c;
        m->addBlockWriteEntry(a, b, c);
      } else if (t == "R") {
        is >> a >> b;
        m->addFileResizeEntry(a, b);
      } else {
        is >> a;
        m->addFileInvalidationEntry(a);
      }
      if (i % 3 == 1) {
        usleep(1500);  // what there is gets written
      }
    }
  }
  m->closeLog();
  delete m;
  out << errorCodeToStr(st) << " " << ver << " " << info.size();
  for (auto& f : info) {
    out << " " << f.getSeqId() << " " << f.getFileName() << " " << f.getFileSize() << " " << f.getChunks().size();
    for (auto& c : f.getChunks()) {
      out << " " << c.start_ << " " << c.end_;
    }
  }
  std::ifstream in(logName, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  out << " " << hex(ss.str());
  return out.str();
}

int main(int, char** argv) {
  FLAGS_minloglevel = 4;
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onsig;
  sa.sa_flags = SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) {
    sigaction(s, &sa, nullptr);
  }
  std::ios::sync_with_stdio(false);
  string line;
  string dir = string(argv[1]) + "/" + std::to_string(getpid());
  static int gen = 0;
  static string cur;
  while (std::getline(std::cin, line)) {
    string r;
    cur = dir + "_" + std::to_string(gen);
    mkdir(cur.c_str(), 0755);
    if (sigsetjmp(jb, 1) == 0) {
      r = run(cur, line);
      for (auto f : {"a", "b", "c", kWdtLogName, kWdtBuggyLogName}) {
        unlink((cur + "/" + f).c_str());
      }
    } else {
      r = "crash";
      gen++;  // leave it alone
    }
    std::cout << r << std::endl;
  }
}
