// Whole transfers inside one process: a Sender and a Receiver of the tree under
// test on a virtual network, scratch directories and virtual time, under the
// deterministic scheduler.  Prints one list of events per phase.
#include "hist.h"
#include "vfs.h"
#include "vnet.h"
#include "wire.h"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <openssl/evp.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <algorithm>
#include <boost/filesystem.hpp>
#include <fstream>
#include <set>
#include <gflags/gflags.h>
#include <glog/logging.h>
#include <wdt/Receiver.h>
#include <wdt/Sender.h>
#include <wdt/Wdt.h>

using namespace facebook::wdt;
namespace fs = boost::filesystem;
using hist::split;

static FILE* out_;
static std::vector<std::string> ev_;
static bool flushed_;

static void flushEvents(const char* how) {
  if (flushed_) {
    return;
  }
  flushed_ = true;
  fprintf(out_, "EV [");
  for (size_t i = 0; i < ev_.size(); i++) {
    fprintf(out_, "%s%s", i ? "," : "", ev_[i].c_str());
  }
  fprintf(out_, "]\n");
  if (*how) {
    fprintf(out_, "%s\n", how);
  }
  fflush(out_);
}

static void emit(const wire::Rec& r) {
  std::string s = "{\"e\":\"" + r.name + "\"";
  for (auto& f : r.f) {
    s += ",\"" + f.first + "\":" + f.second;
  }
  ev_.push_back(s + "}");
}
struct E {
  wire::Rec r;
  explicit E(const char* n) {
    r.name = n;
  }
  ~E() {
    emit(r);
  }
  E& i(const char* k, int64_t v) {
    r.i(k, v);
    return *this;
  }
  E& s(const char* k, const std::string& v) {
    r.s(k, v);
    return *this;
  }
  E& raw(const char* k, const std::string& v) {
    r.raw(k, v);
    return *this;
  }
};

// ------------------------------------------------------------ file contents
static const char kMarker[] = "\xde\xadWDTpln";  // 8 bytes of every 32
static std::map<std::string, int> fileIdx_;
static char contentByte(int idx, long off) {
  long r = off / 32, k = off % 32;
  if (k < 8) {
    return kMarker[k];
  }
  uint64_t x = (uint64_t)idx * 1000003 + r * 7919 + 12345;
  x ^= x >> 29;
  x *= 0xbf58476d1ce4e5b9ull;
  x ^= x >> 32;
  x += k * 0x9e3779b97f4a7c15ull;
  x ^= x >> 30;
  x *= 0x94d049bb133111ebull;
  return (char)(x >> 37);
}
static bool goodData(const std::string& rel, long off, const char* buf, long n) {
  auto it = fileIdx_.find(rel);
  if (it == fileIdx_.end()) {
    return false;
  }
  for (long k = 0; k < n; k++) {
    if (buf[k] != contentByte(it->second, off + k)) {
      return false;
    }
  }
  return true;
}
static void writeFile(const std::string& path, int idx, long size) {
  fs::create_directories(fs::path(path).parent_path());
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  std::string s(size, 0);
  for (long k = 0; k < size; k++) {
    s[k] = contentByte(idx, k);
  }
  f.write(s.data(), size);
}

// ------------------------------------------------------------ connections
static constexpr int kPort0 = 40001;
struct ConnState {
  wire::Stream s2r, r2s, r2sRead;
  long attempted[2] = {0, 0}, accepted[2] = {0, 0};
  int enc[2] = {-1, -1}, encRead = -1;  // -1 not known yet
  std::string tail[2];                  // for the search of plaintext
  std::string head[2];                  // first raw bytes
  bool rogue = false;
};
static std::map<std::pair<int, int>, ConnState> conns_;
static std::map<int, int> portVersion_;
static int rv_, sv_;
static std::string transferId_, secret_;
static thread_local bool rogueThread_;
static bool sdone_, rdone_;
static bool expectEnc_;
static bool watchDisk_;
static std::set<std::string> ivs_;
static std::map<void*, long> ivBytes_;
static long ivLimit_;
static struct : Receiver::ISocketCreator {
  std::unique_ptr<IServerSocket> makeServerSocket(ThreadCtx& t, int port, int backlog, const EncryptionParams& e, int64_t,
                                                  Func&& f, bool) override {
    return std::make_unique<ServerSocket>(t, port, backlog, e, ivLimit_, std::move(f));
  }
} fewBytes_;

static ConnState& conn(int port, int nth) {
  auto k = std::make_pair(port, nth);
  auto it = conns_.find(k);
  if (it != conns_.end()) {
    return it->second;
  }
  ConnState& c = conns_[k];
  int p = port - kPort0;
  auto msg = [p, nth, port](const char* e, const wire::Rec& r) {
    ConnState& c = conns_[{port, nth}];
    E x(e);
    x.i("p", p).i("n", nth).s("m", r.name);
    if (c.rogue) {
      x.i("x", 1);
    }
    for (auto& f : r.f) {
      if (f.first == "id") {
        x.i("id", f.second == "\"" + transferId_ + "\"");
      } else {
        x.r.f.push_back(f);
      }
    }
    if (r.name == "SETTINGS") {
      for (auto& f : r.f) {
        if (f.first == "v" && atoi(f.second.c_str()) >= 10) {
          portVersion_[port] = std::min(atoi(f.second.c_str()), rv_);
          c.r2s.version = c.r2sRead.version = portVersion_[port];
        }
      }
    }
  };
  int v = portVersion_.count(port) ? portVersion_[port] : std::min(sv_, rv_);
  c.s2r.fromSender = true;
  c.s2r.version = 0;
  c.s2r.out = [msg](const wire::Rec& r) { msg("s_msg", r); };
  c.s2r.dataDone = [p, nth] { E("s_data").i("p", p).i("n", nth); };
  c.r2s.fromSender = c.r2sRead.fromSender = false;
  c.r2s.version = c.r2sRead.version = v;
  c.r2s.out = [msg](const wire::Rec& r) { msg("r_msg", r); };
  c.r2sRead.out = [msg](const wire::Rec& r) { msg("s_got", r); };
  return c;
}

static void searchPlain(ConnState& c, int side, const char* buf, long n, int p, int nth) {
  std::string s = c.tail[side] + std::string(buf, n);
  const char* what = nullptr;
  if (s.find(kMarker) != std::string::npos) {
    what = "data";
  } else if (s.find("srcf_") != std::string::npos) {
    what = "name";
  } else if (!transferId_.empty() && s.find(transferId_) != std::string::npos) {
    what = "id";
  }
  if (!secret_.empty() && s.find(secret_) != std::string::npos) {
    what = "secret";
  }
  if (what) {
    E("leak").i("p", p).i("n", nth).i("side", side).s("what", what);
  }
  c.tail[side] = s.size() > 32 ? s.substr(s.size() - 32) : s;
}

static void setHooks() {
  vnet::hooks.connected = [](int port, int nth, bool ok, const char* why) {
    conn(port, nth).rogue = rogueThread_;
    if (ok) {
      E x("s_conn");
      x.i("p", port - kPort0).i("n", nth).i("t", sched::nowNs() / 1000000 - 1700000000000L);
      if (rogueThread_) {
        x.i("x", 1);
      }
    } else if (!rogueThread_) {
      E("s_cfail").i("p", port - kPort0).i("n", nth).s("why", why).i("d", (sched::nowNs() - vnet::connectStart) / 1000000).i("t", sched::nowNs() / 1000000 - 1700000000000L);
    }
  };
  vnet::hooks.accepted = [](int port, int nth) {
    E x("r_acc");
    x.i("p", port - kPort0).i("n", nth).i("t", sched::nowNs() / 1000000 - 1700000000000L);
    if (conn(port, nth).rogue) {
      x.i("x", 1);
    }
  };
  vnet::hooks.attempt = [](int port, int nth, int side, const char* buf, long n) {
    ConnState& c = conn(port, nth);
    long skip = std::max(0L, c.attempted[side] - c.accepted[side]);
    if (skip >= n) {
      return;
    }
    const char* p = buf + skip;
    long k = n - skip;
    c.attempted[side] = c.accepted[side] + n;
    if (c.enc[side] < 0) {
      c.enc[side] = p[0] == 'e';
      if (expectEnc_ && !c.enc[side] && !c.rogue) {
        E("plain").i("p", port - kPort0).i("n", nth).i("side", side);
      }
    }
    if (c.enc[side]) {
      searchPlain(c, side, p, k, port - kPort0, nth);
    } else {
      (side == 0 ? c.s2r : c.r2s).feed(p, k);
    }
  };
  vnet::hooks.wrote = [](int port, int nth, int side, long n) {
    ConnState& c = conn(port, nth);
    c.accepted[side] += n;
    c.attempted[side] = std::max(c.attempted[side], c.accepted[side]);
  };
  vnet::hooks.didRead = [](int port, int nth, int side, const char* buf, long n) {
    ConnState& c = conn(port, nth);
    if (side == 0 && c.encRead < 0) {
      c.encRead = buf[0] == 'e';
    }
    if (side == 0 && !c.encRead) {
      c.r2sRead.feed(buf, n);
    }
  };
  vnet::hooks.broke = [](int port, int nth, int side, const char* why) {
    E("n_broke").i("p", port - kPort0).i("n", nth).i("side", side).s("why", why);
  };
  vnet::hooks.closed = [](int port, int nth, int side) {
    E x(side == 0 ? "s_close" : "r_close");
    x.i("p", port - kPort0).i("n", nth).i("t", sched::nowNs() / 1000000 - 1700000000000L);
    if (conn(port, nth).rogue) {
      x.i("x", 1);
    }
  };
  vnet::hooks.listening = [](int port) { E("r_listen").i("p", port - kPort0); };
  vnet::hooks.unlistened = [](int port) { E("r_lclose").i("p", port - kPort0); };
  vnet::hooks.fault = [](int port, int nth, const char* kind) {
    E("n_fault").i("p", port - kPort0).i("n", nth).s("kind", kind).i("t", sched::nowNs() / 1000000 - 1700000000000L);
  };
  vnet::hooks.covered = [](int port, int nth, long off) {
    for (auto& r : conn(port, nth).s2r.covered) {
      if (off >= r.first && off < r.second) {
        return true;
      }
    }
    return false;
  };
  vfs::hooks.goodData = goodData;
  vfs::hooks.block = [](const vfs::Block& b) {
    auto c = vnet::current();
    {
      E("r_blk").i("p", c.side == 1 ? c.port - kPort0 : -1).i("n", c.nth).s("f", b.rel).i("off", b.off).i("len", b.len)
          .i("good", b.good && b.contiguous).i("sync", b.synced);
    }
  };
  vfs::hooks.op = [](const std::string& op, const std::string& rel, long arg) {
    auto c = vnet::current();
    E("d_op").s("op", op).s("f", rel).i("arg", arg).i("p", c.side == 1 ? c.port - kPort0 : -1).i("n", c.nth);
  };
  static wire::Log log;
  log.out = [](const wire::Rec& r) {
    E x("log");
    x.s("m", r.name);
    for (auto& f : r.f) {
      x.r.f.push_back(f);
    }
  };
  vfs::hooks.log = [](const char* b, long n, bool) { log.feed(b, n); };
  vfs::hooks.logSynced = [] { E("logsync"); };
  if (watchDisk_) {
    vfs::hooks.wrote = [](const std::string& rel, long off, long n, bool good) {
      E("w").s("f", rel).i("off", off).i("len", n).i("good", good);
    };
    vfs::hooks.synced = [](const std::string& rel) { E("fsy").s("f", rel); };
  }
  vfs::hooks.crash = [] {
    E("crash").i("t", sched::nowNs() / 1000000 - 1700000000000L);
    flushEvents("CRASH");
  };
  vfs::hooks.failed = [](const std::string& op, const std::string& rel) { E("d_fail").s("op", op).s("f", rel); };
}

// ------------------------------------------------------------ encryption
extern "C" {
static int reent_;
int EVP_EncryptUpdate(EVP_CIPHER_CTX* ctx, unsigned char* o, int* ol, const unsigned char* in, int il) {
  static auto r = (decltype(&EVP_EncryptUpdate))dlsym(RTLD_NEXT, "EVP_EncryptUpdate");
  auto c = vnet::current();
  std::string plain(in ? (const char*)in : "", in ? il : 0);
  int k = r(ctx, o, ol, in, il);
  if (sched::on() && c.side >= 0 && o && !rogueThread_) {
    if (il >= 8 && memcmp(o, plain.data(), il) == 0) {
      E("leak").i("p", c.port - kPort0).i("n", c.nth).i("side", c.side).s("what", "cipher");
    }
    ivBytes_[ctx] += il;
    if (ivLimit_ > 0 && ivBytes_[ctx] > ivLimit_) {
      E("ivlong").i("p", c.port - kPort0).i("n", c.nth).i("bytes", ivBytes_[ctx]);
    }
    ConnState& x = conn(c.port, c.nth);
    (c.side == 0 ? x.s2r : x.r2s).feed(plain.data(), plain.size());
  }
  return k;
}
int EVP_DecryptUpdate(EVP_CIPHER_CTX* ctx, unsigned char* o, int* ol, const unsigned char* in, int il) {
  static auto r = (decltype(&EVP_DecryptUpdate))dlsym(RTLD_NEXT, "EVP_DecryptUpdate");
  int k = r(ctx, o, ol, in, il);
  auto c = vnet::current();
  if (sched::on() && c.side == 0 && o && k == 1 && !rogueThread_) {
    conn(c.port, c.nth).r2sRead.feed((const char*)o, *ol);
  }
  return k;
}
static int finalSeen(EVP_CIPHER_CTX* ctx, int k) {
  auto c = vnet::current();
  if (sched::on() && c.side >= 0 && EVP_CIPHER_CTX_mode(ctx) == EVP_CIPH_GCM_MODE) {
    E(c.side == 1 ? "r_tag" : "s_tag").i("p", c.port - kPort0).i("n", c.nth).i("ok", k == 1);
  }
  return k;
}
int EVP_DecryptFinal(EVP_CIPHER_CTX* ctx, unsigned char* o, int* ol) {
  static auto r = (decltype(&EVP_DecryptFinal))dlsym(RTLD_NEXT, "EVP_DecryptFinal");
  if (!o) {
    static unsigned char dummy[64];
    o = dummy;
  }
  return finalSeen(ctx, r(ctx, o, ol));
}
int EVP_DecryptFinal_ex(EVP_CIPHER_CTX* ctx, unsigned char* o, int* ol) {
  static auto r = (decltype(&EVP_DecryptFinal_ex))dlsym(RTLD_NEXT, "EVP_DecryptFinal_ex");
  return finalSeen(ctx, r(ctx, o, ol));
}
int EVP_EncryptInit_ex(EVP_CIPHER_CTX* ctx, const EVP_CIPHER* type, ENGINE* impl, const unsigned char* key,
                       const unsigned char* iv) {
  static auto r = (decltype(&EVP_EncryptInit_ex))dlsym(RTLD_NEXT, "EVP_EncryptInit_ex");
  if (sched::on() && key && iv) {
    std::string k((const char*)key, 16);
    k.append((const char*)iv, 16);
    ivBytes_[ctx] = 0;
    if (!ivs_.insert(k).second) {
      auto c = vnet::current();
      E("ivreuse").i("p", c.port - kPort0).i("n", c.nth);
    }
  }
  return r(ctx, type, impl, key, iv);
}
// deterministic, and never the same twice
int RAND_bytes(unsigned char* buf, int n) {
  static uint64_t x = 88172645463325252ull;
  for (int k = 0; k < n; k++) {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    buf[k] = x >> 24;
  }
  return 1;
}
}

// ------------------------------------------------------------ options
static void setOption(WdtOptions& o, const std::string& k, const std::string& v) {
#define N(x)               \
  if (k == #x) {           \
    o.x = atof(v.c_str()); \
    return;                \
  }
#define S(x)    \
  if (k == #x) { \
    o.x = v;     \
    return;      \
  }
  N(ipv6) N(ipv4) N(skip_writes) N(ignore_open_errors) N(two_phases) N(follow_symlinks) N(start_port) N(num_ports)
  N(static_ports) N(buffer_size) N(max_retries) N(sleep_millis) N(backlog) N(avg_mbytes_per_sec) N(max_mbytes_per_sec)
  N(throttler_bucket_limit) S(include_regex) S(exclude_regex) S(prune_dir_regex) N(max_transfer_retries) N(full_reporting)
  N(progress_report_interval_millis) N(block_size_mbytes) N(accept_timeout_millis) N(max_accept_retries)
  N(accept_window_millis) N(read_timeout_millis) N(write_timeout_millis) N(connect_timeout_millis)
  N(abort_check_interval_millis) N(disk_sync_interval_mb) N(fsync) N(enable_checksum) N(transfer_log_write_interval_ms)
  N(enable_transfer_log_compaction) N(enable_download_resumption) N(keep_transfer_log)
  N(disable_sender_verification_during_resumption) N(odirect_reads) N(disable_preallocation) N(resume_using_dir_tree)
  N(open_files_during_discovery) N(overwrite) N(drain_extra_ms) S(encryption_type) N(encryption_tag_interval_bytes)
  N(send_buffer_size) N(receive_buffer_size) N(delete_extra_files) N(skip_fadvise) N(enable_heart_beat)
  N(iv_change_interval_mb) N(throughput_update_interval_millis) N(enable_perf_stat_collection)
#undef N
#undef S
  fprintf(out_, "BADOPTION %s\n", k.c_str());
}

static std::string num(const std::string& s) {
  return s.empty() ? "0" : s;
}

static void endEvent(const char* name, TransferReport& r, int np) {
  E x(name);
  auto& g = r.getSummary();
  x.s("code", errorCodeToStr(g.getErrorCode())).s("local", errorCodeToStr(g.getLocalErrorCode()));
  x.s("remote", errorCodeToStr(g.getRemoteErrorCode()));
  x.i("blocks", g.getNumBlocks()).i("files", g.getNumFiles()).i("bytes", g.getEffectiveDataBytes());
  x.i("sent", g.getNumBlocksSend()).i("failed", g.getFailedAttempts()).i("total", r.getTotalFileSize());
  x.i("prev", r.getPreviouslySentBytes()).i("data", g.getDataBytes()).i("disc", r.getNumDiscoveredFiles());
  x.i("t", sched::nowNs() / 1000000 - 1700000000000L);
  std::string th = "[";
  for (auto& t : r.getThreadStats()) {
    th += std::string(th.size() > 1 ? "," : "") + "[\"" + errorCodeToStr(t.getLocalErrorCode()) + "\",\"" +
          errorCodeToStr(t.getRemoteErrorCode()) + "\"," + std::to_string(t.getNumBlocks()) + "," +
          std::to_string(t.getEffectiveDataBytes()) + "]";
  }
  x.raw("th", th + "]");
  auto list = [&](const char* k, const std::vector<TransferStats>& v) {
    std::string l = "[";
    for (auto& t : v) {
      wire::Rec q;
      q.s("n", t.getId());
      l += std::string(l.size() > 1 ? "," : "") + "[" + q.f[0].second + "," + std::to_string(t.getEffectiveDataBytes()) +
           "," + std::to_string(t.getNumBlocks()) + ",\"" + errorCodeToStr(t.getErrorCode()) + "\"," +
           std::to_string(t.getFailedAttempts()) + "]";
    }
    x.raw(k, l + "]");
  };
  list("ok", r.getTransferredSourceStats());
  list("bad", r.getFailedSourceStats());
  std::string l = "[";
  for (auto& d : r.getFailedDirectories()) {
    wire::Rec q;
    q.s("n", d);
    l += std::string(l.size() > 1 ? "," : "") + q.f[0].second;
  }
  x.raw("dirs", l + "]");
}

// a client of the port that is no sender
static void rogue(const std::string& kind, int port, long at, WdtTransferRequest& rq) {
  rogueThread_ = true;
  sched::waitFor([&] { return (long)ev_.size() >= at || rdone_; }, -1, "rogue");
  for (size_t k = 0; k < kind.size() && kind != "none";) {
    int fd = ::socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    struct timeval tv = {2, 0};
    setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
    if (connect(fd, (struct sockaddr*)&a, sizeof a) != 0) {
      close(fd);
      E("rogue").s("kind", kind).i("p", port - kPort0).i("ok", 0);
      return;
    }
    std::string m(256, 0);
    auto settings = [&](const std::string& id, int v) {
      char b[300];
      int64_t off = 0;
      b[off++] = Protocol::SETTINGS_CMD;
      Settings s;
      s.readTimeoutMillis = 5000;
      s.writeTimeoutMillis = 5000;
      s.transferId = id;
      Protocol::encodeSettings(v, b, off, sizeof b, s);
      return std::string(b, off);
    };
    auto file = [&] {
      BlockDetails bd;
      bd.fileName = "rogue_file";
      bd.seqId = 77;
      bd.fileSize = bd.dataSize = 300;
      bd.offset = 0;
      bd.allocationStatus = NOT_EXISTS;
      char b[600];
      int64_t off = 4;
      Protocol::encodeHeader(Protocol::protocol_version, b, off, sizeof b, bd);
      b[0] = Protocol::FILE_CMD;
      b[1] = OK;
      b[2] = off & 255;
      b[3] = off >> 8;
      return std::string(b, off) + std::string(300, 'R');
    };
    auto done = [&](int64_t nb) {
      char b[256] = {0};
      int64_t off = 0;
      b[off++] = Protocol::DONE_CMD;
      b[off++] = OK;
      Protocol::encodeDone(Protocol::protocol_version, b, off, sizeof b, nb, 0);
      return std::string(b, 256);
    };
    if (kind == "file") {
      m = file() + std::string(256, 0);
    } else if (kind == "done") {
      m = done(0);
    } else if (kind == "size") {
      m = std::string("Z\x05") + std::string(256, 0);
    } else if (kind == "badid") {
      m = settings("wrong" + rq.transferId, Protocol::protocol_version) + file() + done(1);
    } else if (kind == "badver") {
      m = settings(rq.transferId, 3) + file();
    } else if (kind == "garbage") {
      for (auto& c : m) {
        c = (char)sched::rnd(256);
      }
    } else if (kind == "enc") {
      m = std::string("e") + std::string(300, '\x7f');
    } else if (kind == "byte") {
      m = "x";
    } else if (kind == "slow" || kind == "open") {
      m = "";
    }
    size_t w = 0;
    while (w < m.size()) {
      long n = write(fd, m.data() + w, m.size() - w);
      if (n <= 0) {
        break;
      }
      w += n;
    }
    E("rogue").s("kind", kind).i("p", port - kPort0).i("ok", 1);
    if (kind == "slow") {
      struct timespec ts = {1, 0};
      nanosleep(&ts, nullptr);
    }
    char b[512];
    for (int j = 0; j < 3 && kind != "byte"; j++) {
      long n = read(fd, b, sizeof b);
      if (n == 0) {
        break;
      }
    }
    close(fd);
    return;
  }
}

struct FileSpec {
  std::string name;
  long size;
  int idx;
};
static std::vector<FileSpec> fileSpecs(sched::Scenario& sc, const char* key) {
  std::vector<FileSpec> r;
  if (!sc.count(key)) {
    return r;
  }
  for (auto& f : split(sc[key], ',')) {
    auto w = split(f, ':');
    FileSpec s;
    s.name = w[0];
    s.size = atol(w[1].c_str());
    s.idx = w.size() > 2 ? atoi(w[2].c_str()) : (int)r.size();
    r.push_back(s);
  }
  return r;
}

static std::vector<std::pair<std::string, long>> listFiles(const std::string& root) {
  std::vector<std::pair<std::string, long>> r;
  fs::path d(root);
  if (fs::exists(d)) {
    for (fs::recursive_directory_iterator it(d), e; it != e; ++it) {
      if (fs::is_regular_file(it->status())) {
        r.push_back({it->path().string().substr(d.string().size() + 1), (long)fs::file_size(it->path())});
      }
    }
  }
  return r;
}

static void runPhase(sched::Scenario sc, const std::string& root) {
  auto n = [&](const char* k, long d) { return sc.count(k) ? atol(sc[k].c_str()) : d; };
  vfs::params.src = root + "/src";
  vfs::params.dst = root + "/dst";
  for (auto& f : fileSpecs(sc, "files")) {
    fileIdx_[f.name] = f.idx;
  }
  vnet::params.capacity = n("cap", 65536);
  vnet::params.seg = n("seg", 0);
  vnet::params.rstDropsRx = n("rstdrop", 0);
  if (sc.count("faults")) {
    for (auto& f : split(sc["faults"], ',')) {
      auto w = split(f, ':');
      vnet::Fault x;
      x.port = kPort0 + atoi(w[0].c_str());
      x.nth = atoi(w[1].c_str());
      x.dir = atoi(w[2].c_str());
      x.off = atol(w[3].c_str());
      x.kind = w[4];
      x.ms = w.size() > 5 ? atol(w[5].c_str()) : 0;
      vnet::params.faults.push_back(x);
    }
  }
  if (sc.count("taken")) {  // port:stranger:attempts
    for (auto& f : split(sc["taken"], ',')) {
      auto w = split(f, ':');
      vnet::Params::Taken x;
      x.port = kPort0 + atoi(w[0].c_str());
      x.stranger = atoi(w[1].c_str());
      x.tries = atoi(w[2].c_str());
      vnet::params.taken.push_back(x);
    }
    vnet::takePorts();
  }
  vfs::params.crashAt = n("crash", -1);
  vfs::params.crashMid = n("crashmid", 0);
  vfs::params.failAt = n("dfail", -1);
  vfs::params.failErrno = n("derrno", EIO);
  vfs::params.failOp = sc.count("dop") ? sc["dop"] : "";
  vfs::params.shortWrites = n("shortw", 0);
  vfs::params.srcDir = sc.count("sdirfail") ? sc["sdirfail"] : "";
  vfs::params.srcFile = sc.count("sfail") ? sc["sfail"] : "";
  vfs::params.srcLimit = n("slimit", -1);
  vfs::params.srcErrno = n("serrno", 0);
  watchDisk_ = n("logmon", 0);
  setHooks();
  if (watchDisk_) {
    std::string l;
    for (auto& f : listFiles(root + "/dst")) {
      wire::Rec r;
      r.s("n", f.first);
      l += std::string(l.empty() ? "" : ",") + "[" + r.f[0].second + "," + std::to_string(f.second) + "]";
    }
    E("start").s("rid", sc.count("rid") ? sc["rid"] : "").raw("files", "[" + l + "]");
  }
  signal(SIGPIPE, SIG_IGN);
  sched::onStuck = [](const char* why) {
    flushEvents("");
    fprintf(out_, "STUCK %s\n%s", why, sched::describe().c_str());
    fflush(out_);
  };
  signal(SIGABRT, [](int) {
    flushEvents("");
    fprintf(out_, "STUCK aborted\n");
    fflush(out_);
    _exit(72);
  });
  signal(SIGSEGV, [](int) {
    flushEvents("");
    fprintf(out_, "STUCK crashed\n");
    fflush(out_);
    _exit(73);
  });
  sv_ = n("sv", Protocol::protocol_version);
  rv_ = n("rv", Protocol::protocol_version);
  transferId_ = sc.count("id") ? sc["id"] : "transferid_" + std::to_string(n("seed", 1) % 1000);

  auto sp = hist::params(sc);
  sp.maxSteps = n("maxsteps", 3000000);
  sp.maxVirtualMs = n("maxms", 3600000);
  sched::start(sp);

  WdtOptions ro, so;
  ro.ipv4 = so.ipv4 = true;
  ro.progress_report_interval_millis = so.progress_report_interval_millis = 0;
  so.block_size_mbytes = ro.block_size_mbytes = 0.0009765625;  // 1 KB
  ro.encryption_type = so.encryption_type = "none";
  for (auto& kv : sc) {
    if (kv.first.compare(0, 3, "so.") == 0 || kv.first.compare(0, 2, "o.") == 0) {
      setOption(so, kv.first.substr(kv.first.find('.') + 1), kv.second);
    }
    if (kv.first.compare(0, 3, "ro.") == 0 || kv.first.compare(0, 2, "o.") == 0) {
      setOption(ro, kv.first.substr(kv.first.find('.') + 1), kv.second);
    }
  }
  ro.static_ports = sc.count("taken");
  int np = n("np", 2);
  WdtTransferRequest rreq(sc.count("taken") ? kPort0 : 0, np, vfs::params.dst);
  rreq.hostName = "localhost";
  rreq.transferId = transferId_;
  rreq.protocolVersion = rv_;
  auto receiver = std::make_unique<Receiver>(rreq);
  if (n("ivlimit", 0)) {  // the option counts in whole MB
    ivLimit_ = n("ivlimit", 0);
    receiver->setSocketCreator(&fewBytes_);
  }
  receiver->setWdtOptions(ro);
  std::atomic<bool> stopSender{false}, stopReceiver{false};
  if (sc.count("abort")) {
    receiver->setAbortChecker(std::make_shared<WdtAbortChecker>(stopReceiver));
  }
  if (sc.count("rid")) {
    receiver->setRecoveryId(sc["rid"]);
  }
  WdtTransferRequest got = receiver->init();
  E("r_init").s("code", errorCodeToStr(got.errorCode)).i("ports", got.ports.size());
  if (got.errorCode != OK && got.errorCode != FEWER_PORTS) {
    flushEvents("");
    return;
  }
  got.errorCode = OK;  // with fewer ports the transfer goes on
  expectEnc_ = got.encryptionData.isSet() && sv_ >= 23 && rv_ >= 23;
  secret_ = got.encryptionData.isSet() ? got.encryptionData.getSecret() : "";
  if (ivLimit_) {
    got.ivChangeInterval = ivLimit_;
  }
  std::string url = got.genWdtUrlWithSecret();
  ErrorCode rc = receiver->transferAsync();
  E("r_start").s("code", errorCodeToStr(rc));

  WdtTransferRequest sreq(url);
  sreq.directory = vfs::params.src;
  sreq.protocolVersion = sv_;
  sreq.hostName = "localhost";
  if (n("nosender", 0) == 0 && n("wrongid", 0)) {
    sreq.transferId = "another";
  }
  if (n("wrongkey", 0) && got.encryptionData.isSet()) {  // a sender with another key
    sreq.encryptionData = EncryptionParams::generateEncryptionParams(got.encryptionData.getType());
  }
  if (sc.count("manifest")) {  // explicit list of files
    for (auto& f : fileSpecs(sc, "manifest")) {
      sreq.fileInfo.emplace_back(WdtFileInfo(f.name, f.size, false));
    }
    sreq.disableDirectoryTraversal = true;
  }
  std::unique_ptr<Sender> sender;
  std::vector<std::thread> th;
  bool& sdone = sdone_;
  bool& rdone = rdone_;
  if (!n("nosender", 0)) {
    sender = std::make_unique<Sender>(sreq);
    sender->setWdtOptions(so);
    if (sc.count("abort")) {
      sender->setAbortChecker(std::make_shared<WdtAbortChecker>(stopSender));
    }
    ErrorCode sc2 = sender->transferAsync();
    E("s_start").s("code", errorCodeToStr(sc2));
    th.emplace_back([&] {
      auto rep = sender->finish();
      endEvent("s_end", *rep, np);
      sdone = true;
    });
  }
  th.emplace_back([&] {
    auto rep = receiver->finish();
    endEvent("r_end", *rep, np);
    rdone = true;
  });
  if (sc.count("abort")) {
    for (auto& a : split(sc["abort"], ',')) {
      auto w = split(a, ':');
      th.emplace_back([&, w] {
        long at = atol(w[2].c_str());
        bool s = w[0] == "s" || w[0] == "S";
        bool outside = w[0] == "S" || w[0] == "R";
        sched::waitFor([&] { return (long)ev_.size() >= at || (s ? sdone : rdone); }, -1, "aborter");
        ErrorCode c = (ErrorCode)atoi(w[1].c_str());
        E("abort").s("side", s ? "s" : "r").s("code", errorCodeToStr(c)).i("how", outside).i("t", sched::nowNs() / 1000000 - 1700000000000L);
        if (outside) {
          (s ? stopSender : stopReceiver) = true;
        } else if (s && sender) {
          sender->abort(c);
        } else {
          receiver->abort(c);
        }
        E("aborted").s("side", s ? "s" : "r").i("t", sched::nowNs() / 1000000 - 1700000000000L);
      });
    }
  }
  if (sc.count("rogue")) {
    for (auto& a : split(sc["rogue"], ',')) {
      auto w = split(a, ':');
      th.emplace_back([&, w] {
        rogue(w[0], kPort0 + atoi(w[1].c_str()), atol(w[2].c_str()), got);
        rogueThread_ = false;
      });
    }
  }
  for (auto& t : th) {
    t.join();
  }
  sender.reset();
  receiver.reset();
  E("quiet").i("conns", vnet::openConnections()).i("files", vfs::openFiles()).i("t", sched::nowNs() / 1000000 - 1700000000000L);
  flushEvents("");
}

static void listDst(const std::string& root) {
  std::string s = "DST [";
  std::vector<std::string> names;
  fs::path d(root + "/dst");
  if (fs::exists(d)) {
    for (fs::recursive_directory_iterator it(d), e; it != e; ++it) {
      if (fs::is_regular_file(it->status())) {
        names.push_back(it->path().string().substr(d.string().size() + 1));
      }
    }
  }
  std::sort(names.begin(), names.end());
  for (auto& nme : names) {
    std::ifstream f((d / nme).string(), std::ios::binary);
    std::string c((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    bool good = goodData(nme, 0, c.data(), c.size());
    // which of the contents it has, if any
    int like = -1;
    for (int k = 0; k < 40 && like < 0; k++) {
      bool same = !c.empty();
      for (size_t j = 0; j < c.size() && same; j++) {
        same = c[j] == contentByte(k, j);
      }
      if (same) {
        like = k;
      }
    }
    wire::Rec r;
    r.s("n", nme);
    s += std::string(s.size() > 5 ? "," : "") + "[" + r.f[0].second + "," + std::to_string(c.size()) + "," +
         std::to_string(good) + "," + std::to_string(like) + "]";
  }
  fprintf(out_, "%s]\n", s.c_str());
}

int main(int argc, char** argv) {
  google::InitGoogleLogging(argv[0]);
  FLAGS_logtostderr = true;
  FLAGS_minloglevel = getenv("VSIM_LOG") ? 0 : 3;
  std::string base = argv[1];
  return sched::pool(argc > 2 ? atoi(argv[2]) : 8, 60, [&](const std::string& line, FILE* out) {
    out_ = out;
    auto sc = sched::parse(line);
    std::string root = base + "/r" + std::to_string(getpid());
    int phases = sc.count("phases") ? atoi(sc["phases"].c_str()) : 1;
    for (int ph = 0; ph < phases; ph++) {
      auto s = sc;
      std::string suf = "@" + std::to_string(ph);
      for (auto& kv : sc) {
        if (kv.first.size() > suf.size() && kv.first.compare(kv.first.size() - suf.size(), suf.size(), suf) == 0) {
          s[kv.first.substr(0, kv.first.size() - suf.size())] = kv.second;
        }
      }
      // the source directory of this phase; the destination stays
      fs::remove_all(root + "/src");
      fs::create_directories(root + "/src");
      fs::create_directories(root + "/dst");
      for (auto& f : fileSpecs(s, "files")) {
        writeFile(root + "/src/" + f.name, f.idx, f.size);
      }
      for (auto& f : fileSpecs(s, ("dst" + suf).c_str())) {
        writeFile(root + "/dst/" + f.name, f.idx, f.size);
      }
      if (ph == 0) {
        for (auto& f : fileSpecs(s, "dst")) {
          writeFile(root + "/dst/" + f.name, f.idx, f.size);
        }
      }
      if (s.count("rm")) {
        for (auto& f : split(s["rm"], ',')) {
          fs::remove(root + "/dst/" + f);
        }
      }
      if (s.count("trunc")) {
        for (auto& f : fileSpecs(s, "trunc")) {
          if (fs::exists(root + "/dst/" + f.name) && (long)fs::file_size(root + "/dst/" + f.name) > f.size) {
            ::truncate((root + "/dst/" + f.name).c_str(), f.size);
          }
        }
      }
      fileIdx_.clear();
      for (auto& f : fileSpecs(s, "files")) {
        fileIdx_[f.name] = f.idx;
      }
      fprintf(out, "PHASE %d\n", ph);
      fflush(out);
      pid_t pid = fork();
      if (pid == 0) {
        runPhase(s, root);
        fflush(out);
        _exit(0);
      }
      int st;
      waitpid(pid, &st, 0);
      fprintf(out, "STATUS %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st));
      listDst(root);
      fflush(out);
    }
    fs::remove_all(root);
  });
}
