// Encodes and decodes messages and log entries with the tree's functions, in
// memory that ends (and begins) at an unreadable page.  One case per line:
//   enc KIND VERSION OFF MAX FIELDS...      -> ok to clean hex
//   logenc KIND MAX FIELDS...               -> ok to clean hex t0 t1
//   dec KIND VERSION OFF MAX HEX            -> ok to fields...
//   list OFF MAX START N FILES...           -> n to clean hex
//   const | maxlocal V
// strings are hex, "-" if empty; any fault or failed assertion: "crash".
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <wdt/ErrorCodes.h>
#include <wdt/Protocol.h>
#include <wdt/util/EncryptionUtils.h>
#include <wdt/util/SerializationUtil.h>
#include <wdt/util/TransferLogManager.h>
#include <functional>
#include <iostream>
#include <sstream>
using namespace facebook::wdt;
using std::string;

static sigjmp_buf jb;
static void onsig(int) {
  siglongjmp(jb, 1);
}
static const size_t ROOM = 1 << 20;
static char* base;  // ROOM bytes between two unreadable pages

static string hex(const char* p, size_t n) {
  static const char* d = "0123456789abcdef";
  string r;
  for (size_t i = 0; i < n; i++) {
    r += d[(uint8_t)p[i] >> 4];
    r += d[(uint8_t)p[i] & 15];
  }
  return n ? r : "-";
}
static string hex(const string& s) {
  return hex(s.data(), s.size());
}
static string unhex(const string& h) {
  string r;
  if (h == "-") {
    return r;
  }
  for (size_t i = 0; i + 1 < h.size(); i += 2) {
    r += (char)std::stoi(h.substr(i, 2), nullptr, 16);
  }
  return r;
}
struct Args {
  std::istringstream is;
  explicit Args(const string& s) : is(s) {
  }
  uint64_t n() {
    uint64_t v = 0;
    is >> v;
    return v;
  }
  string w() {
    string v;
    is >> v;
    return v;
  }
  string s() {
    return unhex(w());
  }
};
static uint64_t micros() {
  struct timeval tv;
  gettimeofday(&tv, nullptr);
  return (uint64_t)tv.tv_sec * 1000000 + tv.tv_usec;
}

static FileChunksInfo file(Args& a) {
  FileChunksInfo f;
  f.setSeqId(a.n());
  f.setFileName(a.s());
  f.setFileSize(a.n());
  uint64_t k = a.n();
  for (uint64_t i = 0; i < k; i++) {
    uint64_t s = a.n(), e = a.n();
    f.addChunk(Interval(s, e));
  }
  return f;
}
static string show(const FileChunksInfo& f) {
  std::ostringstream o;
  o << (uint64_t)f.getSeqId() << " " << hex(f.getFileName()) << " " << (uint64_t)f.getFileSize() << " " << f.getChunks().size();
  for (auto& c : f.getChunks()) {
    o << " " << (uint64_t)c.start_ << " " << (uint64_t)c.end_;
  }
  return o.str();
}

static bool enc(const string& k, int v, char* d, int64_t& off, int64_t max, Args& a) {
  if (k == "u") {
    return encodeVarU64(d, max, off, a.n());
  }
  if (k == "i" || k == "i32") {
    return encodeVarI64(d, max, off, (int64_t)a.n());
  }
  if (k == "str") {
    return encodeString(d, max, off, a.s());
  }
  if (k == "settings") {
    Settings s;
    int ver = a.n();
    s.readTimeoutMillis = a.n();
    s.writeTimeoutMillis = a.n();
    s.transferId = a.s();
    int f = a.n();
    s.enableChecksum = f & 1;
    s.sendFileChunks = f & 2;
    s.blockModeDisabled = f & 4;
    s.enableHeartBeat = f & 8;
    return Protocol::encodeSettings(ver, d, off, max, s);
  }
  if (k == "header") {
    BlockDetails b;
    b.fileName = a.s();
    b.seqId = a.n();
    b.dataSize = a.n();
    b.offset = a.n();
    b.fileSize = a.n();
    b.allocationStatus = (FileAllocationStatus)a.n();
    b.prevSeqId = a.n();
    return Protocol::encodeHeader(v, d, off, max, b);
  }
  if (k == "checkpoints") {
    std::vector<Checkpoint> c(a.n());
    for (auto& x : c) {
      x.port = a.n();
      x.numBlocks = a.n();
      x.lastBlockReceivedBytes = a.n();
      x.lastBlockSeqId = a.n();
      x.lastBlockOffset = a.n();
    }
    return Protocol::encodeCheckpoints(v, d, off, max, c);
  }
  if (k == "done") {
    uint64_t x = a.n(), y = a.n();
    return Protocol::encodeDone(v, d, off, max, x, y);
  }
  if (k == "size") {
    return Protocol::encodeSize(d, off, max, a.n());
  }
  if (k == "abort") {
    uint64_t x = a.n(), y = a.n(), z = a.n();
    return Protocol::encodeAbort(d, off, max, x, (ErrorCode)y, z);
  }
  if (k == "chunks") {
    uint64_t x = a.n(), y = a.n();
    return Protocol::encodeChunksCmd(d, off, max, x, y);
  }
  if (k == "file") {
    FileChunksInfo f = file(a);
    return Protocol::encodeFileChunksInfo(d, off, max, f);
  }
  if (k == "encryption") {
    uint64_t t = a.n();
    string iv = a.s();
    return Protocol::encodeEncryptionSettings(d, off, max, (EncryptionType)t, iv, (int32_t)a.n());
  }
  if (k == "footer") {
    return Protocol::encodeFooter(d, off, max, (int32_t)a.n());
  }
  abort();
}

static bool dec(const string& k, int v, char* s, int64_t& off, int64_t max, std::ostream& o) {
  folly::ByteRange br, br0;
  if (k == "u" || k == "i" || k == "i32" || k == "str" || k == "file") {
    br0 = br = makeByteRange(s, max, off);
  }
  bool ok;
  if (k == "u") {
    uint64_t x = 0;
    ok = decodeUInt64(br, x);
    o << x;
  } else if (k == "i") {
    int64_t x = 0;
    ok = decodeInt64(br, x);
    o << (uint64_t)x;
  } else if (k == "i32") {
    int32_t x = 0;
    ok = decodeInt32(br, x);
    o << (uint64_t)(int64_t)x;
  } else if (k == "str") {
    string x;
    ok = decodeString(br, x);
    o << hex(x);
  } else if (k == "version") {
    int x = 0;
    ok = Protocol::decodeVersion(s, off, max, x);
    o << (uint64_t)(int64_t)x;
  } else if (k == "settings") {
    Settings x;
    x.enableChecksum = x.sendFileChunks = true;
    ok = Protocol::decodeSettings(v, s, off, max, x);
    o << (uint64_t)(int64_t)x.readTimeoutMillis << " " << (uint64_t)(int64_t)x.writeTimeoutMillis << " " << hex(x.transferId) << " "
      << x.enableChecksum + 2 * x.sendFileChunks + 4 * x.blockModeDisabled + 8 * x.enableHeartBeat;
  } else if (k == "header") {
    BlockDetails b;
    ok = Protocol::decodeHeader(v, s, off, max, b);
    o << hex(b.fileName) << " " << (uint64_t)b.seqId << " " << (uint64_t)b.dataSize << " " << (uint64_t)b.offset << " " << (uint64_t)b.fileSize << " "
      << (int)b.allocationStatus << " " << (uint64_t)b.prevSeqId;
  } else if (k == "checkpoints") {
    std::vector<Checkpoint> c;
    ok = Protocol::decodeCheckpoints(v, s, off, max, c);
    o << c.size();
    for (auto& x : c) {
      o << " " << (uint64_t)(int64_t)x.port << " " << (uint64_t)x.numBlocks << " " << (uint64_t)x.lastBlockReceivedBytes << " "
        << (uint64_t)x.lastBlockSeqId << " " << (uint64_t)x.lastBlockOffset;
    }
    // whether the receiver names the block is part of the meaning
    for (auto& x : c) {
      if (x.hasSeqId != (v >= 21)) {
        o << " hasSeqId";
      }
    }
  } else if (k == "done") {
    int64_t x = 0, y = 0;
    ok = Protocol::decodeDone(v, s, off, max, x, y);
    o << (uint64_t)x << " " << (uint64_t)y;
  } else if (k == "size") {
    int64_t x = 0;
    ok = Protocol::decodeSize(s, off, max, x);
    o << (uint64_t)x;
  } else if (k == "abort") {
    int32_t x = 0;
    ErrorCode e = OK;
    int64_t y = 0;
    ok = Protocol::decodeAbort(s, off, max, x, e, y);
    o << (uint64_t)(int64_t)x << " " << (unsigned)e << " " << (uint64_t)y;
  } else if (k == "chunks") {
    int64_t x = 0, y = 0;
    ok = Protocol::decodeChunksCmd(s, off, max, x, y);
    o << (uint64_t)x << " " << (uint64_t)y;
  } else if (k == "file") {
    FileChunksInfo f;
    ok = Protocol::decodeFileChunksInfo(br, f);
    o << show(f);
  } else if (k == "files") {
    std::vector<FileChunksInfo> l;
    ok = Protocol::decodeFileChunksInfoList(s, off, max, l);
    o << l.size();
    for (auto& f : l) {
      o << " " << show(f);
    }
  } else if (k == "encryption") {
    EncryptionType t = ENC_NONE;
    string iv;
    int32_t n = 0;
    ok = Protocol::decodeEncryptionSettings(s, off, max, t, iv, n);
    o << (uint64_t)t << " " << hex(iv) << " " << (uint64_t)(int64_t)n;
  } else if (k == "footer") {
    int32_t x = 0;
    ok = Protocol::decodeFooter(s, off, max, x);
    o << (uint64_t)(int64_t)x;
  } else {
    LogEncoderDecoder l;
    int64_t t = 0, a = 0, b = 0, c = 0;
    int ver = 0;
    string x, y;
    if (k == "HEADER") {
      ok = l.decodeLogHeader(s, max, t, ver, x, y, a);
      o << (uint64_t)t << " " << (uint64_t)(int64_t)ver << " " << hex(x) << " " << hex(y) << " " << (uint64_t)a;
    } else if (k == "CREATE") {
      ok = l.decodeFileCreationEntry(s, max, t, x, a, b);
      o << (uint64_t)t << " " << hex(x) << " " << (uint64_t)a << " " << (uint64_t)b;
    } else if (k == "BLOCK") {
      ok = l.decodeBlockWriteEntry(s, max, t, a, b, c);
      o << (uint64_t)t << " " << (uint64_t)a << " " << (uint64_t)b << " " << (uint64_t)c;
    } else if (k == "RESIZE") {
      ok = l.decodeFileResizeEntry(s, max, t, a, b);
      o << (uint64_t)t << " " << (uint64_t)a << " " << (uint64_t)b;
    } else if (k == "INVAL") {
      ok = l.decodeFileInvalidationEntry(s, max, t, a);
      o << (uint64_t)t << " " << (uint64_t)a;
    } else if (k == "DIRINVAL") {
      ok = l.decodeDirectoryInvalidationEntry(s, max, t);
      o << (uint64_t)t;
    } else {
      abort();
    }
    off = max;
  }
  if (br0.start() != nullptr) {
    off += br.start() - br0.start();
  }
  return ok;
}

static int64_t logenc(const string& k, char* d, int64_t max, Args& a) {
  LogEncoderDecoder l;
  if (k == "HEADER") {
    string x = a.s(), y = a.s();
    return l.encodeLogHeader(d, max, x, y, a.n());
  }
  if (k == "CREATE") {
    string x = a.s();
    uint64_t p = a.n(), q = a.n();
    return l.encodeFileCreationEntry(d, max, x, p, q);
  }
  if (k == "BLOCK") {
    uint64_t p = a.n(), q = a.n(), r = a.n();
    return l.encodeBlockWriteEntry(d, max, p, q, r);
  }
  if (k == "RESIZE") {
    uint64_t p = a.n(), q = a.n();
    return l.encodeFileResizeEntry(d, max, p, q);
  }
  if (k == "INVAL") {
    return l.encodeFileInvalidationEntry(d, max, a.n());
  }
  return l.encodeDirectoryInvalidationEntry(d, max);
}

static string run(const string& line) {
  Args a(line);
  string op = a.w();
  std::ostringstream o;
  if (op == "const") {
    o << "DONE " << Protocol::DONE_CMD << " FILE " << Protocol::FILE_CMD << " WAIT " << Protocol::WAIT_CMD << " ERR " << Protocol::ERR_CMD
      << " SETTINGS " << Protocol::SETTINGS_CMD << " ABORT " << Protocol::ABORT_CMD << " CHUNKS " << Protocol::CHUNKS_CMD << " ACK "
      << Protocol::ACK_CMD << " SIZE " << Protocol::SIZE_CMD << " FOOTER " << Protocol::FOOTER_CMD << " LOCAL_CHECKPOINT "
      << Protocol::LOCAL_CHECKPOINT_CMD << " ENCRYPTION " << Protocol::ENCRYPTION_CMD << " HEART_BEAT " << Protocol::HEART_BEAT_CMD << " chunksLen "
      << (int64_t)Protocol::kChunksCmdLen << " abortLen " << (int64_t)Protocol::kAbortLength << " encryptionLen "
      << (int64_t)Protocol::kEncryptionCmdLen << " V_PROGRESS " << Protocol::RECEIVER_PROGRESS_REPORT_VERSION << " V_CHECKSUM "
      << Protocol::CHECKSUM_VERSION << " V_RESUME " << Protocol::DOWNLOAD_RESUMPTION_VERSION << " V_SETTINGS_FLAG "
      << Protocol::SETTINGS_FLAG_VERSION << " V_HEADER_FLAG " << Protocol::HEADER_FLAG_AND_PREV_SEQ_ID_VERSION << " V_CP_OFFSET "
      << Protocol::CHECKPOINT_OFFSET_VERSION << " V_CP_SEQ " << Protocol::CHECKPOINT_SEQ_ID_VERSION << " V_ENC " << Protocol::ENCRYPTION_V1_VERSION
      << " V_TAGS " << Protocol::INCREMENTAL_TAG_VERIFICATION_VERSION << " V_DELETE " << Protocol::DELETE_CMD_VERSION << " V_VARINT "
      << Protocol::VARINT_CHANGE << " V_HEARTBEAT " << Protocol::HEART_BEAT_VERSION << " V_IV " << Protocol::PERIODIC_ENCRYPTION_IV_CHANGE_VERSION
      << " L_HEADER " << TransferLogManager::HEADER << " L_CREATE " << TransferLogManager::FILE_CREATION << " L_BLOCK "
      << TransferLogManager::BLOCK_WRITE << " L_INVAL " << TransferLogManager::FILE_INVALIDATION << " L_RESIZE " << TransferLogManager::FILE_RESIZE
      << " L_DIRINVAL " << TransferLogManager::DIRECTORY_INVALIDATION << " L_VERSION " << TransferLogManager::WLOG_VERSION << " S_NOT_EXISTS "
      << NOT_EXISTS << " S_CORRECT " << EXISTS_CORRECT_SIZE << " S_LARGE " << EXISTS_TOO_LARGE << " S_SMALL " << EXISTS_TOO_SMALL << " S_DELETE "
      << TO_BE_DELETED << " E_NONE " << ENC_NONE << " E_CTR " << ENC_AES128_CTR << " E_GCM " << ENC_AES128_GCM;
    return o.str();
  }
  if (op == "maxlocal") {
    o << Protocol::getMaxLocalCheckpointLength(a.n());
    return o.str();
  }
  string kind;
  int v = 0;
  int64_t off = 0, max, start = 0;
  if (op != "list") {
    kind = a.w();
  }
  if (op == "enc" || op == "dec") {
    v = a.n();
  }
  if (op != "logenc") {
    off = a.n();
  }
  max = a.n();
  char* b = base + ROOM - max;
  memset(base, 0x5a, ROOM);
  int64_t off0 = off;
  if (op == "dec") {
    string src = a.s();
    memcpy(b, src.data(), max);
    std::ostringstream f;
    bool ok = dec(kind, v, b, off, max, f);
    o << ok << " " << off << " " << f.str();
    return o.str();
  }
  if (op == "enc") {
    bool ok = enc(kind, v, b, off, max, a);
    o << ok << " " << off;
  } else if (op == "logenc") {
    uint64_t t0 = micros();
    off = logenc(kind, b, max, a);
    o << (off >= 0) << " " << off;
    uint64_t t1 = micros();
    o << " " << t0 << " " << t1;
    off = off < 0 ? 0 : off;
  } else {
    start = a.n();
    uint64_t n = a.n();
    std::vector<FileChunksInfo> l;
    for (uint64_t i = 0; i < n; i++) {
      l.emplace_back(file(a));
    }
    int64_t k = Protocol::encodeFileChunksInfoList(b, off, max, start, l);
    o << k << " " << off;
  }
  bool clean = true;
  for (char* p = base; p < b + off0; p++) {
    clean = clean && *p == 0x5a;
  }
  int64_t from = op == "list" ? 0 : off0;
  o << " " << clean << " " << (off >= from && off <= max ? hex(b + from, off - from) : "-");
  return o.str();
}

int main() {
  FLAGS_minloglevel = 4;
  char* m = (char*)mmap(nullptr, ROOM + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  base = m + 4096;
  mprotect(m, 4096, PROT_NONE);
  mprotect(base + ROOM, 4096, PROT_NONE);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onsig;
  sa.sa_flags = SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) {
    sigaction(s, &sa, nullptr);
  }
  std::ios::sync_with_stdio(false);
  string line;
  while (std::getline(std::cin, line)) {
    string r;
    if (sigsetjmp(jb, 1) == 0) {
      try {
        r = run(line);
      } catch (const std::exception&) {
        r = "crash";
      }
    } else {
      r = "crash";
    }
    std::cout << r << "\n";
  }
}
