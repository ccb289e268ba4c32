// Two WdtSockets and what lies between them, see spec/Crypt.tla. One line is one
// stream: enc=gcm|ctr|none tag=T iv=L w=len,len,... tamper=pos:kind ops=d:K,r:N:F,e
// wl: length of the stream after every write and after the end. d: so many more
// bytes arrive, r: a read of N bytes, F: all of them; e: the end is expected.
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <unistd.h>
#include <wdt/util/WdtSocket.h>
#include "hist.h"
using namespace facebook::wdt;
using std::string;

static std::vector<string> split(const string& s, char c) {
  std::vector<string> r;
  std::stringstream is(s);
  string x;
  while (getline(is, x, c)) {
    r.push_back(x);
  }
  return r;
}
// what is written goes to a file, which takes everything at once
static void drain(int fd, string& to) {
  char b[65536];
  ssize_t k;
  while ((k = ::pread(fd, b, sizeof b, to.size())) > 0) {
    to.append(b, k);
  }
}

int main() {
  FLAGS_minloglevel = 4;
  return sched::pool(8, 60, [](const string& line, FILE* out) {
    auto sc = sched::parse(line);
    WdtOptions wo;
    wo.read_timeout_millis = wo.write_timeout_millis = 2;
    wo.abort_check_interval_millis = 1;
    wo.encryption_tag_interval_bytes = atoi(sc["tag"].c_str());
    ThreadCtx ctx(wo, false, 0);
    std::atomic<bool> stop{false};
    WdtAbortChecker ac(stop);
    ctx.setAbortChecker(&ac);
    EncryptionParams par;
    auto key = EncryptionParams::generateEncryptionParams(ENC_AES128_GCM);
    if (sc["enc"] != "none") {
      par = EncryptionParams(sc["enc"] == "gcm" ? ENC_AES128_GCM : ENC_AES128_CTR, key.getSecret());
    }
    int a = memfd_create("wire", 0), b[2];
    if (a < 0 || socketpair(AF_UNIX, SOCK_STREAM, 0, b)) {
      abort();
    }
    fcntl(b[0], F_SETFL, O_NONBLOCK);
    long iv = atol(sc["iv"].c_str());
    int tags = 0;
    WdtSocket w(ctx, 1, par, iv, nullptr), r(ctx, 2, par, iv, [&] { tags++; });
    w.setFd(a);
    r.setFd(b[0]);
    string plain, wire, o = "\"wl\":[";
    for (auto& x : split(sc["w"], ',')) {
      string p;
      for (int i = 0; i < atoi(x.c_str()); i++) {
        p += (char)((plain.size() + i) * 131 + (plain.size() + i) / 256 + 7);
      }
      plain += p;
      bool ok = w.write(&p[0], p.size()) == (int)p.size();
      drain(a, wire);
      o += std::to_string(ok ? (long)wire.size() : -1) + ",";
    }
    w.shutdownWrites();  // cannot shut a file down, but ends the stream
    drain(a, wire);
    o += std::to_string((long)wire.size()) + "],\"res\":[";
    const string was = wire;
    auto tm = split(sc["tamper"], ':');
    if (tm.size() > 1) {
      size_t at = atol(tm[0].c_str());
      if (tm[1] == "flip") {
        wire[at] ^= 1 << (at % 8);
      } else if (tm[1] == "drop") {
        wire.erase(at, 1);
      } else if (tm[1] == "dup") {
        wire.insert(at, 1, wire[at]);
      } else if (tm[1] == "cut") {
        wire.resize(at);
      }
    }
    size_t diff = 0;
    while (diff < was.size() && diff < wire.size() && was[diff] == wire[diff]) {
      diff++;
    }
    size_t sent = 0, got = 0;
    bool first = true;
    for (auto& x : split(sc["ops"], ',')) {
      auto op = split(x, ':');
      long ret = 0;
      int good = 1;
      if (op[0] == "d") {
        size_t k = std::min<size_t>(atol(op[1].c_str()), wire.size() - sent);
        if (k && ::write(b[1], wire.data() + sent, k) != (long)k) {
          abort();
        }
        sent += k;
        if (sent == wire.size()) {
          ::shutdown(b[1], SHUT_WR);
        }
        ret = sent;
      } else if (op[0] == "r") {
        // nobody asks for more than was written: the far end says how much there is
        string buf(std::min<size_t>(atoi(op[1].c_str()), plain.size() - std::min(got, plain.size())), '\0');
        ret = buf.empty() ? 0 : r.read(&buf[0], buf.size(), op[2] == "1");
        if (ret > 0) {
          good = ret <= (long)buf.size() && got + ret <= plain.size() && memcmp(buf.data(), plain.data() + got, ret) == 0;
          got += ret;
        }
      } else {
        ret = r.expectEndOfStream() == OK;
      }
      o += string(first ? "" : ",") + "[" + std::to_string(ret) + "," + std::to_string(good) + "," + std::to_string(tags) + "]";
      first = false;
    }
    o += "],\"diff\":" + std::to_string(diff);
    fprintf(out, "R {%s}\n", o.c_str());
    close(b[1]);
  });
}
