// Decoding of what passes over a connection, independent of the tree's own
// encoder: messages become records of words and numbers.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace wire {
struct Rec {
  std::string name;
  std::vector<std::pair<std::string, std::string>> f;  // JSON values
  void i(const char* k, int64_t v) {
    f.push_back({k, std::to_string(v)});
  }
  void s(const char* k, const std::string& v) {
    std::string r = "\"";
    for (unsigned char c : v) {
      if (c == '"' || c == '\\' || c < 32 || c > 126) {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", c);
        r += b;
      } else {
        r += c;
      }
    }
    f.push_back({k, r + "\""});
  }
  void raw(const char* k, const std::string& v) {
    f.push_back({k, v});
  }
};

// reads out of a prefix of a stream; ok becomes false when it is too short
struct In {
  const std::string& b;
  size_t p = 0;
  bool ok = true;
  uint8_t u8() {
    if (p >= b.size()) {
      ok = false;
      return 0;
    }
    return b[p++];
  }
  uint64_t var() {
    uint64_t v = 0;
    for (int k = 0; k < 10; k++) {
      uint8_t c = u8();
      if (!ok) {
        return 0;
      }
      if (k == 9) {  // pre 1.27 -1
        break;
      }
      if (k == 8) {
        v |= (uint64_t)c << 56;
        return v;
      }
      v |= (uint64_t)(c & 127) << (7 * k);
      if (!(c & 128)) {
        return v;
      }
    }
    return v;
  }
  int64_t le(int n) {
    uint64_t v = 0;
    for (int k = 0; k < n; k++) {
      v |= (uint64_t)u8() << (8 * k);
    }
    if (n == 4) {
      return (int32_t)v;
    }
    if (n == 2) {
      return (int16_t)v;
    }
    return v;
  }
  std::string str() {
    uint64_t n = var();
    if (!ok || n > b.size() - p) {
      ok = false;
      return "";
    }
    std::string r = b.substr(p, n);
    p += n;
    return r;
  }
  void skip(size_t n) {
    if (b.size() - p < n) {
      ok = false;
    } else {
      p += n;
    }
  }
};

inline bool checkpoint(In& in, int v, std::string& out) {
  int64_t port = in.var(), nb = in.var(), bytes = 0, seq = 0, off = 0;
  if (v >= 16) {
    bytes = in.var();
  }
  if (v >= 21) {
    seq = in.var();
    off = in.var();
  }
  out = "{\"port\":" + std::to_string(port) + ",\"nb\":" + std::to_string(nb) + ",\"rcv\":" + std::to_string(bytes) +
        ",\"seq\":" + std::to_string(seq) + ",\"off\":" + std::to_string(off) + "}";
  return in.ok;
}

// one direction of one connection
struct Stream {
  bool fromSender = true;
  int version = 0;           // negotiated, where known
  std::string buf;
  long skip = 0;             // data bytes to come
  long dataSeen = 0;
  long pos = 0;  // consumed so far
  std::vector<std::pair<long, long>> covered;  // stream ranges of data and footers
  bool garbage = false;
  long chunksLeft = -1;
  bool checksum = false, wantFooter = false;
  std::function<void(const Rec&)> out;
  std::function<void()> dataDone;

  void feed(const char* p, long n) {
    buf.append(p, n);
    while (!garbage && step()) {
    }
  }

 private:
  bool take(In& in, const Rec& r) {
    if (!in.ok) {
      return false;
    }
    buf.erase(0, in.p);
    pos += in.p;
    if (r.name == "FOOTER") {
      covered.push_back({pos - (long)in.p, pos});
    }
    out(r);
    return true;
  }
  bool step() {
    if (skip > 0) {
      long k = std::min<long>(skip, buf.size());
      buf.erase(0, k);
      pos += k;
      skip -= k;
      dataSeen += k;
      if (skip > 0) {
        return false;
      }
      if (dataDone) {
        dataDone();
      }
    }
    if (buf.empty()) {
      return false;
    }
    In in{buf};
    Rec r;
    if (!fromSender && chunksLeft > 0) {
      int64_t size = in.le(4);
      if (!in.ok || (int64_t)buf.size() < 4 + size) {
        return false;
      }
      size_t end = 4 + size;
      std::string list = "[";
      while (in.ok && in.p < end) {
        int64_t seq = in.var();
        std::string name = in.str();
        int64_t fs = in.var(), nc = in.var();
        Rec x;
        x.s("name", name);
        list += std::string(list.size() > 1 ? "," : "") + "{\"seq\":" + std::to_string(seq) + ",\"name\":" + x.f[0].second +
                ",\"fs\":" + std::to_string(fs) + ",\"chunks\":[";
        for (int64_t k = 0; k < nc && in.ok; k++) {
          int64_t a = in.var(), b = in.var();
          list += std::string(k ? "," : "") + "[" + std::to_string(a) + "," + std::to_string(b) + "]";
        }
        list += "]}";
        chunksLeft--;
      }
      r.name = "LIST";
      r.raw("files", list + "]");
      if (in.p != end) {
        in.ok = false;
      }
      if (chunksLeft <= 0) {
        chunksLeft = -1;
      }
      if (!in.ok) {
        garbage = true;
        r = Rec();
        r.name = "GARBAGE";
        out(r);
        return false;
      }
      return take(in, r);
    }
    char c = in.u8();
    if (fromSender) {
      switch (c) {
        case 'S': {
          r.name = "SETTINGS";
          int v = in.var();
          r.i("v", v);
          r.i("rto", in.var());
          r.i("wto", in.var());
          r.s("id", in.str());
          int fl = v >= 12 ? in.u8() : 0;
          r.i("chk", fl & 1);
          r.i("chunks", (fl >> 1) & 1);
          r.i("noblocks", (fl >> 2) & 1);
          r.i("hb", (fl >> 3) & 1);
          if (in.ok && (fl & 2)) {
            if (buf.size() < 256) {
              return false;
            }
            in.p = 256;
          }
          if (in.ok) {
            version = v;
            checksum = fl & 1;
          }
          return take(in, r);
        }
        case 'L': {
          r.name = "FILE";
          int st = in.u8();
          int len = in.le(2);
          if (!in.ok || (int)buf.size() < len) {
            return false;
          }
          std::string name = in.str();
          int64_t seq = in.var(), data = in.var(), off = in.var(), fs = in.var();
          int flags = 0;
          int64_t prev = 0;
          if (version >= 13) {
            flags = in.u8() & 7;
            if (flags == 2 || flags == 3) {
              prev = in.var();
            }
          }
          if (!in.ok || (int)in.p != len) {
            garbage = true;
            r.name = "GARBAGE";
            out(r);
            return false;
          }
          r.i("st", st);
          r.s("name", name);
          r.i("seq", seq);
          r.i("len", data);
          r.i("off", off);
          r.i("fs", fs);
          r.i("fl", flags);
          r.i("prev", prev);
          buf.erase(0, in.p);
          pos += in.p;
          covered.push_back({pos, pos + data});
          skip = data;
          dataSeen = 0;
          out(r);
          if (data == 0 && dataDone) {
            dataDone();
          }
          return true;
        }
        case 'F':
          r.name = "FOOTER";
          r.i("crc", in.var());
          return take(in, r);
        case 'Z':
          r.name = "SIZE";
          r.i("size", in.var());
          return take(in, r);
        case 'D':
          // alone it answers the receiver's
          if (version && buf.size() >= 256) {
            r.name = "DONE";
            r.i("st", in.u8());
            r.i("nb", in.var());
            r.i("bytes", version >= 16 ? (int64_t)in.var() : -1);
            in.p = 256;
            return take(in, r);
          }
          return false;
        case 'a':
          r.name = "ACK";
          return take(in, r);
      }
    } else {
      switch (c) {
        case 1: {
          int n = 30 + (version >= 16 ? 10 : 0) + (version >= 21 ? 20 : 0);
          if ((int)buf.size() < n) {
            return false;
          }
          std::string k;
          checkpoint(in, version, k);
          in.p = n;
          r.name = "LCP";
          r.raw("cp", k);
          return take(in, r);
        }
        case 'W':
          r.name = "WAIT";
          return take(in, r);
        case 'a':
          r.name = "ACK";
          return take(in, r);
        case 'H':
          r.name = "HB";
          return take(in, r);
        case 'D':
          r.name = "DONE";
          return take(in, r);
        case 'A':
          r.name = "ABORT";
          r.i("v", in.le(4));
          r.i("code", in.u8());
          r.i("cp", in.le(8));
          return take(in, r);
        case 'E': {
          r.name = "ERR";
          int n = in.le(2);
          if (!in.ok || (int)buf.size() < 3 + n) {
            return false;
          }
          uint64_t k = in.var();
          std::string l = "[";
          for (uint64_t j = 0; j < k && in.ok; j++) {
            std::string x;
            checkpoint(in, version, x);
            l += (j ? "," : "") + x;
          }
          r.raw("cps", l + "]");
          in.p = 3 + n;
          return take(in, r);
        }
        case 'C':
          r.name = "CHUNKS";
          r.i("buf", in.le(8));
          chunksLeft = -1;
          {
            int64_t k = in.le(8);
            r.i("k", k);
            if (!take(in, r)) {
              return false;
            }
            chunksLeft = k;
          }
          return true;
      }
    }
    garbage = true;
    r.name = "GARBAGE";
    r.i("byte", (unsigned char)c);
    out(r);
    return false;
  }
};

// transfer log
struct Log {
  std::string buf;
  std::function<void(const Rec&)> out;
  void feed(const char* p, long n) {
    buf.append(p, n);
    for (;;) {
      In in{buf};
      int64_t size = in.le(2);
      if (!in.ok || (int64_t)buf.size() < 2 + size) {
        return;
      }
      int type = in.u8();
      in.var();
      Rec r;
      switch (type) {
        case 0:
          r.name = "HEADER";
          r.i("v", in.var());
          r.s("rid", in.str());
          r.s("ip", in.str());
          r.i("cfg", in.var());
          break;
        case 1:
          r.name = "CREATE";
          r.s("name", in.str());
          r.i("seq", in.var());
          r.i("fs", in.var());
          break;
        case 2:
          r.name = "BLOCK";
          r.i("seq", in.var());
          r.i("off", in.var());
          r.i("len", in.var());
          break;
        case 3:
          r.name = "INVAL";
          r.i("seq", in.var());
          break;
        case 4:
          r.name = "RESIZE";
          r.i("seq", in.var());
          r.i("fs", in.var());
          break;
        case 5:
          r.name = "DIRINVAL";
          break;
        default:
          r.name = "BAD";
      }
      if (!in.ok || in.p != (size_t)(2 + size)) {
        r.name = "BAD";
      }
      buf.erase(0, 2 + size);
      out(r);
    }
  }
};
}  // namespace wire
