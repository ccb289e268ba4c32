// Parses and generates connection URLs.  One case per line, strings in hex:
//   uri URL | req URL | esc S | unesc S
//   gen HOST ID NS DST DIR PV IV TLS DR ET KEY BAD PORT...
// prints one JSON record, strings as lists of bytes.
#include <wdt/WdtTransferRequest.h>
#include <wdt/util/EncryptionUtils.h>
#include <iostream>
#include <sstream>
using namespace facebook::wdt;
using std::string;
static string unhex(const string& h) {
  string r;
  for (size_t i = 0; h != "-" && i + 1 < h.size(); i += 2) {
    r += (char)std::stoi(h.substr(i, 2), nullptr, 16);
  }
  return r;
}
static string js(const string& s) {
  string r = "[";
  for (unsigned char c : s) {
    r += (r.size() > 1 ? "," : "") + std::to_string(c);
  }
  return r + "]";
}
static string b(bool v) {
  return v ? "true" : "false";
}
static string fields(const WdtTransferRequest& r, bool ok) {
  string p = "[";
  for (auto x : r.ports) {
    p += (p.size() > 1 ? "," : "") + js(std::to_string(x));
  }
  return "{\"ok\":" + b(ok) + ",\"host\":" + js(r.hostName) + ",\"id\":" + js(r.transferId) + ",\"ns\":" + js(r.wdtNamespace) + ",\"dst\":" +
         js(r.destIdentifier) + ",\"dir\":" + js(r.directory) + ",\"pv\":" + js(std::to_string(r.protocolVersion)) + ",\"iv\":" +
         js(std::to_string(r.ivChangeInterval)) + ",\"tls\":" + b(r.tls) + ",\"dr\":" + b(r.downloadResumptionEnabled) + ",\"et\":" +
         std::to_string((int)r.encryptionData.getType()) + ",\"key\":" + js(r.encryptionData.getSecret()) + ",\"ports\":" + p + "]}";
}
int main() {
  string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    string k, s;
    is >> k;
    string ver = js(std::to_string(Protocol::protocol_version));
    if (k == "uri") {
      is >> s;
      s = unhex(s);
      WdtUri u(s);
      string p = "[";
      for (auto& kv : u.getQueryParams()) {
        p += string(p.size() > 1 ? "," : "") + "[" + js(kv.first) + "," + js(kv.second) + "]";
      }
      // an object used again must forget what it held
      WdtUri w("wdt://other:9?id=zz&zz=1");
      w = s;
      bool same = w.getErrorCode() == u.getErrorCode() && w.getHostName() == u.getHostName() && w.getPort() == u.getPort() &&
                  w.getQueryParams() == u.getQueryParams();
      std::cout << "{\"k\":\"" << (same ? "uri" : "reused") << "\",\"url\":" << js(s) << ",\"got\":{\"ok\":" << b(u.getErrorCode() == OK)
                << ",\"host\":" << js(u.getHostName()) << ",\"port\":" << js(std::to_string(u.getPort())) << ",\"params\":" << p << "]}}\n";
    } else if (k == "req") {
      is >> s;
      s = unhex(s);
      WdtTransferRequest r(s);
      std::cout << "{\"k\":\"req\",\"version\":" << ver << ",\"url\":" << js(s) << ",\"got\":" << fields(r, r.errorCode == OK) << "}\n";
    } else if (k == "esc") {
      is >> s;
      s = unhex(s);
      std::cout << "{\"k\":\"esc\",\"s\":" << js(s) << ",\"e\":" << js(WdtUri::escape(s)) << "}\n";
    } else if (k == "unesc") {
      is >> s;
      s = unhex(s);
      string o;
      string t = s + "0";  // the piece ends here, the memory does not
      bool ok = WdtUri::unescape(o, folly::StringPiece(t.data(), s.size()));
      std::cout << "{\"k\":\"unesc\",\"e\":" << js(s) << ",\"ok\":" << b(ok) << ",\"s\":" << js(o) << "}\n";
    } else if (k == "gen") {
      string h, id, ns, dst, dir, key;
      int64_t pv, iv;
      int tls, dr, et, bad;
      is >> h >> id >> ns >> dst >> dir >> pv >> iv >> tls >> dr >> et >> key >> bad;
      std::vector<int32_t> ports;
      int32_t p;
      while (is >> p) {
        ports.push_back(p);
      }
      WdtTransferRequest r;
      r.ports = ports;
      r.hostName = unhex(h);
      r.transferId = unhex(id);
      r.wdtNamespace = unhex(ns);
      r.destIdentifier = unhex(dst);
      r.directory = unhex(dir);
      r.protocolVersion = pv;
      r.ivChangeInterval = iv;
      r.tls = tls;
      r.downloadResumptionEnabled = dr;
      if (et) {
        r.encryptionData = EncryptionParams((EncryptionType)et, unhex(key));
      }
      if (bad) {
        r.errorCode = (ErrorCode)bad;
      }
      string url = r.genWdtUrlWithSecret();
      std::ostringstream os;
      os << r;
      WdtTransferRequest back(url);
      std::cout << "{\"k\":\"gen\",\"version\":" << ver << ",\"bad\":" << b(bad) << ",\"f\":" << fields(r, true) << ",\"url\":" << js(url)
                << ",\"log\":" << js(r.getLogSafeString()) << ",\"put\":" << js(os.str()) << ",\"got\":" << fields(back, back.errorCode == OK)
                << "}\n";
    }
    std::cout.flush();
  }
  return 0;
}
