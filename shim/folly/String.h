#pragma once
#include <cctype>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <folly/Conv.h>
#include <folly/Range.h>
namespace folly {
inline std::string errnoStr(int err) {
  char b[256];
  b[0] = 0;
  const char* r = strerror_r(err, b, sizeof b);
  return r ? std::string(r) : std::string();
}
inline std::string hexlify(const std::string& in) {
  static const char* d = "0123456789abcdef";
  std::string o;
  for (unsigned char c : in) { o.push_back(d[c >> 4]); o.push_back(d[c & 15]); }
  return o;
}
inline std::string backslashify(const std::string& in) {
  std::string o;
  for (unsigned char c : in) {
    if (c >= 32 && c < 127) { o.push_back((char)c); continue; }
    char b[8];
    snprintf(b, sizeof b, "\\x%02x", c);
    o += b;
  }
  return o;
}
inline std::string humanify(const std::string& in) {
  size_t np = 0;
  for (unsigned char c : in) if (c < 0x20 || c >= 0x7f) ++np;
  if (np == 0) return in;
  if (5 * np >= 4 * in.size()) return "0x" + hexlify(in);
  return backslashify(in);
}
template <class Delim, class T>
void split(const Delim& delim, StringPiece in, std::vector<T>& out, bool ignoreEmpty = false) {
  std::string d; detail::Append<std::decay_t<std::conditional_t<std::is_array<Delim>::value, const char*, Delim>>>::go(&d, delim);
  size_t pos = 0;
  StringPiece dp(d);
  while (true) {
    size_t n = d.empty() ? StringPiece::npos : in.find(dp, pos);
    StringPiece tok = (n == StringPiece::npos) ? in.subpiece(pos) : in.subpiece(pos, n - pos);
    if (!(ignoreEmpty && tok.empty())) out.push_back(to<T>(tok));
    if (n == StringPiece::npos) break;
    pos = n + d.size();
  }
}
template <class Delim, class C>
std::string join(const Delim& delim, const C& c) {
  std::string s; bool first = true;
  for (auto& x : c) { if (!first) toAppend(delim, &s); toAppend(x, &s); first = false; }
  return s;
}
inline StringPiece ltrimWhitespace(StringPiece p) { while (!p.empty() && std::isspace((unsigned char)p.front())) p.pop_front(); return p; }
inline StringPiece rtrimWhitespace(StringPiece p) { while (!p.empty() && std::isspace((unsigned char)p.back())) p.pop_back(); return p; }
inline StringPiece trimWhitespace(StringPiece p) { return rtrimWhitespace(ltrimWhitespace(p)); }
}
