// Prints what the Bigram class says about pairs of byte pairs.
#include <cstdio>
#include <sstream>
#include <string>
#include <vector>
#include "wdt/bench/Bigram.h"

static std::string seq(const std::string& s) {
  std::string r = "[";
  for (size_t i = 0; i < s.size(); i++) r += (i ? "," : "") + std::to_string((unsigned char)s[i]);
  return r + "]";
}

int main() {
  std::vector<int> x(4);
  std::vector<Bigram> all;
  while (scanf("%d %d %d %d", &x[0], &x[1], &x[2], &x[3]) == 4) {
    Bigram a((char)x[0], (char)x[1]), b((char)x[2], (char)x[3]);
    auto B = [](bool v) { return v ? "true" : "false"; };
    std::string bin, at;
    a.toBinary(bin);
    at.push_back(a[0]);
    at.push_back(a[1]);
    std::ostringstream os;
    a.binarySerialize(os);
    std::istringstream is(os.str());
    Bigram c;
    bool ok[3];
    for (size_t n = 0; n < 3; n++) {
      std::istringstream i2(os.str().substr(0, n));
      Bigram t;
      ok[n] = t.binaryDeserialize(i2);
    }
    c.binaryDeserialize(is);
    std::string back;
    c.toBinary(back);
    printf("{\"k\":\"pair\",\"x\":[%d,%d],\"y\":[%d,%d],\"eq\":%s,\"ne\":%s,\"lt\":%s,\"gt\":%s,\"hash\":%s,\"at\":%s,\"bin\":%s,\"ser\":%s,"
           "\"back\":%s,\"short\":[%s,%s,%s]}\n", x[0], x[1], x[2], x[3], B(a == b), B(a != b), B(a < b), B(b < a),
           B(std::hash<Bigram>()(a) == std::hash<Bigram>()(b)), seq(at).c_str(), seq(bin).c_str(), seq(os.str()).c_str(), seq(back).c_str(),
           B(ok[0]), B(ok[1]), B(ok[2]));
  }
}
