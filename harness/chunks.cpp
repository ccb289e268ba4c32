// Runs the range bookkeeping of the real FileChunksInfo on cases generated by
// spec/Chunks.tla: "scale size off n s1 e1 s2 e2 ..." per line.
#include <wdt/Protocol.h>
#include <iostream>
#include <sstream>
using namespace facebook::wdt;
int main() {
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    int64_t scale, size, n;
    is >> scale >> size >> n;
    std::string name = "f";
    FileChunksInfo info(1, name, size * scale);
    for (int64_t i = 0; i < n; i++) {
      int64_t s, e;
      is >> s >> e;
      if (s == -1) { info.mergeChunks(); continue; }
      info.addChunk(Interval(s * scale, e * scale));
    }
    info.mergeChunks();
    std::ostringstream os;
    for (auto& c : info.getChunks()) os << c.start_ << " " << c.end_ << " ";
    os << "| " << info.getTotalChunkSize() << " |";
    for (auto& c : info.getRemainingChunks(size * scale)) os << " " << c.start_ << " " << c.end_;
    std::cout << os.str() << "\n";
  }
}
