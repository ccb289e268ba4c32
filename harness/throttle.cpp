// Threads sharing a throttler, in virtual time, see spec/Throttle.tla.
#include <wdt/Throttler.h>
#include "hist.h"
using namespace facebook::wdt;
using std::string;

int main() {
  FLAGS_minloglevel = 4;
  return sched::pool(8, 60, [](const string& line, FILE* out) {
    auto sc = sched::parse(line);
    ThrottlerOptions o;
    o.avg_rate_per_sec = atoi(sc["avg"].c_str());
    o.max_rate_per_sec = atoi(sc["peak"].c_str());
    o.throttler_bucket_limit = atoi(sc["burst"].c_str());
    o.single_request_limit = atoi(sc["single"].c_str());
    o.throttler_log_time_millis = atoi(sc["log"].c_str());
    std::shared_ptr<Throttler> th;
    WdtOptions wo;
    wo.buffer_size = 4096;
    ThreadCtx ctx(wo, false, 0);
    std::once_flag once;
    hist::runThreads(sc, out, [&](int, const std::vector<string>& op, hist::Prog&) -> string {
      std::call_once(once, [&] { th = Throttler::makeThrottler(o); });
      auto num = [&](size_t i) { return atol(op[i].c_str()); };
      auto t = [] { return sched::nowNs() / 100000; };
      long t0 = t();
      string extra;
      if (op[0] == "start") {
        th->startTransfer();
      } else if (op[0] == "end") {
        th->endTransfer();
      } else if (op[0] == "req") {
        if (op.size() > 2) {
          th->limit(ctx, num(1));
        } else {
          th->limit(num(1));
        }
      } else if (op[0] == "set") {
        if (op.size() > 4) {
          ThrottlerOptions n;
          n.avg_rate_per_sec = num(1);
          n.max_rate_per_sec = num(2);
          n.throttler_bucket_limit = num(3);
          th->setThrottlerRates(n);
        } else {
          double a = num(1), p = num(2), b = num(3);
          th->setThrottlerRates(a, p, b);
          extra = "," + std::to_string((long)a) + "," + std::to_string((long)p) + "," + std::to_string((long)b);
        }
      } else if (op[0] == "get") {
        extra = "," + std::to_string((long)th->getAvgRatePerSec()) + "," + std::to_string((long)th->getPeakRatePerSec()) + "," +
                std::to_string((long)th->getBucketLimit());
      } else if (op[0] == "sleep") {
        std::this_thread::sleep_for(std::chrono::milliseconds(num(1)));
      }
      return "[" + std::to_string(t0) + "," + std::to_string(t()) + extra + "]";
    });
    hist::dump(out);
  });
}
