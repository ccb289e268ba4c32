// Programs of calls of the Wdt class, see spec/Api.tla. usage: api DIR
#include <sys/stat.h>
#include <unistd.h>
#include <atomic>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <glog/logging.h>
#include <wdt/Wdt.h>
#include "hist.h"
#include "vfs.h"
#include "vnet.h"
using namespace facebook::wdt;
using std::string;

// a send that its thread started and goes on
struct Call : IAbortChecker {
  mutable std::atomic<int> ticks{0};  // the transfer has asked whether to go on
  std::atomic<bool> ended{false};
  ErrorCode code = ERROR;
  std::thread th;
  bool shouldAbort() const override {
    ticks++;
    return false;
  }
};

int main(int, char** argv) {
  FLAGS_minloglevel = getenv("VSIM_LOG") ? 0 : 3;
  const string base = argv[1];
  return sched::pool(8, 60, [&](const string& line, FILE* out) {
    auto sc = sched::parse(line);
    auto num = [&](const char* k) { return atoi(sc[k].c_str()); };
    const string root = base + "/a" + std::to_string(getpid());
    std::filesystem::create_directories(root + "/src");
    std::filesystem::create_directories(root + "/dst");
    std::ofstream(root + "/file") << "no directory";
    std::ofstream(root + "/src/f") << string(2500, 'x');
    std::map<string, WdtTransferRequest> started;  // receivers by namespace and id
    Wdt* wdt = nullptr;
    std::once_flag once;
    int nthr = 0;
    while (sc.count("t" + std::to_string(nthr))) {
      nthr++;
    }
    int byes = 0;
    auto str = [](ErrorCode e) { return "\"" + errorCodeToStr(e) + "\""; };
    std::vector<std::shared_ptr<Call>> calls(nthr);
    hist::runThreads(sc, out, [&](int me, const std::vector<string>& op, hist::Prog&) -> string {
      std::call_once(once, [&] {
        wdt = &Wdt::initializeWdt("api");
        auto& o = wdt->getWdtOptions();
        o.ipv4 = true;
        o.progress_report_interval_millis = 0;
        o.encryption_type = "none";
        o.overwrite = true;
        o.max_retries = 8;
        o.sleep_millis = 20;
        o.max_accept_retries = 1000;
        o.namespace_sender_limit = num("nsl");
        o.namespace_receiver_limit = num("nrl");
        WdtControllerBase* c = wdt->getWdtResourceController();
        c->updateMaxSendersLimit(num("gsl"));
        c->updateMaxReceiversLimit(num("grl"));
      });
      const string& w = op[0];
      if (w == "send" || w == "go") {  // namespace, destination, transfer id, terminate, to
        WdtTransferRequest r(9, 1, root + (op[5] == "baddir" ? "" : "/src"));
        r.transferId = op[3];
        if (op[5].compare(0, 3, "to_") == 0) {
          if (started.count(op[1] + op[5].substr(3))) {
            r = WdtTransferRequest(started[op[1] + op[5].substr(3)].genWdtUrlWithSecret());
            r.directory = root + "/src";
          }
          r.transferId = "1" + op[5].substr(3);
        }
        if (op[5] == "baddir") {
          r.directory = "";
        }
        r.hostName = "localhost";
        r.wdtNamespace = op[1];
        r.destIdentifier = op[2];
        if (op[5] == "badreq") {
          r.errorCode = URI_PARSE_ERROR;
        }
        if (w == "go") {
          auto c = std::make_shared<Call>();
          c->th = std::thread([c, r, wdt, term = op[4] == "1"] {
            c->code = wdt->wdtSend(r, c, term);
            c->ended = true;
          });
          while (!c->ended && c->ticks == 0) {
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
          }
          if (c->ticks == 0) {
            c->th.join();
            return str(c->code);
          }
          calls[me] = c;
          return "\"running\"";
        }
        return str(wdt->wdtSend(r, nullptr, op[4] == "1"));
      } else if (w == "alive") {
        auto c = calls[me];
        if (!c) {
          return "false";
        }
        const int was = c->ticks;
        while (!c->ended && c->ticks == was) {
          std::this_thread::sleep_for(std::chrono::milliseconds(1));
        }
        return c->ticks > was ? "true" : "false";
      } else if (w == "done") {
        auto c = calls[me];
        if (!c) {
          return "\"none\"";
        }
        c->th.join();
        calls[me] = nullptr;
        return str(c->code);
      } else if (w == "rstart") {  // namespace, id, how
        WdtTransferRequest r(0, 1, op[3] == "baddir" ? root + "/file" : root + "/dst");
        if (op[3] == "badreq") {
          r.errorCode = URI_PARSE_ERROR;
        }
        if (op[3] == "baddir") {
          r.directory = "";
        }
        r.transferId = "1" + op[2];
        r.hostName = "localhost";
        ErrorCode e = wdt->wdtReceiveStart(op[1], r, op[2]);
        if (e == OK) {
          started[op[1] + op[2]] = r;
        }
        return e == r.errorCode || e == ALREADY_EXISTS || e == QUOTA_EXCEEDED ? str(e) : "\"two codes\"";
      } else if (w == "rfinish") {
        return str(wdt->wdtReceiveFinish(op[1], op[2]));
      } else if (w == "count") {
        int n, a, b;
        wdt->getWdtResourceController()->getCounts(n, a, b);
        return "[" + std::to_string(a) + "," + std::to_string(b) + "]";
      } else if (w == "same") {
        return &Wdt::getWdt("api") == wdt ? "true" : "false";
      } else if (w == "sleep") {
        std::this_thread::sleep_for(std::chrono::milliseconds(atoi(op[1].c_str())));
      } else if (w == "bye") {
        byes++;
      } else if (w == "join") {
        sched::waitFor([&] { return byes == nthr - 1; }, -1, "join");
      }
      return "true";
    });
    hist::dump(out);
    std::filesystem::remove_all(root);
  });
}
