// Programs over the resource controller, see spec/Quota.tla.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#define protected public
#define private public
#include <wdt/WdtResourceController.h>
#undef protected
#undef private
#include "hist.h"
using namespace facebook::wdt;
using std::string;

int main() {
  FLAGS_minloglevel = 4;
  return sched::pool(8, 30, [](const string& line, FILE* out) {
    auto sc = sched::parse(line);
    WdtOptions o;
    o.global_sender_limit = atoi(sc["gsl"].c_str());
    o.global_receiver_limit = atoi(sc["grl"].c_str());
    o.namespace_sender_limit = atoi(sc["nsl"].c_str());
    o.namespace_receiver_limit = atoi(sc["nrl"].c_str());
    auto* rc = new WdtResourceController(o);
    WdtTransferRequest req(22356, 1, "/nowhere");
    auto str = [](ErrorCode e) { return "\"" + errorCodeToStr(e) + "\""; };
    hist::runThreads(sc, out, [&](int, const std::vector<string>& op, hist::Prog&) -> string {
      const string& w = op[0];
      auto num = [&](size_t i) { return atoi(op[i].c_str()); };
      bool snd = op.size() > 1 && op[1] == "s";
      if (w == "create") {
        ErrorCode e;
        bool got;
        if (snd) {
          SenderPtr x;
          e = rc->createSender(op[2], op[3], req, x);
          got = x != nullptr;
        } else {
          ReceiverPtr x;
          e = rc->createReceiver(op[2], op[3], req, x);
          got = x != nullptr;
        }
        return got == (e == OK || e == ALREADY_EXISTS) ? str(e) : "\"object?\"";
      } else if (w == "release") {
        return str(snd ? rc->releaseSender(op[2], op[3]) : rc->releaseReceiver(op[2], op[3]));
      } else if (w == "all") {
        return str(snd ? rc->releaseAllSenders(op[2]) : rc->releaseAllReceivers(op[2]));
      } else if (w == "stale") {
        std::vector<string> ids;
        ErrorCode e = snd ? rc->releaseStaleSenders(op[2], ids) : rc->releaseStaleReceivers(op[2], ids);
        if (e != OK) {
          return str(e);
        }
        std::sort(ids.begin(), ids.end());
        string r = "\"<<";
        for (auto& i : ids) {
          r += (r.size() > 3 ? ", " : "") + i;
        }
        return r + ">>\"";
      } else if (w == "finish") {
        std::shared_ptr<WdtBase> x;
        if (snd) {
          x = rc->getSender(op[2], op[3]);
        } else {
          x = rc->getReceiver(op[2], op[3]);
        }
        if (x) {
          x->setTransferStatus(WdtBase::TransferStatus::THREADS_JOINED);
        }
        return x ? "true" : "false";
      } else if (w == "has") {
        return (snd ? rc->getSender(op[2], op[3]) != nullptr : rc->getReceiver(op[2], op[3]) != nullptr) ? "true" : "false";
      } else if (w == "many") {
        return std::to_string(snd ? rc->getAllSenders(op[2]).size() : rc->getAllReceivers(op[2]).size());
      } else if (w == "ids") {
        auto ids = rc->getAllSendersIds(op[1]);
        std::sort(ids.begin(), ids.end());
        string r = "[";
        for (auto& i : ids) {
          r += (r.size() > 1 ? "," : "") + i;
        }
        return r + "]";
      } else if (w == "count") {
        int n, a, b;
        rc->getCounts(n, a, b);
        return "[" + std::to_string(n) + "," + std::to_string(a) + "," + std::to_string(b) + "]";
      } else if (w == "room") {
        return (snd ? rc->hasSenderQuota(op[2]) : rc->hasReceiverQuota(op[2])) ? "true" : "false";
      } else if (w == "reg") {
        return str(rc->registerWdtNamespace(op[1]));
      } else if (w == "dereg") {
        return str(rc->deRegisterWdtNamespace(op[1]));
      } else if (w == "shutdown") {
        rc->shutdown();
      } else if (w == "glim") {
        if (snd) {
          ((WdtControllerBase*)rc)->updateMaxSendersLimit(num(2));
        } else {
          ((WdtControllerBase*)rc)->updateMaxReceiversLimit(num(2));
        }
      } else if (w == "nlim") {
        if (snd) {
          rc->updateMaxSendersLimit(op[2], num(3));
        } else {
          rc->updateMaxReceiversLimit(op[2], num(3));
        }
      } else if (w == "strict") {
        rc->requireRegistration(num(1));
      }
      return "\"OK\"";
    });
    hist::dump(out);
  });
}
