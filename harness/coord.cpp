// Runs programs over the coordination primitives of util/ThreadsController.h.
#include <wdt/util/ThreadsController.h>
#include <wdt/AbortChecker.h>
#include <wdt/util/CommonImpl.h>
#include "hist.h"
using namespace facebook::wdt;

static const char* fs(FunnelStatus s) {
  return s == FUNNEL_START ? "\"START\"" : s == FUNNEL_PROGRESS ? "\"PROGRESS\"" : "\"END\"";
}
static const char* ths(ThreadStatus s) {
  return s == INIT ? "\"INIT\"" : s == RUNNING ? "\"RUNNING\"" : s == WAITING ? "\"WAITING\"" : "\"FINISHED\"";
}
static ThreadStatus st(const std::string& s) {
  return s == "INIT" ? INIT : s == "RUNNING" ? RUNNING : s == "WAITING" ? WAITING : FINISHED;
}

int main() {
  return sched::pool(8, 30, [](const std::string& line, FILE* out) {
    auto sc = sched::parse(line);
    int n = atoi(sc["n"].c_str());
    WdtOptions options;
    options.abort_check_interval_millis = sc.count("aci") ? atoi(sc["aci"].c_str()) : 200;
    std::atomic<bool> ab{false};
    WdtAbortChecker checker(ab);
    ThreadsController c(n);
    c.setNumBarriers(1);
    c.setNumFunnels(1);
    c.setNumConditions(1);
    std::vector<std::unique_ptr<ThreadCtx>> ctx;
    std::vector<std::unique_ptr<ConditionGuardImpl>> guards(16);
    for (int i = 0; i < 16; i++) {
      ctx.push_back(std::make_unique<ThreadCtx>(options, false, i));
      ctx.back()->setAbortChecker(&checker);
    }
    int ran = 0;
    auto fn = [&] {
      for (int i = 0; i < 3; i++) {
        sched::yield();
      }
      ++ran;
    };
    auto timed = [](int64_t from, int ms, bool already) {
      return sched::nowNs() - from >= ms * 1000000LL ? "\"timeout\"" : "\"ok\"";
    };
    hist::runThreads(sc, out, [&](int t, const std::vector<std::string>& op, hist::Prog& rest) -> std::string {
      const std::string ok = "\"ok\"";
      const auto& o = op[0];
      int64_t t0 = sched::nowNs();
      auto arg = [&](int k) { return atoi(op[k].c_str()); };
      if (o == "barrier") {
        c.getBarrier(0)->execute();
      } else if (o == "finish") {
        c.deRegisterThread(arg(1));
      } else if (o == "fstatus") {
        std::string r = fs(c.getFunnel(0)->getStatus());
        int k = arg(1);
        if (r == "\"START\"") {
          if (k > 0) {
            rest.push_front({"fstatus", std::to_string(k - 1)});
            rest.push_front({"ffail"});
          } else {
            rest.push_front({"fdone"});
          }
        } else if (r == "\"PROGRESS\"") {
          rest.push_front(op);
          if (op.size() > 2) {
            rest.push_front({"ftwait", op[2]});
          } else {
            rest.push_front({"fwait"});
          }
        }
        return r;
      } else if (o == "fwait") {
        c.getFunnel(0)->wait();
      } else if (o == "ftwait") {
        c.getFunnel(0)->wait(arg(1), *ctx[t]);
        return timed(t0, arg(1), false);
      } else if (o == "fdone") {
        c.getFunnel(0)->notifySuccess();
      } else if (o == "ffail") {
        c.getFunnel(0)->notifyFail();
      } else if (o == "first") {
        bool mine = false;
        c.executeAtStart([&] {
          fn();
          mine = true;
        });
        return mine ? "\"ran\"" : ran == 1 ? "\"after\"" : "\"early\"";
      } else if (o == "last") {
        bool mine = false;
        c.executeAtEnd([&] {
          fn();
          mine = true;
        });
        return mine ? "\"ran\"" : "\"not\"";
      } else if (o == "lock") {
        guards[t] = std::make_unique<ConditionGuardImpl>(c.getCondition(0)->acquire());
      } else if (o == "unlock") {
        guards[t].reset();
      } else if (o == "cwait") {
        guards[t]->wait(arg(1), *ctx[t]);
        return timed(t0, arg(1), false);
      } else if (o == "nall") {
        guards[t]->notifyAll();
      } else if (o == "none") {
        guards[t]->notifyOne();
      } else if (o == "reg") {
        c.registerThread(arg(1));
      } else if (o == "mark") {
        c.markState(arg(1), st(op[2]));
      } else if (o == "get") {
        return ths(c.getState(arg(1)));
      } else if (o == "others") {
        return c.hasThreads(arg(1), st(op[2])) ? "true" : "false";
      } else if (o == "any") {
        return c.hasThreads(st(op[1])) ? "true" : "false";
      } else if (o == "running") {
        return std::to_string(c.numRunningThreads());
      } else if (o == "reset") {
        c.reset();
        ran = 0;
      } else if (o == "sleep") {
        std::this_thread::sleep_for(std::chrono::milliseconds(arg(1)));
      }
      return ok;
    });
    hist::dump(out);
  });
}
