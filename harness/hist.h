// Histories of call and return events, and threads that run programs of
// operations against an object, under the scheduler.
#pragma once
#include <csignal>
#include <cstring>
#include <deque>
#include <functional>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
#include "vsched.h"

namespace hist {
inline std::vector<std::string>& events() {
  static std::vector<std::string> e;
  return e;
}
inline std::string q(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r + "\"";
}
// an operation is a list of words; numbers stay numbers
inline std::string opJson(const std::vector<std::string>& op) {
  std::string r = "[";
  for (size_t i = 0; i < op.size(); i++) {
    if (i) {
      r += ",";
    }
    char* e;
    strtol(op[i].c_str(), &e, 10);
    r += (!op[i].empty() && !*e) ? op[i] : q(op[i]);
  }
  return r + "]";
}
inline void call(int t, const std::vector<std::string>& op) {
  events().push_back("{\"t\":" + std::to_string(t) + ",\"k\":\"c\",\"o\":" + opJson(op) + "}");
}
inline void ret(int t, const std::string& json) {
  events().push_back("{\"t\":" + std::to_string(t) + ",\"k\":\"r\",\"v\":" + json + "}");
}
inline std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> r;
  size_t i = 0;
  while (i <= s.size()) {
    size_t j = s.find(c, i);
    if (j == std::string::npos) {
      j = s.size();
    }
    if (j > i) {
      r.push_back(s.substr(i, j - i));
    }
    i = j + 1;
  }
  return r;
}
inline sched::Params params(sched::Scenario& sc) {
  sched::Params p;
  auto n = [&](const char* k, long d) { return sc.count(k) ? atol(sc[k].c_str()) : d; };
  p.seed = n("seed", 1);
  p.mode = n("mode", 0);
  p.gap = n("gap", 0);
  p.stay = n("stay", 50);
  p.changes = n("changes", 3);
  p.horizon = n("horizon", 300);
  p.spurious = n("spurious", 0);
  p.early = n("early", 0);
  p.maxSteps = n("maxsteps", 300000);
  p.maxVirtualMs = n("maxms", 600000);
  return p;
}
inline void dump(FILE* out) {
  std::string s = "EV [";
  for (size_t i = 0; i < events().size(); i++) {
    s += (i ? "," : "") + events()[i];
  }
  fprintf(out, "%s]\n", s.c_str());
  fflush(out);
}
inline FILE*& abortOut() {
  static FILE* f;
  return f;
}
// turns a program's operation into the one performed and recorded; false:
// does not apply now, left out
inline std::function<bool(int, std::vector<std::string>&)>& resolver() {
  static std::function<bool(int, std::vector<std::string>&)> r;
  return r;
}
// program of thread t is sc["t<t>"]: operations separated by ';', words by ','
// run(t, op, rest) performs it and returns the result as JSON; it may change
// the operations that follow
using Prog = std::deque<std::vector<std::string>>;
inline void runThreads(sched::Scenario& sc, FILE* out,
                       const std::function<std::string(int, const std::vector<std::string>&, Prog&)>& run) {
  sched::onStuck = [out](const char* why) {
    dump(out);
    fprintf(out, "STUCK %s\n%s", why, sched::describe().c_str());
    fflush(out);
  };
  abortOut() = out;
  signal(SIGABRT, [](int) {
    dump(abortOut());
    fprintf(abortOut(), "STUCK aborted\n");
    fflush(abortOut());
    _exit(72);
  });
  sched::start(params(sc));
  std::vector<std::thread> th;
  for (int t = 0; sc.count("t" + std::to_string(t)); t++) {
    std::string prog = sc["t" + std::to_string(t)];
    th.emplace_back([t, prog, &run] {
      Prog rest;
      for (auto& o : split(prog, ';')) {
        rest.push_back(split(o, ','));
      }
      while (!rest.empty()) {
        auto op = rest.front();
        rest.pop_front();
        if (resolver() && !resolver()(t, op)) {
          continue;
        }
        call(t, op);
        sched::yield();
        std::string r = run(t, op, rest);
        ret(t, r);
        sched::yield();
      }
    });
  }
  for (auto& t : th) {
    t.join();
  }
}
}  // namespace hist
