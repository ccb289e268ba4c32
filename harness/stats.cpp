// Statistics.  One case per line:
//   ctr N UNIT OP...            OP = r,i,v | m,i,j | z,i,0     (i from 1)
//   hist N DIV OFF OP...
//   tls KIND(c|h|p) OP...       OP = r,t,v | x,t,0 | g,0,0     (t a thread)
//   add A... ; B...             11 numbers each (see stats())
//   srep TOTAL DISCOVERED FAILDIRS NT (11 numbers)*NT NF (id err)*NF
//   rrep (11 numbers)
//   perf N TYPE OP...
#include <wdt/Reporting.h>
#include <wdt/WdtOptions.h>
#include <wdt/util/Stats.h>
#include <cmath>
#include <condition_variable>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <sstream>
#include <thread>
using namespace facebook::wdt;
using std::string;
using std::vector;

struct Op {
  char k;
  int64_t a, b;
};
static vector<Op> ops(std::istringstream& is) {
  vector<Op> r;
  string w;
  while (is >> w) {
    Op o;
    o.k = w[0];
    sscanf(w.c_str() + 1, ",%ld,%ld", &o.a, &o.b);
    r.push_back(o);
  }
  return r;
}
static string js(const vector<Op>& v) {
  std::ostringstream s;
  s << "[";
  for (size_t i = 0; i < v.size(); i++) {
    s << (i ? "," : "") << "[\"" << v[i].k << "\"," << v[i].a << "," << v[i].b << "]";
  }
  s << "]";
  return s.str();
}
static string obs(const Counter& c, int64_t u) {
  std::ostringstream s;
  auto d = [&](int64_t v) { return v % u ? 1999999999 : v / u; };
  double sd = c.getStdDev();
  s << "\"count\":" << c.getCount() << ",\"sum\":" << d(c.getSum()) << ",\"rmin\":" << d(c.getRealMin()) << ",\"min\":" << d(c.getMin())
    << ",\"max\":" << d(c.getMax()) << ",\"var\":" << (u == 1 ? std::llround(sd * sd * c.getCount()) : 0);
  return s.str();
}
static string rows(const Histogram& h) {
  std::ostringstream s;
  h.print(s);
  std::istringstream is(s.str());
  string l, r = "[";
  while (std::getline(is, l)) {
    if (l[0] == '#' || l == "no data") {
      continue;
    }
    long lo = 0, hi = 0;
    size_t p = l.find(">= ");
    if (p != string::npos) {
      lo = atol(l.c_str() + p + 3);
    }
    p = l.find("< ");
    if (p != string::npos) {
      hi = atol(l.c_str() + p + 2);
    }
    size_t c2 = l.rfind(','), c1 = l.rfind(',', c2 - 1);
    long n = atol(l.c_str() + c2 + 1);
    double perc = atof(l.c_str() + c1 + 1);
    r += string(r.size() > 1 ? "," : "") + "{\"lo\":" + std::to_string(lo) + ",\"hi\":" + std::to_string(hi) + ",\"n\":" + std::to_string(n) +
         ",\"perc\":" + std::to_string(std::llround(perc * 10)) + "}";
  }
  return r + "]";
}

// a thread told what to do, one thing at a time
struct Worker {
  std::mutex m;
  std::condition_variable cv;
  std::function<void()> f;
  bool quit = false;
  std::thread t{[this] {
    std::unique_lock<std::mutex> l(m);
    while (true) {
      cv.wait(l, [&] { return f || quit; });
      if (f) {
        f();
        f = nullptr;
        cv.notify_all();
      } else {
        return;
      }
    }
  }};
  void run(std::function<void()> g) {
    std::unique_lock<std::mutex> l(m);
    f = g;
    cv.notify_all();
    cv.wait(l, [&] { return !f; });
  }
  void stop() {
    {
      std::unique_lock<std::mutex> l(m);
      quit = true;
      cv.notify_all();
    }
    t.join();
  }
};
template <class N, class C>
static void tls(const vector<Op>& v, bool periodic, const std::function<C*()>& mk, std::function<N*(std::function<void(const C&)>)> mkn) {
  string out;
  auto emit = [&](const C& c) { out += string(out.size() ? "," : "") + "{" + obs(c, 1) + "}"; };
  bool on = false;
  N* n = mkn(periodic ? std::function<void(const C&)>([&](const C& c) {
    if (on) {
      emit(c);
    }
  })
                      : nullptr);
  N* other = mkn(nullptr);
  auto* pc = new PeriodicCounters({n, other});
  std::map<int64_t, Worker*> ws;
  for (auto& o : v) {
    if (o.k == 'r') {
      auto*& w = ws[o.a];
      if (o.a == 0) {
        n->record(o.b);
        continue;
      }
      if (!w) {
        w = new Worker;
      }
      w->run([&] {
        n->record(o.b);
        other->record(o.b + 1);
      });
    } else if (o.k == 'x') {
      auto*& w = ws[o.a];
      if (w) {
        w->stop();
        delete w;
        w = nullptr;
      }
    } else if (periodic) {
      on = true;
      pc->swapAndRead(o.a);
      on = false;
    } else {
      C* c = mk();
      n->readAndReset(*c, o.a);
      emit(*c);
      delete c;
    }
  }
  for (auto& w : ws) {
    if (w.second) {
      w.second->stop();
      delete w.second;
    }
  }
  delete pc;
  delete n;
  delete other;
  std::cout << "{\"k\":\"tls\",\"ops\":" << js(v) << ",\"obs\":[" << out << "]}\n";
}

static void fill(std::istringstream& is, TransferStats& s) {
  int64_t hb, db, eh, ed, nf, nb, fa, nbs, tsb;
  int l, r;
  is >> hb >> db >> eh >> ed >> nf >> nb >> fa >> nbs >> tsb >> l >> r;
  s.addHeaderBytes(hb);
  s.addDataBytes(db - 3);
  s.addDataBytes(3);
  s.addEffectiveBytes(eh + 5, ed + 7);
  s.subtractEffectiveBytes(5, 7);
  s.setNumFiles(nf);
  for (int i = 0; i <= nb; i++) {
    s.incrNumBlocks();
  }
  s.decrNumBlocks();
  for (int i = 0; i < fa; i++) {
    s.incrFailedAttempts();
  }
  s.setNumBlocksSend(nbs);
  s.setTotalSenderBytes(tsb);
  s.setLocalErrorCode((ErrorCode)l);
  s.setRemoteErrorCode((ErrorCode)r);
}
static string show(const TransferStats& s) {
  std::ostringstream o;
  o << "{\"hb\":" << s.getHeaderBytes() << ",\"db\":" << s.getDataBytes() << ",\"ehb\":" << s.getEffectiveHeaderBytes()
    << ",\"edb\":" << s.getEffectiveDataBytes() << ",\"nf\":" << s.getNumFiles() << ",\"nb\":" << s.getNumBlocks()
    << ",\"fa\":" << s.getFailedAttempts() << ",\"nbs\":" << s.getNumBlocksSend() << ",\"tsb\":" << s.getTotalSenderBytes()
    << ",\"local\":" << s.getLocalErrorCode() << ",\"remote\":" << s.getRemoteErrorCode() << ",\"err\":" << s.getErrorCode()
    << ",\"tot\":" << s.getTotalBytes() << ",\"etot\":" << s.getEffectiveTotalBytes() << "}";
  return o.str();
}

static string perf(const PerfStatReport& p, const WdtOptions&) {
  std::ostringstream s;
  s << p;
  static const vector<string> names = {"Socket Read", "Socket Write", "File Open", "File Close", "File Read", "File Write", "Sync File Range",
                                       "fsync", "File Seek", "Throttler Sleep", "Receiver Wait Sleep", "Directory creation", "Ioctl", "Unlink",
                                       "Fadvise"};
  string r = "[", text = s.str();
  for (auto& n : names) {
    size_t p = text.find("\t" + n + " : ");
    long count = 0, b50 = -1, b95 = -1, b99 = -1;
    double sum = 0, mn = 0, mx = 0, avg = 0;
    string bk = "[";
    if (p != string::npos) {
      size_t e = text.find('\n', p);
      string l = text.substr(p, e - p);
      auto num = [&](const char* k, double d) {
        size_t q = l.find(k);
        return q == string::npos ? d : atof(l.c_str() + q + strlen(k));
      };
      count = num("Ncalls ", 0);
      sum = num(" sum ", 0);
      mn = num(" Min ", 0);
      mx = num(" Max ", 0);
      avg = num(" Avg ", 0);
      b50 = num("p50 ", -1);
      b95 = num("p95 ", -1);
      b99 = num("p99 ", -1);
      while (true) {
        size_t b = text.find_first_not_of("wdt>\t\n", e);
        if (b == string::npos || text[b] != '[') {
          break;
        }
        e = text.find('\n', b);
        string x = text.substr(b, e - b);
        bk += string(bk.size() > 1 ? "," : "") + "{\"lo\":" + std::to_string(atol(x.c_str() + 1)) +
              ",\"n\":" + std::to_string(atol(x.c_str() + x.find("--> ") + 4)) + "}";
      }
    }
    r += string(r.size() > 1 ? "," : "") + "{\"count\":" + std::to_string(count) + ",\"sum\":" + std::to_string(std::llround(sum * 100)) +
         ",\"min\":" + std::to_string(std::llround(mn * 100)) + ",\"max\":" + std::to_string(std::llround(mx * 100)) + ",\"avg\":" + std::to_string(std::llround(avg * 100)) +
         ",\"p50\":" + std::to_string(b50) + ",\"p95\":" + std::to_string(b95) + ",\"p99\":" + std::to_string(b99) + ",\"buckets\":" + bk + "]}";
  }
  return r + "]";
}

int main() {
  google::LogToStderr();
  FLAGS_minloglevel = 3;
  string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    string k;
    is >> k;
    if (k == "ctr") {
      int n;
      int64_t unit;
      is >> n >> unit;
      auto v = ops(is);
      vector<Counter*> c;
      for (int i = 0; i < n; i++) {
        c.push_back(new Counter);
      }
      string o;
      for (auto& x : v) {
        Counter& t = *c[x.a - 1];
        x.k == 'r' ? t.record(x.b * unit) : x.k == 'm' ? t.merge(*c[x.b - 1]) : t.reset();
        o += string(o.size() ? "," : "") + "{" + obs(t, unit) + "}";
      }
      for (auto* p : c) {
        delete p;
      }
      std::cout << "{\"k\":\"ctr\",\"n\":" << n << ",\"unit\":" << (unit == 1 ? 1 : 2) << ",\"ops\":" << js(v) << ",\"obs\":[" << o << "]}\n";
    } else if (k == "hist") {
      int n, div;
      int64_t off;
      is >> n >> div >> off;
      auto v = ops(is);
      vector<Histogram*> c;
      for (int i = 0; i < n; i++) {
        c.push_back(new Histogram(div, 85, 99.9, off));
      }
      for (auto& x : v) {
        Histogram& t = *c[x.a - 1];
        x.k == 'r' ? t.record(x.b) : x.k == 'm' ? t.merge(*c[x.b - 1]) : t.reset();
      }
      std::cout << "{\"k\":\"hist\",\"n\":" << n << ",\"div\":" << div << ",\"off\":" << off << ",\"ops\":" << js(v) << ",\"obs\":[";
      for (int i = 0; i < n; i++) {
        std::cout << (i ? "," : "") << "{" << obs(*c[i], 1) << ",\"rows\":" << rows(*c[i]) << ",\"perc\":[";
        bool f = true;
        for (int p : {0, 1, 10, 25, 50, 75, 85, 95, 99, 100}) {
          double x = c[i]->getCount() ? c[i]->calcPercentile(p) : 0;
          std::cout << (f ? "" : ",") << "{\"p\":" << p << ",\"v\":" << (std::isfinite(x) ? std::llround(x) : 1999999999) << "}";
          f = false;
        }
        std::cout << "]}";
        delete c[i];
      }
      std::cout << "]}\n";
    } else if (k == "tls") {
      string kind;
      is >> kind;
      auto v = ops(is);
      if (kind == "c" || kind == "p") {
        tls<ThreadLocalCounter, Counter>(v, kind == "p", [] { return new Counter; },
                                         [](std::function<void(const Counter&)> f) { return new ThreadLocalCounter(1.0, f); });
      } else {
        tls<ThreadLocalHistogram, Histogram>(v, false, [] { return new Histogram(1); },
                                             [](std::function<void(const Histogram&)> f) { return new ThreadLocalHistogram(1, f); });
      }
    } else if (k == "add") {
      TransferStats a(line.size() % 2), b(line.size() % 3);
      fill(is, a);
      fill(is, b);
      string pa = show(a), pb = show(b);
      a += b;
      std::cout << "{\"k\":\"add\",\"a\":" << pa << ",\"b\":" << pb << ",\"c\":" << show(a) << "}\n";
    } else if (k == "srep") {
      int64_t total, disc;
      int fd, nt, nf;
      is >> total >> disc >> fd >> nt;
      vector<TransferStats> ts, bad, good;
      string jt = "[", jf = "[";
      for (int i = 0; i < nt; i++) {
        ts.emplace_back(false);
        fill(is, ts.back());
        jt += (i ? "," : "") + show(ts.back());
      }
      is >> nf;
      for (int i = 0; i < nf; i++) {
        string id;
        int e;
        is >> id >> e;
        bad.emplace_back(id);
        bad.back().setLocalErrorCode((ErrorCode)e);
        jf += string(i ? "," : "") + "{\"id\":\"" + id + "\",\"err\":" + std::to_string(e) + "}";
      }
      vector<string> dirs(fd, "d");
      TransferReport r(good, bad, ts, dirs, 1.0, total, disc, 0, true);
      std::cout << "{\"k\":\"srep\",\"total\":" << total << ",\"discovered\":" << disc << ",\"faildirs\":" << fd << ",\"threads\":" << jt
                << "],\"failed\":" << jf << "],\"err\":" << r.getSummary().getErrorCode() << ",\"files\":" << r.getSummary().getNumFiles()
                << ",\"sum\":" << show(r.getSummary()) << "}\n";
    } else if (k == "rrep") {
      TransferStats s(line.size() % 2);
      fill(is, s);
      string in = show(s);
      TransferReport r(std::move(s));
      std::cout << "{\"k\":\"rrep\",\"in\":" << in << ",\"err\":" << r.getSummary().getErrorCode() << ",\"sum\":" << show(r.getSummary()) << "}\n";
    } else if (k == "perf") {
      int n, type;
      is >> n >> type;
      auto v = ops(is);
      WdtOptions o;
      std::map<int, PerfStatReport*> p;
      for (int i = 1; i <= n; i++) {
        p[i] = new PerfStatReport(o);
      }
      for (auto& x : v) {
        if (x.k == 'r') {
          p[x.a]->addPerfStat((PerfStatReport::StatType)type, x.b);
        } else if (x.k == 'm') {
          *p[x.a] += *p[x.b];
        } else {
          delete p[x.a];
          p[x.a] = new PerfStatReport(o);
        }
      }
      std::cout << "{\"k\":\"perf\",\"n\":" << n << ",\"type\":" << type << ",\"ops\":" << js(v) << ",\"obs\":[";
      for (int i = 1; i <= n; i++) {
        std::cout << (i > 1 ? "," : "") << perf(*p[i], o);
        delete p[i];
      }
      std::cout << "]}\n";
    }
    std::cout.flush();
  }
  return 0;
}
