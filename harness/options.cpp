// Options after flags and option types.  One case per line:
//   flags TYPE NAME=VALUE...          (a process of its own; "none": type not given)
//   mod TYPE GIVEN,... NAME=VALUE...  fields set by a program, then modifyOptions
//   thr AVG MAX BURST LOG SINGLE      (rates in half MB)
#include <sys/wait.h>
#include <unistd.h>
#include <gflags/gflags.h>
#include <wdt/Throttler.h>
#include <wdt/WdtOptions.h>
#include <wdt/util/WdtFlags.h>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
using namespace facebook::wdt;
using std::string;
#ifdef STANDALONE_APP
static const string PRE = "";
#else
static const string PRE = "wdt_";
#endif
template <class F>
static void each(WdtOptions& o, F f) {
#define P(n) f(#n, o.n);
  P(ipv6)
  P(ipv4)
  P(dscp)
  P(skip_writes)
  P(ignore_open_errors)
  P(two_phases)
  P(follow_symlinks)
  P(start_port)
  P(num_ports)
  P(static_ports)
  P(buffer_size)
  P(max_retries)
  P(sleep_millis)
  P(backlog)
  P(avg_mbytes_per_sec)
  P(max_mbytes_per_sec)
  P(throttler_bucket_limit)
  P(throttler_log_time_millis)
  P(include_regex)
  P(exclude_regex)
  P(prune_dir_regex)
  P(max_transfer_retries)
  P(full_reporting)
  P(progress_report_interval_millis)
  P(block_size_mbytes)
  P(accept_timeout_millis)
  P(max_accept_retries)
  P(accept_window_millis)
  P(read_timeout_millis)
  P(write_timeout_millis)
  P(connect_timeout_millis)
  P(abort_check_interval_millis)
  P(disk_sync_interval_mb)
  P(fsync)
  P(throughput_update_interval_millis)
  P(enable_checksum)
  P(enable_perf_stat_collection)
  P(transfer_log_write_interval_ms)
  P(enable_transfer_log_compaction)
  P(enable_download_resumption)
  P(keep_transfer_log)
  P(disable_sender_verification_during_resumption)
  P(global_sender_limit)
  P(global_receiver_limit)
  P(namespace_sender_limit)
  P(namespace_receiver_limit)
  P(odirect_reads)
  P(disable_preallocation)
  P(resume_using_dir_tree)
  P(open_files_during_discovery)
  P(overwrite)
  P(drain_extra_ms)
  P(encryption_type)
  P(encryption_tag_interval_bytes)
  P(send_buffer_size)
  P(receive_buffer_size)
  P(delete_extra_files)
  P(skip_fadvise)
  P(enable_heart_beat)
  P(iv_change_interval_mb)
  P(close_on_exec)
}
template <class T>
static string str(const T& v) {
  std::ostringstream s;
  s << v;
  return s.str();
}
template <class T>
static void put(T& t, const string& v) {
  std::istringstream s(v);
  s >> t;
}
static void put(string& t, const string& v) {
  t = v;
}
static string show(WdtOptions& o) {
  string r = "{";
  each(o, [&](const char* n, auto& v) { r += string(r.size() > 1 ? "," : "") + "\"" + n + "\":\"" + str(v) + "\""; });
  return r + "}";
}
static string der(const WdtOptions& o) {
  auto b = [](bool x) { return x ? "true" : "false"; };
  return string("{\"prealloc\":") + b(o.shouldPreallocateFiles()) + ",\"logres\":" + b(o.isLogBasedResumption()) + ",\"treeres\":" +
         b(o.isDirectoryTreeBasedResumption()) + "}";
}
int main(int, char** argv) {
  google::LogToStderr();
  string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    string k, type, w;
    is >> k;
    if (k == "flags") {
      std::cout.flush();
      pid_t pid = fork();
      if (pid == 0) {
        is >> type;
        string fl = "{", n;
        bool ok = type == "none" || !gflags::SetCommandLineOption((PRE + "option_type").c_str(), type.c_str()).empty();
        while (is >> w) {
          size_t e = w.find('=');
          n = w.substr(0, e);
          ok = !gflags::SetCommandLineOption((PRE + n).c_str(), w.substr(e + 1).c_str()).empty() && ok;
          fl += string(fl.size() > 1 ? "," : "") + "\"" + n + "\":\"" + w.substr(e + 1) + "\"";
        }
        WdtOptions o;
        WdtFlags::initializeFromFlags(o);
        string a = show(o), d = der(o);
        WdtFlags::initializeFromFlags(o);
        std::cout << "{\"k\":\"" << (ok ? "flags" : "noflag") << "\",\"type\":\"" << type << "\",\"flags\":" << fl << "},\"got\":" << a
                  << ",\"again\":" << show(o) << ",\"der\":" << d << "}\n";
        std::cout.flush();
        _exit(0);
      }
      int st;
      waitpid(pid, &st, 0);
      if (st) {
        std::cout << "{\"k\":\"crash\"}\n";
      }
    } else if (k == "mod") {
      string g, js = "[";
      is >> type >> g;
      std::set<string> given;
      std::istringstream gs(g);
      while (std::getline(gs, w, ',')) {
        if (w != "-") {
          given.insert(w);
          js += string(js.size() > 1 ? "," : "") + "\"" + w + "\"";
        }
      }
      WdtOptions o;
      while (is >> w) {
        size_t e = w.find('=');
        each(o, [&](const char* n, auto& v) {
          if (w.substr(0, e) == n) {
            put(v, w.substr(e + 1));
          }
        });
      }
      o.progress_report_interval_millis = 200;
      string cur = show(o);
      o.modifyOptions(type, given);
      std::cout << "{\"k\":\"mod\",\"type\":\"" << type << "\",\"given\":" << js << "],\"cur\":" << cur << ",\"got\":" << show(o)
                << ",\"der\":" << der(o) << "}\n";
    } else if (k == "thr") {
      int a, m, b, l, s;
      is >> a >> m >> b >> l >> s;
      WdtOptions o;
      o.avg_mbytes_per_sec = a * .5;
      o.max_mbytes_per_sec = m * .5;
      o.throttler_bucket_limit = b * .5;
      o.throttler_log_time_millis = l;
      o.buffer_size = s;
      auto t = o.getThrottlerOptions();
      std::cout << "{\"k\":\"thr\",\"h\":{\"avg\":" << a << ",\"max\":" << m << ",\"burst\":" << b << ",\"log\":" << l << ",\"single\":" << s
                << "},\"t\":{\"avg\":" << (int64_t)(t.avg_rate_per_sec / 1024) << ",\"max\":" << (int64_t)(t.max_rate_per_sec / 1024)
                << ",\"burst\":" << (int64_t)(t.throttler_bucket_limit / 1024) << ",\"log\":" << t.throttler_log_time_millis
                << ",\"single\":" << (int64_t)t.single_request_limit << "}}\n";
    }
    std::cout.flush();
  }
  return 0;
}
