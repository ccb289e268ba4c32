// Programs over DirectorySourceQueue and ThreadTransferHistory, see
// spec/SendQueue.tla.  Sizes in the scenario are in units of 256 KiB.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <wdt/AbortChecker.h>
#include <wdt/util/DirectorySourceQueue.h>
#include <wdt/util/ThreadTransferHistory.h>
#include "hist.h"
using namespace facebook::wdt;
using std::string;
using std::to_string;
using std::vector;

static const int64_t U = 256 * 1024;

static string num(int64_t bytes) {
  // a size that is no multiple of the unit shows up as such
  return bytes % U == 0 ? to_string(bytes / U) : "\"" + to_string(bytes) + " bytes\"";
}

static string alloc(FileAllocationStatus s) {
  switch (s) {
    case NOT_EXISTS:
      return "\"new\"";
    case EXISTS_CORRECT_SIZE:
      return "\"same\"";
    case EXISTS_TOO_LARGE:
      return "\"large\"";
    case EXISTS_TOO_SMALL:
      return "\"small\"";
    case TO_BE_DELETED:
      return "\"delete\"";
    default:
      return "\"?\"";
  }
}

int main(int argc, char** argv) {
  string dir = argc > 1 ? argv[1] : ".";
  return sched::pool(8, 30, [dir](const string& line, FILE* out) {
    auto sc = sched::parse(line);
    int np = atoi(sc["np"].c_str());
    WdtOptions options;
    options.skip_fadvise = true;
    std::atomic<bool> ab{false};
    WdtAbortChecker checker(ab);
    // files=size:ok:stat,...  (size -1: found out by stat)
    string root = dir + "/" + to_string(getpid());
    mkdir(root.c_str(), 0755);
    vector<WdtFileInfo> infos;
    vector<string> made;
    int k = 0;
    for (auto& f : hist::split(sc["files"], ',')) {
      auto w = hist::split(f, ':');
      ++k;
      string name = "f" + to_string(k);
      int64_t size = atoll(w[0].c_str()) * U;
      bool ok = w[1] == "1", st = w[2] == "1", viaStat = w[3] == "1";
      if (st && (ok || viaStat)) {
        string full = root + "/" + name;
        int fd = open(full.c_str(), O_CREAT | O_WRONLY, ok ? 0644 : 0000);
        ftruncate(fd, size);
        close(fd);
        made.push_back(full);
      }
      infos.emplace_back(name, (!st || viaStat) ? -1 : size, false);
    }
    int nf = k;
    vector<FileChunksInfo> prev;
    vector<string> names;
    int total = nf;
    // prev=n:seq:size:a-b:c-d,...
    for (auto& f : hist::split(sc["prev"], ',')) {
      auto w = hist::split(f, ':');
      string n = "f" + w[0];
      total = std::max(total, atoi(w[0].c_str()));
      FileChunksInfo ci(atoll(w[1].c_str()), n, atoll(w[2].c_str()) * U);
      for (size_t i = 3; i < w.size(); i++) {
        auto ab = hist::split(w[i], '-');
        ci.addChunk(Interval(atoll(ab[0].c_str()) * U, atoll(ab[1].c_str()) * U));
      }
      prev.emplace_back(std::move(ci));
    }
    total = atoi(sc["nfailed"].c_str());
    DirectorySourceQueue queue(options, root, &checker);
    queue.setFileInfo(infos);
    queue.setBlockSizeMbytes(atoi(sc["block"].c_str()) / 4);
    queue.setNumClientThreads(np);
    if (sc["del"] == "1") {
      queue.enableFileDeletion();
    }
    TransferHistoryController ctl(queue);
    vector<std::unique_ptr<TransferStats>> tstats;
    vector<std::unique_ptr<ThreadCtx>> ctx;
    struct Sent {
      int64_t seq, off;
    };
    vector<vector<Sent>> mine(np);
    vector<std::unique_ptr<ByteSource>> held(np);
    vector<bool> has(np, false);
    vector<Sent> cur(np);
    for (int p = 0; p < np; p++) {
      tstats.push_back(std::make_unique<TransferStats>(true));
      ctx.push_back(std::make_unique<ThreadCtx>(options, false, p));
      ctx.back()->setAbortChecker(&checker);
      ctl.addThreadHistory(1000 + p, *tstats[p]);
    }
    bool prevDone = false;
    hist::resolver() = [&](int t, vector<string>& op) -> bool {
      int p = op.size() > 1 ? atoi(op[1].c_str()) : 0;
      if (op[0] == "back" || op[0] == "add") {
        return has[p];
      }
      if (op[0] == "get") {
        return !has[p];
      }
      // loc|glob,p,nb,kind,bytes : from the harness's own record of what was sent
      if ((op[0] == "loc" || op[0] == "glob") && op.size() == 5) {
        int nb = atoi(op[2].c_str());
        if (nb < 0) {
          nb = std::max<int>(0, (int)mine[p].size() + nb + 1);
        }
        Sent b{0, 0};
        int64_t rcv = atoll(op[4].c_str());
        if (nb < (int)mine[p].size()) {
          b = mine[p][nb];
        } else if (nb == (int)mine[p].size() && has[p]) {
          b = cur[p];
        } else {
          rcv = 0;
        }
        string kind = op[3];
        int sid = 1;
        if (kind == "other") {
          b.off += 77;
        } else if (kind == "noseq") {
          b = Sent{0, 0};
          sid = 0;
        }
        if (rcv == 0) {
          b = Sent{0, 0};
        }
        op = {op[0], op[1], to_string(nb), to_string(b.seq), to_string(b.off), to_string(rcv), to_string(sid)};
      }
      return true;
    };
    auto mk = [&](const vector<string>& op) {
      Checkpoint c(1000 + atoi(op[1].c_str()));
      c.numBlocks = atoll(op[2].c_str());
      c.lastBlockSeqId = atoll(op[3].c_str());
      c.lastBlockOffset = atoll(op[4].c_str()) * U;
      c.lastBlockReceivedBytes = atoll(op[5].c_str()) * U;
      c.hasSeqId = op[6] == "1";
      return c;
    };
    hist::runThreads(sc, out, [&](int t, const vector<string>& op, hist::Prog& rest) -> string {
      const auto& o = op[0];
      int p = op.size() > 1 ? atoi(op[1].c_str()) : 0;
      auto& h = ctl.getTransferHistory(1000 + p);
      if (o == "build") {
        return queue.buildQueueSynchronously() ? "true" : "false";
      }
      if (o == "prev") {
        queue.setPreviouslyReceivedChunks(prev);
        prevDone = true;
      } else if (o == "after") {
        std::function<bool()> f = [&] { return prevDone; };
        sched::waitFor(f, -1, "previous chunks");
      } else if (o == "get") {
        ErrorCode st = ABORT;
        auto s = queue.getNextSource(ctx[p].get(), st);
        string sts = st == OK ? "\"OK\"" : st == ERROR ? "\"ERROR\"" : "\"?\"";
        if (!s) {
          return "[\"none\"," + sts + "]";
        }
        auto& md = s->getMetaData();
        string r = "[\"b\"," + s->getIdentifier().substr(1) + "," + to_string(md.seqId) + "," + num(s->getOffset()) +
                   "," + num(s->getSize()) + "," + alloc(md.allocationStatus) + "," + to_string(md.prevSeqId) + "," + sts + "]";
        cur[p] = {md.seqId, s->getOffset() / U};
        held[p] = std::move(s);
        has[p] = true;
        return r;
      } else if (o == "back") {
        has[p] = false;
        queue.returnToQueue(held[p]);
      } else if (o == "add") {
        TransferStats st;
        if (op[2] == "ok") {
          st.addEffectiveBytes(10, held[p]->getSize());
          st.incrNumBlocks();
        } else {
          st.setLocalErrorCode(SOCKET_WRITE_ERROR);
          st.incrFailedAttempts();
        }
        *tstats[p] += st;
        held[p]->addTransferStats(st);
        held[p]->close();
        bool r = h.addSource(held[p]);
        if (r) {
          mine[p].push_back(cur[p]);
        }
        has[p] = false;
        return r ? "true" : "false";
      } else if (o == "loc") {
        auto ec = h.setLocalCheckpoint(mk(op));
        if (ec != INVALID_CHECKPOINT) {
          mine[p].resize(std::min<size_t>(mine[p].size(), atoi(op[2].c_str())));
        }
        return "\"" + errorCodeToStr(ec) + "\"";
      } else if (o == "glob") {
        ctl.handleGlobalCheckpoint(mk(op));
      } else if (o == "leave") {
        h.markNotInUse();
      } else if (o == "isglob") {
        return h.isGlobalCheckpointReceived() ? "true" : "false";
      } else if (o == "acked") {
        return to_string(h.getNumAcked());
      } else if (o == "all") {
        h.markAllAcknowledged();
      } else if (o == "unacked") {
        h.returnUnackedSourcesToQueue();
        mine[p].resize(std::min<size_t>(mine[p].size(), h.getNumAcked()));
      } else if (o == "mismatch") {
        auto ec = ctl.handleVersionMismatch();
        return ec == OK ? "\"OK\"" : "\"ERROR\"";
      } else if (o == "pop") {
        string r = "[";
        for (auto& s : h.popAckedSourceStats()) {
          r += (r.size() > 1 ? ",[" : "[") + s.getId().substr(1) + "," + num(s.getEffectiveDataBytes()) + "," +
               to_string(s.getNumBlocks()) + "," + to_string(s.getFailedAttempts()) + "]";
        }
        return r + "]";
      } else if (o == "tstats") {
        auto& s = *tstats[p];
        return "[" + num(s.getEffectiveDataBytes()) + "," + to_string(s.getEffectiveHeaderBytes()) + "," +
               to_string(s.getNumBlocks()) + "," + to_string(s.getFailedAttempts()) + "]";
      } else if (o == "stat") {
        auto pr = queue.getNumBlocksAndStatus();
        return "[" + to_string(pr.first) + ",\"" + errorCodeToStr(pr.second) + "\"]";
      } else if (o == "totals") {
        return "[" + to_string(queue.getCount()) + "," + num(queue.getTotalSize()) + "," +
               num(queue.getPreviouslySentBytes()) + "]";
      } else if (o == "fin") {
        return queue.finished() ? "true" : "false";
      } else if (o == "disc") {
        return queue.fileDiscoveryFinished() ? "true" : "false";
      } else if (o == "failed") {
        vector<int> n(total, 0);
        for (auto& s : queue.getFailedSourceStats()) {
          n[atoi(s.getId().c_str() + 1) - 1]++;
        }
        string r = "[";
        for (int x : n) {
          r += (r.size() > 1 ? "," : "") + to_string(x);
        }
        return r + "]";
      }
      return "\"ok\"";
    });
    hist::dump(out);
    for (auto& f : made) {
      unlink(f.c_str());
    }
    rmdir(root.c_str());
  });
}
