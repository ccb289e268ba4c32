From d471a3dad027172213d8e208f43434bf49812512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 01/50] fix: return unacked sources to the queue whatever the
 last checkpoint was

returnUnackedSourcesToQueue builds a checkpoint of its own, which was rejected
as invalid if the last one from the receiver had the same number of blocks, no
sequence number or offset (an older receiver, or sequence number 0), and some
bytes received. The sources were then neither delivered nor reported, and
popAckedSourceStats crashed.
---
 util/ThreadTransferHistory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index 3a47ee9..a5e398b 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -128,6 +128,9 @@ void ThreadTransferHistory::markAllAcknowledged() {
 
 void ThreadTransferHistory::returnUnackedSourcesToQueue() {
   std::unique_lock<std::mutex> lock(mutex_);
+  // This is not a checkpoint from the receiver: it must not be rejected because
+  // of the number of received bytes in the last one
+  lastCheckpoint_.reset();
   Checkpoint checkpoint;
   checkpoint.numBlocks = numAcknowledged_;
   setCheckpointAndReturnToQueue(checkpoint, false);
-- 
2.43.0


From 7cb3542e256de0dd94e2fc460225885fbd2e17c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 02/50] fix: credit the received bytes of a global checkpoint
 to one block only

Without a sequence number (older receivers) the received bytes of a global
checkpoint were taken off the first unconfirmed block of the history and again
off the block in flight when that was added, so that part of a file was never
sent.
---
 util/ThreadTransferHistory.cpp | 6 +++++-
 util/ThreadTransferHistory.h   | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index a5e398b..d043350 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -37,7 +37,9 @@ bool ThreadTransferHistory::addSource(std::unique_ptr<ByteSource>& source) {
     // already received an error for this thread
     WVLOG(1) << "adding source after global checkpoint is received. returning "
                 "the source to the queue";
-    markSourceAsFailed(source, lastCheckpoint_.get());
+    // received bytes already credited to another block are not this one's
+    markSourceAsFailed(source, globalCheckpointApplied_ ? nullptr
+                                                        : lastCheckpoint_.get());
     lastCheckpoint_.reset();
     queue_.returnToQueue(source);
     return false;
@@ -80,6 +82,8 @@ ErrorCode ThreadTransferHistory::setCheckpointAndReturnToQueue(
     return INVALID_CHECKPOINT;
   }
   globalCheckpoint_ |= globalCheckpoint;
+  globalCheckpointApplied_ |=
+      (globalCheckpoint && historySize > numReceivedSources);
   lastCheckpoint_ = std::make_unique<Checkpoint>(checkpoint);
   int64_t numFailedSources = historySize - numReceivedSources;
   if (numFailedSources == 0 && lastBlockReceivedBytes > 0) {
diff --git a/util/ThreadTransferHistory.h b/util/ThreadTransferHistory.h
index 5afcc45..c5aaed7 100644
--- a/util/ThreadTransferHistory.h
+++ b/util/ThreadTransferHistory.h
@@ -119,6 +119,9 @@ class ThreadTransferHistory {
   std::vector<std::unique_ptr<ByteSource>> history_;
   /// whether a global error checkpoint has been received or not
   bool globalCheckpoint_{false};
+  /// whether the received bytes of the global checkpoint were credited to a
+  /// block of the history
+  bool globalCheckpointApplied_{false};
   /// number of sources acked by the receiver thread
   int64_t numAcknowledged_{0};
   /// last received checkpoint
-- 
2.43.0


From 21fd241aa799b447513b320442b08098e491b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:03 +0000
Subject: [PATCH 03/50] fix: honour fractional block sizes

block_size_mbytes is a double, but the queue kept it as an integer: 0.5
silently disabled block mode and 1.5 meant 1.
---
 util/DirectorySourceQueue.cpp | 2 +-
 util/DirectorySourceQueue.h   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 5b889fe..8fe8aec 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -75,7 +75,7 @@ void DirectorySourceQueue::setPruneDirPattern(const string& pruneDirPattern) {
   pruneDirPattern_ = pruneDirPattern;
 }
 
-void DirectorySourceQueue::setBlockSizeMbytes(int64_t blockSizeMbytes) {
+void DirectorySourceQueue::setBlockSizeMbytes(double blockSizeMbytes) {
   blockSizeMbytes_ = blockSizeMbytes;
 }
 
diff --git a/util/DirectorySourceQueue.h b/util/DirectorySourceQueue.h
index c2bf35f..34bec8b 100644
--- a/util/DirectorySourceQueue.h
+++ b/util/DirectorySourceQueue.h
@@ -160,7 +160,7 @@ class DirectorySourceQueue : public SourceQueue {
   void setFileInfoGenerator(WdtTransferRequest::FileInfoGenerator gen);
 
   /// @param blockSizeMbytes    block size in Mbytes
-  void setBlockSizeMbytes(int64_t blockSizeMbytes);
+  void setBlockSizeMbytes(double blockSizeMbytes);
 
   /// Get the file info in this directory queue
   std::vector<WdtFileInfo> getFileInfo() const;
@@ -313,7 +313,7 @@ class DirectorySourceQueue : public SourceQueue {
   std::string excludePattern_;
 
   /// Block size in mb
-  int64_t blockSizeMbytes_{0};
+  double blockSizeMbytes_{0};
 
   /// List of files to enqueue instead of recursing over rootDir_.
   std::vector<WdtFileInfo> fileInfo_;
-- 
2.43.0


From efe8ac3fdb18c6441cb8e2e0ca904426848a06dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:17 +0000
Subject: [PATCH 04/50] fix: report the checkpoint of a receiver thread whose
 connection cannot be retried

A receiver thread that met an error for which it must not reconnect (bad
encryption settings, a failed tag) ended without adding its checkpoint, so the
other threads told the sender that everything had arrived.
---
 ReceiverThread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index dd9e2f7..565e6bd 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -199,7 +199,7 @@ ReceiverState ReceiverThread::acceptWithTimeout() {
     WTLOG(ERROR) << "Socket has non-retryable error "
                  << errorCodeToStr(socketErrCode);
     threadStats_.setLocalErrorCode(socketErrCode);
-    return END;
+    return FINISH_WITH_ERROR;
   }
   socket_->closeNoCheck();
   blocksWaitingVerification_.clear();
-- 
2.43.0


From 4c5264dfa01375fa7ff086e259f1f806991788e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 05/50] fix: accept no command before verified settings on a
 connection

A peer that skipped the settings could write files and mark the transfer done
without knowing the transfer id, or stop the receiver with a failed check.
---
 ReceiverThread.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 565e6bd..7dbd2d9 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -267,6 +267,12 @@ ReceiverState ReceiverThread::readNextCmd() {
     return ACCEPT_WITH_TIMEOUT;
   }
   Protocol::CMD_MAGIC cmd = (Protocol::CMD_MAGIC)buf_[off_++];
+  if (!curConnectionVerified_ && cmd != Protocol::SETTINGS_CMD) {
+    // nothing is accepted before settings with the right transfer id
+    WTLOG(ERROR) << "received cmd " << cmd << " before settings";
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
   if (cmd == Protocol::DONE_CMD) {
     return PROCESS_DONE_CMD;
   }
-- 
2.43.0


From 188277cb9925ba269940a81133336962c0daf382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:33 +0000
Subject: [PATCH 06/50] fix: accept a checkpoint whose last block made progress
 after none of it was received

A block of which nothing arrived is sent again at the same offset, and a
checkpoint without a partial block carries zeros, which are also the first
block of the first file. Both made the next, larger checkpoint invalid and
ended the transfer with PROTOCOL_ERROR.
---
 util/ThreadTransferHistory.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index d043350..b6f4306 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -159,15 +159,17 @@ ErrorCode ThreadTransferHistory::validateCheckpoint(
   // numBlocks same
   if (checkpoint.lastBlockSeqId == lastCheckpoint_->lastBlockSeqId &&
       checkpoint.lastBlockOffset == lastCheckpoint_->lastBlockOffset) {
-    // same block
-    if (checkpoint.lastBlockReceivedBytes !=
-        lastCheckpoint_->lastBlockReceivedBytes) {
+    // same block, unless the checkpoint doesn't identify its block (older
+    // protocol, or no block received partially)
+    const int64_t lastReceivedBytes = lastCheckpoint_->lastBlockReceivedBytes;
+    noProgress = (checkpoint.lastBlockReceivedBytes == 0 ||
+                  checkpoint.lastBlockReceivedBytes == lastReceivedBytes);
+    if (!noProgress && checkpoint.hasSeqId && lastReceivedBytes > 0) {
       WLOG(ERROR) << "Current checkpoint has different received bytes, but all "
                      "other fields are same, Last checkpoint "
                   << *lastCheckpoint_ << ", Current checkpoint: " << checkpoint;
       return INVALID_CHECKPOINT;
     }
-    noProgress = true;
   } else {
     // different block
     WDT_CHECK(checkpoint.lastBlockReceivedBytes >= 0);
-- 
2.43.0


From f14d57a7fd392ba3891c95198c7bcaf668beb892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:19 +0000
Subject: [PATCH 07/50] fix: choose the footer for the negotiated version in
 every sender thread

---
 SenderThread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index add7038..663262d 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -933,6 +933,7 @@ SenderState SenderThread::processVersionMismatch() {
         }
         if (negotiationStatus == V_MISMATCH_RESOLVED) {
           threadProtocolVersion_ = wdtParent_->getProtocolVersion();
+          setFooterType();
           threadStats_.setRemoteErrorCode(OK);
           return CONNECT;
         }
-- 
2.43.0


From e8e814e4c65c3a2eb943bc6da33324ec2dd06bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 08/50] fix: make the first connection when no retries are
 allowed

With max_transfer_retries 0 the sender gave up before its first connection and
crashed on the socket it did not have.
---
 SenderThread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 663262d..793493d 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -117,7 +117,8 @@ SenderState SenderThread::connect() {
     }
     socket_->closeNoCheck();
   }
-  if (numReconnectWithoutProgress_ >= options_.max_transfer_retries) {
+  // the first connection is no retry
+  if (socket_ && numReconnectWithoutProgress_ >= options_.max_transfer_retries) {
     WTLOG(ERROR) << "Sender thread reconnected " << numReconnectWithoutProgress_
                  << " times without making any progress, giving up. port: "
                  << socket_->getPort();
-- 
2.43.0


From 8cdfee9771d47accac9a5f4b9aef01f44db4f780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 09/50] fix: a file that no longer fits the transfer log is
 invalidated, not the log

When a logged file was missing, or shorter on disk than its logged blocks, a
later resize or block entry for it made the whole log invalid.  The invalid
log was kept, but nothing was added to it: once the next session had
(pre)allocated the file again, the log became valid and claimed data that had
never been written.
---
 util/TransferLogManager.cpp | 17 +++++++++++++++--
 util/TransferLogManager.h   |  4 ++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index b090251..b2761c6 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -748,6 +748,12 @@ void LogParser::clearParsedData() {
   invalidSeqIds_.clear();
 }
 
+void LogParser::invalidateFile(int64_t seqId) {
+  fileInfoMap_.erase(seqId);
+  seqIdToSizeMap_.erase(seqId);
+  invalidSeqIds_.insert(seqId);
+}
+
 string LogParser::getFormattedTimestamp(int64_t timestampMicros) {
   // This assumes Clock's epoch is Posix's epoch (1970/1/1)
   // to_time_t is unfortunately only on the system_clock and not
@@ -891,6 +897,11 @@ ErrorCode LogParser::processFileResizeEntry(char* buf, int64_t size) {
                 << seqId << " " << fileSize;
     return INVALID_LOG;
   }
+  if (invalidSeqIds_.find(seqId) != invalidSeqIds_.end()) {
+    WLOG(INFO) << "File resize entry for an invalid sequence-id " << seqId
+               << ", ignoring";
+    return OK;
+  }
   auto it = fileInfoMap_.find(seqId);
   if (it == fileInfoMap_.end()) {
     WLOG(ERROR) << "File resize entry for unknown sequence-id " << seqId << " "
@@ -912,7 +923,8 @@ ErrorCode LogParser::processFileResizeEntry(char* buf, int64_t size) {
     WLOG(ERROR) << "Size on the disk is less than the resized size for "
                 << fileName << " seq-id " << seqId << " disk-size "
                 << chunksInfo.getFileSize() << " resized-size " << fileSize;
-    return INVALID_LOG;
+    invalidateFile(seqId);
+    return OK;
   }
   sizeIt->second = fileSize;
   return OK;
@@ -959,7 +971,8 @@ ErrorCode LogParser::processBlockWriteEntry(char* buf, int64_t size) {
                 << chunksInfo.getFileName() << " seq-id " << seqId << " offset "
                 << offset << " block-size " << blockSize
                 << " file size in disk " << chunksInfo.getFileSize();
-    return INVALID_LOG;
+    invalidateFile(seqId);
+    return OK;
   }
   chunksInfo.addChunk(Interval(offset, offset + blockSize));
   return OK;
diff --git a/util/TransferLogManager.h b/util/TransferLogManager.h
index 92fc5a0..0e609aa 100644
--- a/util/TransferLogManager.h
+++ b/util/TransferLogManager.h
@@ -332,6 +332,10 @@ class LogParser {
 
   void clearParsedData();
 
+  /// forgets a file whose state on disk does not fit the log any more; an
+  /// invalidation entry is written for it
+  void invalidateFile(int64_t seqId);
+
   /**
    * Truncates the log
    *
-- 
2.43.0


From 5535f6f6e41a40d1c8c7994373a7e9bf7c7949db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 10/50] fix: forget the logged size of an invalidated file

Its sequence id may be used again for another file, whose resize entry was then
compared with the old file's size and the log rejected.
---
 util/TransferLogManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index b2761c6..f07fe20 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -1006,6 +1006,7 @@ ErrorCode LogParser::processFileInvalidationEntry(char* buf, int64_t size) {
     return INVALID_LOG;
   }
   fileInfoMap_.erase(seqId);
+  seqIdToSizeMap_.erase(seqId);
   invalidSeqIds_.erase(seqId);
   return OK;
 }
-- 
2.43.0


From 404abd1e255868b608d9167362c018a26a10bc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 11/50] fix: do not sync a transfer log that was just closed

A failed write of the directory invalidation entry closed the log and then
aborted the process in fsyncLog().
---
 util/TransferLogManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index f07fe20..6987d6b 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -464,6 +464,7 @@ void TransferLogManager::invalidateDirectory() {
         << "Disk write error while writing directory invalidation entry "
         << written << " " << size;
     closeLog();
+    return;
   }
   fsyncLog();
   return;
-- 
2.43.0


From 6dc8bc27021b42ebe1fd00154e3d1547afbcb176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 12/50] fix: finish a transfer whose log could not be written

When the entry that invalidates the directory cannot be written the log is
closed; a successful transfer then aborted the process in
fixAndCloseTransferLog().
---
 Receiver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Receiver.cpp b/Receiver.cpp
index c624cde..498773a 100644
--- a/Receiver.cpp
+++ b/Receiver.cpp
@@ -521,8 +521,8 @@ void Receiver::fixAndCloseTransferLog(bool transferSuccess) {
   bool isInvalidLog =
       (transferLogManager_->getResumptionStatus() == INVALID_LOG);
   if (transferSuccess && isInconsistentDirectory) {
-    // write log header to validate directory in case of success
-    WDT_CHECK(options_.resume_using_dir_tree);
+    // write log header to validate directory in case of success; does nothing
+    // for a log that had to be closed because it could not be written
     transferLogManager_->writeLogHeader();
   }
 
-- 
2.43.0


From 1a80af4c9f34e5bedac8c55c4b28b96637a64cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 13/50] fix: accept a reduced file size in the log of a
 directory without pre-allocation

---
 util/TransferLogManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 6987d6b..1e06a34 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -913,7 +913,9 @@ ErrorCode LogParser::processFileResizeEntry(char* buf, int64_t size) {
   const string& fileName = chunksInfo.getFileName();
   auto sizeIt = seqIdToSizeMap_.find(seqId);
   WDT_CHECK(sizeIt != seqIdToSizeMap_.end());
-  if (fileSize < sizeIt->second) {
+  // without pre-allocation a file can be smaller on disk than what was logged,
+  // so the size in the source can reduce and still be more than that on disk
+  if (options_.shouldPreallocateFiles() && fileSize < sizeIt->second) {
     WLOG(ERROR) << "File size can not reduce during resizing " << fileName
                 << " " << seqId << " " << fileSize << " " << sizeIt->second;
     return INVALID_LOG;
-- 
2.43.0


From badadc2a4063a6dba7d2ef8ae17a3f7a115465c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 14/50] fix: empty a transfer log that missing files could not
 be removed from

---
 util/TransferLogManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 1e06a34..8c85c39 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -1128,6 +1128,10 @@ ErrorCode LogParser::parseLog(int fd, string& senderIp,
     }
     if (!invalidSeqIds_.empty()) {
       if (!writeFileInvalidationEntries(fd, invalidSeqIds_)) {
+        // the claims about these files can not be withdrawn any other way
+        if (::ftruncate(fd, 0) != 0) {
+          WPLOG(ERROR) << "ftruncate failed for fd " << fd;
+        }
         return INVALID_LOG;
       }
     }
-- 
2.43.0


From 9ce26c9e4c5e7eeee4402daf24e3067bc737cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 15/50] fix: print bytes above 127 in full

---
 bench/Bigram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/Bigram.cpp b/bench/Bigram.cpp
index 3925ebc..7bc7cd9 100644
--- a/bench/Bigram.cpp
+++ b/bench/Bigram.cpp
@@ -25,7 +25,7 @@
 void toPrintableString(char c, std::string& result) {
   if (!std::isprint(c)) {
     char buf[10];
-    snprintf(buf, sizeof(buf), "\\0%o", c);
+    snprintf(buf, sizeof(buf), "\\0%o", static_cast<unsigned char>(c));
     result.append(buf);
     return;
   }
-- 
2.43.0


From 1900354ec3c2d7fcfaee36e38f2e26c96c678d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 16/50] fix: count no bigram in empty input

---
 bench/wdtStats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/wdtStats.cpp b/bench/wdtStats.cpp
index cbd83c6..f926f3f 100644
--- a/bench/wdtStats.cpp
+++ b/bench/wdtStats.cpp
@@ -70,7 +70,7 @@ int main(int argc, char** argv) {
     ++map[b];
     prev = c;
   }
-  if (FLAGS_wrap) {
+  if (FLAGS_wrap && first >= 0) {
     Bigram wrap(prev, first);
     ++map[wrap];
   }
-- 
2.43.0


From a84ac4a778db32861fe66336053fe23b2b17a7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 17/50] fix: generate no more than a start string that fills
 the block

---
 bench/wdtGenFiles.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bench/wdtGenFiles.cpp b/bench/wdtGenFiles.cpp
index 32e3b5f..5e68fdb 100644
--- a/bench/wdtGenFiles.cpp
+++ b/bench/wdtGenFiles.cpp
@@ -250,6 +250,10 @@ class SentenceGen {
     if (!initDone) {
       previous = initial(gen);
     }
+    if (len <= 0) {
+      // the start string, which has no successor, fills the block
+      return previous;
+    }
     result.push_back(previous[0]);
     generate(gen, result, len - 1, previous);
     return previous;
-- 
2.43.0


From 801e158bc1fa13ab0511e51b11308d76c275eda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 18/50] fix: leave nothing of an existing longer file behind
 the generated data

---
 bench/wdtGenFiles.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/wdtGenFiles.cpp b/bench/wdtGenFiles.cpp
index 5e68fdb..f1bbabd 100644
--- a/bench/wdtGenFiles.cpp
+++ b/bench/wdtGenFiles.cpp
@@ -374,7 +374,7 @@ int main(int argc, char** argv) {
             << " data * " << numThreads << " thread), " << blockSz
             << " at a time";
   LOG(INFO) << "Writting to " << FLAGS_filename;
-  const int fd = open(FLAGS_filename.c_str(), O_CREAT | O_WRONLY, 0644);
+  const int fd = open(FLAGS_filename.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
   if (fd < 0) {
     PLOG(FATAL) << "Unable to open " << FLAGS_filename;
   }
-- 
2.43.0


From e595c9e404cbd24b85f36b9fadb6d77dad94832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 19/50] fix: ignore an incomplete last entry of the statistics

---
 bench/wdtGenFiles.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bench/wdtGenFiles.cpp b/bench/wdtGenFiles.cpp
index f1bbabd..2a2ea42 100644
--- a/bench/wdtGenFiles.cpp
+++ b/bench/wdtGenFiles.cpp
@@ -317,7 +317,10 @@ void deserialize(std::vector<PairBigramCount>& statsData, std::istream& sin) {
       break;
     }
     uint32_t count = 0;
-    sin.read(reinterpret_cast<char*>(&count), sizeof(count));
+    if (sin.read(reinterpret_cast<char*>(&count), sizeof(count)).fail()) {
+      LOG(ERROR) << "Ignoring incomplete last entry " << b;
+      break;
+    }
     statsData.emplace_back(b, count);
   }
 }
-- 
2.43.0


From 25fd140f7888aa557c333fb9fbf560041f5ae7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 20/50] fix: read no more of a file chunks list than its buffer
 holds

---
 SenderThread.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 793493d..4927e0b 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -592,6 +592,12 @@ SenderState SenderThread::readFileChunks() {
     }
     toRead = folly::loadUnaligned<int32_t>(buf_);
     toRead = folly::Endian::little(toRead);
+    if (toRead < 0 || toRead > bufSize) {
+      WTLOG(ERROR) << "Size of file chunks list exceeds its buffer " << toRead
+                   << " " << bufSize;
+      threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+      return END;
+    }
     numRead = socket_->read(chunkBuffer.get(), toRead);
     if (numRead != toRead) {
       WTLOG(ERROR) << "Socket read error " << toRead << " " << numRead;
-- 
2.43.0


From 149a97dbaa28fb01c2d6a9f72ee38152a8edab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 21/50] fix: refuse checkpoints of no or negative length

---
 SenderThread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 4927e0b..71eb9e0 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -809,6 +809,11 @@ SenderState SenderThread::processErrCmd() {
 
   int16_t checkpointsLen = folly::loadUnaligned<int16_t>(buf_);
   checkpointsLen = folly::Endian::little(checkpointsLen);
+  if (checkpointsLen <= 0) {
+    WTLOG(ERROR) << "Invalid length of checkpoints " << checkpointsLen;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return END;
+  }
   char checkpointBuf[checkpointsLen];
   numRead = socket_->read(checkpointBuf, checkpointsLen);
   if (numRead != checkpointsLen) {
-- 
2.43.0


From ccfc6f76ec1992fffab979af6e81a0137ed61624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 22/50] fix: refuse a chunk that ends before it starts

---
 Protocol.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Protocol.cpp b/Protocol.cpp
index f6e36db..2cb21e2 100644
--- a/Protocol.cpp
+++ b/Protocol.cpp
@@ -360,7 +360,15 @@ bool Protocol::encodeChunkInfo(char* dest, int64_t& off, int64_t max,
 }
 
 bool Protocol::decodeChunkInfo(ByteRange& br, Interval& chunk) {
-  return decodeInt64C(br, chunk.start_) && decodeInt64C(br, chunk.end_);
+  if (!decodeInt64C(br, chunk.start_) || !decodeInt64C(br, chunk.end_)) {
+    return false;
+  }
+  if (chunk.end_ < chunk.start_) {
+    WLOG(ERROR) << "Invalid chunk decoded " << chunk.start_ << " "
+                << chunk.end_;
+    return false;
+  }
+  return true;
 }
 
 bool Protocol::encodeFileChunksInfo(char* dest, int64_t& off, int64_t max,
-- 
2.43.0


From 73000ed5fcd9126b5cc0af6d9531fc7f496290a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 23/50] fix: send the progress of a file that does not fit into
 one buffer

---
 Protocol.cpp       | 31 ++++++++++++++++++++++++++++---
 ReceiverThread.cpp |  6 +++---
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/Protocol.cpp b/Protocol.cpp
index 2cb21e2..7f3ab09 100644
--- a/Protocol.cpp
+++ b/Protocol.cpp
@@ -429,12 +429,37 @@ int64_t Protocol::encodeFileChunksInfoList(
     const FileChunksInfo& fileChunksInfo = fileChunksInfoList[i];
     int64_t maxLength = maxEncodeLen(fileChunksInfo);
     if (maxLength + oldOffset > bufSize) {
+      const auto& chunks = fileChunksInfo.getChunks();
+      const int64_t excess = maxLength + oldOffset - bufSize;
+      const int64_t numChunks =
+          (int64_t)chunks.size() -
+          (excess + kMaxChunkEncodeLen - 1) / kMaxChunkEncodeLen;
+      if (numChunks < 0) {
+        WLOG(WARNING) << "Chunk info for " << fileChunksInfo.getFileName()
+                      << " can not be encoded in a buffer of size " << bufSize
+                      << ", Ignoring.";
+        continue;
+      }
+      if (off != oldOffset) {
+        break;
+      }
+      // the number of entries is what the receiver has announced, so the entry
+      // is sent with the chunks there is room for, the others are sent again
       WLOG(WARNING) << "Chunk info for " << fileChunksInfo.getFileName()
-                    << " can not be encoded in a buffer of size " << bufSize
-                    << ", Ignoring.";
+                    << " reduced to " << numChunks << " chunks of "
+                    << chunks.size();
+      FileChunksInfo reduced;
+      reduced.setSeqId(fileChunksInfo.getSeqId());
+      reduced.setFileName(fileChunksInfo.getFileName());
+      reduced.setFileSize(fileChunksInfo.getFileSize());
+      for (int64_t j = 0; j < numChunks; j++) {
+        reduced.addChunk(chunks[j]);
+      }
+      encodeFileChunksInfo(dest, off, bufSize, reduced);
+      numEncoded++;
       continue;
     }
-    if (maxLength + off >= bufSize) {
+    if (maxLength + off > bufSize) {
       break;
     }
     encodeFileChunksInfo(dest, off, bufSize, fileChunksInfo);
diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 7dbd2d9..510243c 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -792,9 +792,9 @@ ReceiverState ReceiverThread::sendFileChunks() {
           return ACCEPT_WITH_TIMEOUT;
         }
         int64_t numEntriesWritten = 0;
-        // we try to encode as many chunks as possible in the buffer. If a
-        // single
-        // chunk can not fit in the buffer, it is ignored. Format of encoding :
+        // we try to encode as many chunks as possible in the buffer. If the
+        // chunks of a single file can not fit in the buffer, the last of them
+        // are ignored. Format of encoding :
         // <data-size><chunk1><chunk2>...
         while (numEntriesWritten < numParsedChunksInfo) {
           off = sizeof(int32_t);
-- 
2.43.0


From 14ae650c141080469cf8728f47aa586e76a8381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 24/50] fix: refuse an encryption type that does not exist

---
 Protocol.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Protocol.cpp b/Protocol.cpp
index 7f3ab09..7fcf434 100644
--- a/Protocol.cpp
+++ b/Protocol.cpp
@@ -572,6 +572,10 @@ bool Protocol::decodeEncryptionSettings(char* src, int64_t& off, int64_t max,
   int64_t v;
   bool ok = decodeInt64C(br, v) && decodeString(br, iv) &&
             decodeInt32FixedLength(br, tagInterval);
+  if (ok && v >= NUM_ENC_TYPES) {
+    WLOG(ERROR) << "Unknown encryption type decoded " << v;
+    ok = false;
+  }
   if (ok) {
     encryptionType = static_cast<EncryptionType>(v);
   }
-- 
2.43.0


From 92412db0bca89bad250ab6d1924d77bf0117029f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:57 +0000
Subject: [PATCH 25/50] fix: a logged block beyond the largest offset is not
 within the file

---
 util/TransferLogManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 8c85c39..af39528 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -969,7 +969,8 @@ ErrorCode LogParser::processBlockWriteEntry(char* buf, int64_t size) {
   }
   FileChunksInfo& chunksInfo = it->second;
   // check whether the block is within disk size
-  if (offset + blockSize > chunksInfo.getFileSize()) {
+  if (blockSize > chunksInfo.getFileSize() ||
+      offset > chunksInfo.getFileSize() - blockSize) {
     WLOG(ERROR) << "Block end point is greater than file size in disk "
                 << chunksInfo.getFileName() << " seq-id " << seqId << " offset "
                 << offset << " block-size " << blockSize
-- 
2.43.0


From b3100bd13fda341bcd285c1a4f0ffdf8ce99b135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 26/50] fix: a direct read that ends before the wanted position
 is an unexpected end of file

---
 util/FileByteSource.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/FileByteSource.cpp b/util/FileByteSource.cpp
index a67a719..ae59446 100644
--- a/util/FileByteSource.cpp
+++ b/util/FileByteSource.cpp
@@ -135,7 +135,9 @@ char* FileByteSource::read(int64_t& size) {
     transferStats_.setLocalErrorCode(BYTE_SOURCE_READ_ERROR);
     return nullptr;
   }
-  if (numRead == 0) {
+  if (numRead <= offsetRemainder) {
+    // nothing at or after the position asked for (in case of O_DIRECT the read
+    // starts before it)
     WLOG(ERROR) << "Unexpected EOF on " << metadata_->fullPath << " need align "
                 << alignedReadNeeded_ << " physicalRead " << physicalRead
                 << " offset " << offset_ << " seepPos " << seekPos
-- 
2.43.0


From 32b9b834ea637af30e15b0e9076469402f556843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:18 +0000
Subject: [PATCH 27/50] fix: shutting the controller down while an object is
 being released is no error

---
 WdtResourceController.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/WdtResourceController.cpp b/WdtResourceController.cpp
index 658eea0..b7ec9ee 100644
--- a/WdtResourceController.cpp
+++ b/WdtResourceController.cpp
@@ -315,8 +315,10 @@ void WdtResourceController::shutdown() {
     WVLOG(1) << "Cleared out controller for " << namespaceController.first;
   }
   namespaceMap_.clear();
-  WDT_CHECK_EQ(numReceivers_, 0);
-  WDT_CHECK_EQ(numSenders_, 0);
+  // not necessarily 0 yet: whoever is releasing an object at the moment takes
+  // it off the count himself
+  WVLOG(1) << numSenders_ << " senders and " << numReceivers_
+           << " receivers are being released";
   WVLOG(1) << "Shutdown the wdt resource controller";
 }
 
-- 
2.43.0


From b73da6dda46b0990104e5cd21ce410913bb95c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 28/50] fix: an object created in a namespace that was being
 removed kept its quota for ever

---
 WdtResourceController.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/WdtResourceController.cpp b/WdtResourceController.cpp
index b7ec9ee..bd240f6 100644
--- a/WdtResourceController.cpp
+++ b/WdtResourceController.cpp
@@ -362,8 +362,10 @@ ErrorCode WdtResourceController::createSender(
     const WdtTransferRequest& wdtOperationRequest, SenderPtr& sender) {
   NamespaceControllerPtr controller = nullptr;
   sender = nullptr;
+  // held until the object is there: a namespace that is removed meanwhile would
+  // keep its slot
+  GuardLock lock(controllerMutex_);
   {
-    GuardLock lock(controllerMutex_);
     controller = getNamespaceController(wdtNamespace);
     if (!controller) {
       if (strictRegistration_) {
@@ -387,7 +389,6 @@ ErrorCode WdtResourceController::createSender(
   ErrorCode code =
       controller->createSender(wdtOperationRequest, identifier, sender);
   if (code != OK) {
-    GuardLock lock(controllerMutex_);
     --numSenders_;
     WLOG(ERROR) << "Failed in creating sender for " << wdtNamespace << " "
                 << errorCodeToStr(code);
@@ -424,8 +425,10 @@ ErrorCode WdtResourceController::createReceiver(
     const WdtTransferRequest& wdtOperationRequest, ReceiverPtr& receiver) {
   NamespaceControllerPtr controller = nullptr;
   receiver = nullptr;
+  // held until the object is there: a namespace that is removed meanwhile would
+  // keep its slot
+  GuardLock lock(controllerMutex_);
   {
-    GuardLock lock(controllerMutex_);
     controller = getNamespaceController(wdtNamespace);
     if (!controller) {
       if (strictRegistration_) {
@@ -447,7 +450,6 @@ ErrorCode WdtResourceController::createReceiver(
   ErrorCode code =
       controller->createReceiver(wdtOperationRequest, identifier, receiver);
   if (code != OK) {
-    GuardLock lock(controllerMutex_);
     --numReceivers_;
     WLOG(ERROR) << "Failed in creating receiver for " << wdtNamespace << " "
                 << errorCodeToStr(code);
-- 
2.43.0


From e87f56f188ac6595ae50e1d45dced98777ef9056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 29/50] fix: the throttler's documented rules for unset and
 inconsistent rates were not applied to the rates it is made with

---
 Throttler.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Throttler.cpp b/Throttler.cpp
index dc4fcd2..41afe9b 100644
--- a/Throttler.cpp
+++ b/Throttler.cpp
@@ -40,16 +40,14 @@ void Throttler::configureOptions(double& avgRatePerSec, double& peakRatePerSec,
 Throttler::Throttler(const ThrottlerOptions& options)
     : avgRatePerSec_(options.avg_rate_per_sec) {
   bucketRatePerSec_ = options.max_rate_per_sec;
-  tokenBucketLimit_ = kTimeMultiplier * kBucketMultiplier * bucketRatePerSec_;
+  tokenBucketLimit_ = options.throttler_bucket_limit;
+  configureOptions(avgRatePerSec_, bucketRatePerSec_, tokenBucketLimit_);
   /* We keep the number of tokens generated as zero initially
    * It could be argued that we keep this filled when we created the
    * bucket. However the startTime is passed in this case and the hope is
    * that we will have enough number of tokens by the time we send the data
    */
   tokenBucket_ = 0;
-  if (options.throttler_bucket_limit > 0) {
-    tokenBucketLimit_ = options.throttler_bucket_limit;
-  }
   if (avgRatePerSec_ > 0) {
     WLOG(INFO) << "Average rate " << avgRatePerSec_;
   } else {
-- 
2.43.0


From d1fd1bbb93f56d47abf2f0a74c8c33d75d29784c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:56 +0000
Subject: [PATCH 30/50] fix: a URL with an empty parameter, or a NUL in its
 host or port, was accepted with parts of it lost

---
 WdtTransferRequest.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/WdtTransferRequest.cpp b/WdtTransferRequest.cpp
index 34a6f6c..525486c 100644
--- a/WdtTransferRequest.cpp
+++ b/WdtTransferRequest.cpp
@@ -152,7 +152,7 @@ ErrorCode WdtUri::process(const string& url) {
       WLOG(ERROR) << "Didn't find ] for ipv6 address " << url;
       return URI_PARSE_ERROR;
     }
-    hostName_.assign(urlPiece.data(), 0, hostNameEnd);
+    hostName_.assign(urlPiece.data(), hostNameEnd);
     urlPiece.advance(hostNameEnd + 1);
   } else {
     size_t urlIndex = 0;
@@ -164,7 +164,7 @@ ErrorCode WdtUri::process(const string& url) {
         break;
       }
     }
-    hostName_.assign(urlPiece.data(), 0, urlIndex);
+    hostName_.assign(urlPiece.data(), urlIndex);
     urlPiece.advance(urlIndex);
   }
 
@@ -186,7 +186,7 @@ ErrorCode WdtUri::process(const string& url) {
     }
     try {
       string portStr;
-      portStr.assign(urlPiece.data(), 0, paramsIndex);
+      portStr.assign(urlPiece.data(), paramsIndex);
       port_ = folly::to<int32_t>(portStr);
     } catch (std::exception&) {
       WLOG(ERROR) << "Invalid port, can't be parsed " << url;
@@ -207,11 +207,6 @@ ErrorCode WdtUri::process(const string& url) {
   // parse params
   while (!urlPiece.empty()) {
     StringPiece keyValuePair = urlPiece.split_step('&');
-    if (keyValuePair.empty()) {
-      // Last key value pair
-      keyValuePair = urlPiece;
-      urlPiece.advance(urlPiece.size());
-    }
     StringPiece key = keyValuePair.split_step('=');
     StringPiece value = keyValuePair;
     if (key.empty()) {
-- 
2.43.0


From c4a315e1e5855b049195eafe1e088960058e5230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:56 +0000
Subject: [PATCH 31/50] fix: an encryption type too large for an int in a URL
 could be read as a valid one

---
 util/EncryptionUtils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/EncryptionUtils.cpp b/util/EncryptionUtils.cpp
index ae50ef9..58202fa 100644
--- a/util/EncryptionUtils.cpp
+++ b/util/EncryptionUtils.cpp
@@ -146,6 +146,10 @@ ErrorCode EncryptionParams::unserialize(const string& input,
     if (state == IN_TYPE) {
       // Pre : hex digits
       type = (type << 4) | v;
+      if (type >= NUM_ENC_TYPES) {
+        WLOG(ERROR) << "Encryption type out of range in " << input;
+        return ERROR;
+      }
       continue;
     }
     if (state != RIGHT_HEX) {
-- 
2.43.0


From 4af35748affc62b90c678310f96ce24a2b635199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:56 +0000
Subject: [PATCH 32/50] fix: start_port implied static_ports over the user's
 own choice, and not at all for the disk option type

---
 WdtOptions.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/WdtOptions.cpp b/WdtOptions.cpp
index 24c05c7..9caaa26 100644
--- a/WdtOptions.cpp
+++ b/WdtOptions.cpp
@@ -34,6 +34,10 @@ const char* WdtOptions::DISK_OPTION_TYPE = "disk";
 void WdtOptions::modifyOptions(
     const std::string& optionType,
     const std::set<std::string>& userSpecifiedOptions) {
+  if (userSpecifiedOptions.find("start_port") != userSpecifiedOptions.end()) {
+    CHANGE_IF_NOT_SPECIFIED(static_ports, userSpecifiedOptions, true,
+                            "(start_port is specified)")
+  }
   if (optionType == DISK_OPTION_TYPE) {
     std::string msg("(disk option type)");
     CHANGE_IF_NOT_SPECIFIED(num_ports, userSpecifiedOptions, 3, msg)
@@ -50,11 +54,6 @@ void WdtOptions::modifyOptions(
                   << DISK_OPTION_TYPE;
   }
   // options are initialized for flash. So, no need to change anything
-  if (userSpecifiedOptions.find("start_port") != userSpecifiedOptions.end() &&
-      !static_ports) {
-    WLOG(INFO) << "start_port is specified, setting static_ports true";
-    static_ports = true;
-  }
 }
 
 bool WdtOptions::shouldPreallocateFiles() const {
-- 
2.43.0


From 461ad9b2a7cf968667505bcab6455d50ce6888bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:56 +0000
Subject: [PATCH 33/50] fix: merging counters lost the minimum, and reset kept
 the old one

---
 util/Stats.cpp | 15 +++++++++++++--
 util/Stats.h   |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/util/Stats.cpp b/util/Stats.cpp
index 5a4d504..41a6234 100644
--- a/util/Stats.cpp
+++ b/util/Stats.cpp
@@ -69,9 +69,20 @@ void Counter::record(int64_t v) {
 }
 
 void Counter::merge(const Counter& c) {
-  // merge count_, min_, max_, sum_, sumOfSquares_;
+  // merge count_, realMin_, min_, max_, sum_, sumOfSquares_;
+  if (c.count_ == 0) {
+    return;
+  }
+  if (count_ == 0) {
+    realMin_ = c.realMin_;
+    min_ = c.min_;
+    max_ = c.max_;
+  }
   count_ += c.count_;
-  if (c.min_ && c.min_ < min_) {
+  if (c.realMin_ < realMin_) {
+    realMin_ = c.realMin_;
+  }
+  if (c.min_ && (min_ == 0 || c.min_ < min_)) {
     min_ = c.min_;
   }
   if (c.max_ > max_) {
diff --git a/util/Stats.h b/util/Stats.h
index 82b4347..95907c5 100644
--- a/util/Stats.h
+++ b/util/Stats.h
@@ -205,7 +205,7 @@ class Counter : crashifcopied {
    * resets all the data (not quite thread safe - see ThreadLocalHistogram)
    */
   inline void reset() {
-    count_ = min_ = max_ = sum_ = sumOfSquares_ = 0;
+    count_ = realMin_ = min_ = max_ = sum_ = sumOfSquares_ = 0;
   }
 
   /**
-- 
2.43.0


From dc2f25ef65906177341c80a0f2616122697f5cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:56 +0000
Subject: [PATCH 34/50] fix: the minimum of all but one kind of timing was
 always zero

---
 Reporting.cpp | 1 +
 Reporting.h   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 78ebfb2..0cca280 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -372,6 +372,7 @@ PerfStatReport::PerfStatReport(const WdtOptions& options) {
       "Mismatch between number of stat types and number of descriptions");
   networkTimeoutMillis_ =
       std::min<int>(options.read_timeout_millis, options.write_timeout_millis);
+  std::fill_n(minValueMicros_, kNumTypes_, std::numeric_limits<int64_t>::max());
 }
 
 /**
diff --git a/Reporting.h b/Reporting.h
index 44cae92..1f565b0 100644
--- a/Reporting.h
+++ b/Reporting.h
@@ -589,7 +589,7 @@ class PerfStatReport {
   /// max time for different stat types
   int64_t maxValueMicros_[kNumTypes_] = {0};
   /// min time for different stat types
-  int64_t minValueMicros_[kNumTypes_] = {std::numeric_limits<int64_t>::max()};
+  int64_t minValueMicros_[kNumTypes_];
   /// number of records for different stat types
   int64_t count_[kNumTypes_] = {0};
   /// sum of all records for different stat types
-- 
2.43.0


From 96d60af35ca7cfedfeb7acf00a146048388924ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:28 +0000
Subject: [PATCH 35/50] fix: fail the transfer when directory entries cannot be
 read

A readdir() error, or an lstat()/stat() failure other than a dangling link,
was only logged: the entries vanished and the transfer reported success.
---
 util/DirectorySourceQueue.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 8fe8aec..3fb6fbe 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -297,6 +297,7 @@ bool DirectorySourceQueue::explore() {
       if (!dirEntryRes) {
         if (errno) {
           WPLOG(ERROR) << "Error reading dir " << fullPath;
+          failedDirectories_.emplace_back(fullPath);
           // closedir always called
           hasError = true;
         } else {
@@ -339,6 +340,7 @@ bool DirectorySourceQueue::explore() {
         // if following symlinks is ok we will do stat() too
         if (lstat(newFullPath.c_str(), &fileStat) != 0) {
           WPLOG(ERROR) << "lstat() failed on path " << newFullPath;
+          failedDirectories_.emplace_back(newFullPath);
           hasError = true;
           continue;
         }
@@ -348,6 +350,10 @@ bool DirectorySourceQueue::explore() {
           // Use stat to see if the pointed file is of the right type
           // (overrides previous stat call result)
           if (stat(newFullPath.c_str(), &fileStat) != 0) {
+            if (errno != ENOENT && errno != ENOTDIR && errno != ELOOP) {
+              // not just a dangling link
+              failedDirectories_.emplace_back(newFullPath);
+            }
             WPLOG(ERROR) << "stat() failed on path " << newFullPath;
             hasError = true;
             continue;
-- 
2.43.0


From fd0762a18b9ffaee3b2dde5cc8d609506baf15ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:59 +0000
Subject: [PATCH 36/50] fix: with checksums and GCM a block was confirmed
 before its tag was verified

---
 ReceiverThread.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 510243c..69234fa 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -657,16 +657,16 @@ ReceiverState ReceiverThread::processFileCmd() {
       threadStats_.setLocalErrorCode(CHECKSUM_MISMATCH);
       return ACCEPT_WITH_TIMEOUT;
     }
-    markBlockVerified(blockDetails);
     int64_t msgLen = off_ - oldOffset_;
     numRead_ -= msgLen;
   } else {
     WDT_CHECK(footerType_ == NO_FOOTER);
-    if (encryptionTypeToTagLen(encryptionType)) {
-      blocksWaitingVerification_.emplace_back(blockDetails);
-    } else {
-      markBlockVerified(blockDetails);
-    }
+  }
+  if (encryptionTypeToTagLen(encryptionType)) {
+    // a checksum does not authenticate the block, have to wait for the tag
+    blocksWaitingVerification_.emplace_back(blockDetails);
+  } else {
+    markBlockVerified(blockDetails);
   }
   return READ_NEXT_CMD;
 }
-- 
2.43.0


From 310c0e688a1d6b646712625358c22b7664a427fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:59 +0000
Subject: [PATCH 37/50] fix: a receiver announcing an impossible buffer size
 crashed the sender

---
 SenderThread.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 71eb9e0..3a25091 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -13,6 +13,7 @@
 #include <sys/stat.h>
 #include <wdt/Sender.h>
 #include <wdt/SenderThread.h>
+#include <limits>
 
 namespace facebook {
 namespace wdt {
@@ -558,7 +559,9 @@ SenderState SenderThread::readFileChunks() {
   Protocol::decodeChunksCmd(buf_, off, bufSize_, bufSize, numFiles);
   WTLOG(INFO) << "File chunk list has " << numFiles
               << " entries and is broken in buffers of length " << bufSize;
-  if (bufSize < 0 || numFiles < 0) {
+  // the length of each piece of the list is a 32 bit number
+  if (bufSize < 0 || bufSize > std::numeric_limits<int32_t>::max() ||
+      numFiles < 0) {
     WLOG(ERROR) << "Decoded bogus size for file chunks list bufSize = "
                 << bufSize << " num files " << numFiles;
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
@@ -592,8 +595,8 @@ SenderState SenderThread::readFileChunks() {
     }
     toRead = folly::loadUnaligned<int32_t>(buf_);
     toRead = folly::Endian::little(toRead);
-    if (toRead < 0 || toRead > bufSize) {
-      WTLOG(ERROR) << "Size of file chunks list exceeds its buffer " << toRead
+    if (toRead <= 0 || toRead > bufSize) {
+      WTLOG(ERROR) << "Bogus size of file chunks list " << toRead
                    << " " << bufSize;
       threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
       return END;
-- 
2.43.0


From 9428f0b8bcd39db63de36774bf79cec6c0296aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:59 +0000
Subject: [PATCH 38/50] fix: do not wait for a tag that comes only with more
 data

---
 util/WdtSocket.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/util/WdtSocket.cpp b/util/WdtSocket.cpp
index 2d1278b..802e58b 100644
--- a/util/WdtSocket.cpp
+++ b/util/WdtSocket.cpp
@@ -268,8 +268,10 @@ int WdtSocket::readAndDecryptWithTag(char* buf, int nbyte, int timeoutMs,
         return ret;
       }
       totalRead_ += ret;
-      if (ret < nextTagOffset) {
-        // couldn't read till the tag. Tag will get read during next read
+      if (ret < nextTagOffset || !tryFull) {
+        // couldn't read till the tag, or do not have to read more. Tag will get
+        // read during next read. The tag is only sent with the data that
+        // follows it, so must not wait for it unless that data is needed.
         return ret;
       }
       WDT_CHECK_EQ(nextTagOffset, ret);
@@ -362,8 +364,9 @@ int WdtSocket::readWithTimeout(char* buf, int nbyte, int timeoutMs,
       return (numRead > 0 ? numRead : ret);
     }
     numRead += ret;
-    if (ret < toRead) {
-      // couldn't read full data
+    if (ret < toRead || !tryFull) {
+      // couldn't read full data, or do not have to (and must not wait for a tag
+      // that might be next)
       return numRead;
     }
   }
-- 
2.43.0


From d32dee6795c4d9a7bdf41171013672145ef77870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:59 +0000
Subject: [PATCH 39/50] fix: do not read an encryption tag twice after a
 timeout

---
 util/WdtSocket.cpp | 6 +++++-
 util/WdtSocket.h   | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/WdtSocket.cpp b/util/WdtSocket.cpp
index 802e58b..193ff45 100644
--- a/util/WdtSocket.cpp
+++ b/util/WdtSocket.cpp
@@ -258,7 +258,9 @@ int WdtSocket::readAndDecryptWithTag(char* buf, int nbyte, int timeoutMs,
   const int nextTagOffset = computeNextTagOffset(totalRead_, readTagInterval_);
 
   int numRead = 0;
-  if (nextTagOffset < nbyte) {
+  // a tag that was already read, by a read that then timed out, is not read
+  // again
+  if (nextTagOffset < nbyte && lastTagOffset_ != totalRead_) {
     // tag is contained in this read
     if (nextTagOffset > 0) {
       // try to read till the tag
@@ -297,6 +299,7 @@ int WdtSocket::readAndDecryptWithTag(char* buf, int nbyte, int timeoutMs,
       readErrorCode_ = ENCRYPTION_ERROR;
       return -1;
     }
+    lastTagOffset_ = totalRead_;
   }
   // now try to read rest of the data
   const int ret =
@@ -679,6 +682,7 @@ ErrorCode WdtSocket::closeConnectionInternal(bool doTagIOs) {
   writesFinalized_ = false;
   readsFinalized_ = false;
   totalRead_ = 0;
+  lastTagOffset_ = -1;
   totalWritten_ = 0;
   resetEncryptor();
   resetDecryptor();
diff --git a/util/WdtSocket.h b/util/WdtSocket.h
index f06f48b..efd10e9 100644
--- a/util/WdtSocket.h
+++ b/util/WdtSocket.h
@@ -244,6 +244,9 @@ class WdtSocket {
   int32_t writeTagInterval_{0};
 
   int64_t totalRead_{0};
+
+  /// offset of the last tag that was read, to not read it twice
+  int64_t lastTagOffset_{-1};
   int64_t totalWritten_{0};
 
   /// If this is true, then if we get a cmd other than encryption cmd from the
-- 
2.43.0


From 1b2fa5e95b8aa16086ddf9cf858a3d0bad72ad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:29 +0000
Subject: [PATCH 40/50] fix: do not delete files below directories that could
 not be read

---
 util/DirectorySourceQueue.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 3fb6fbe..cdf369c 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -650,6 +650,13 @@ void DirectorySourceQueue::enqueueFilesToBeDeleted() {
     // not yet been received, return
     return;
   }
+  if (!failedDirectories_.empty()) {
+    // files that could not be discovered are not extra files
+    WLOG(WARNING) << "Not deleting extra files, because "
+                  << failedDirectories_.size()
+                  << " directories could not be read";
+    return;
+  }
   std::set<std::string> discoveredFiles;
   for (const SourceMetaData* metadata : sharedFileData_) {
     discoveredFiles.insert(metadata->relPath);
-- 
2.43.0


From 92b83c6ba0e4b96289d469903e9168d61067abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:29 +0000
Subject: [PATCH 41/50] fix: refuse file names that lead out of the destination

---
 util/FileCreator.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/util/FileCreator.cpp b/util/FileCreator.cpp
index 36262e3..9b23f11 100644
--- a/util/FileCreator.cpp
+++ b/util/FileCreator.cpp
@@ -8,6 +8,7 @@
 #include <fcntl.h>
 #include <folly/Conv.h>
 #include <sys/stat.h>
+#include <algorithm>
 #include <wdt/ErrorCodes.h>
 #include <wdt/util/FileCreator.h>
 
@@ -120,8 +121,28 @@ bool FileCreator::waitForAllocationFinish(int allocatingThreadIndex,
   }
 }
 
+/// @return   whether the path (relative to the root) stays below the root
+static bool staysBelowRoot(const std::string& relPath) {
+  if (relPath.empty() || relPath[0] == '/' || relPath.back() == '/') {
+    return false;
+  }
+  size_t start = 0;
+  while (start <= relPath.size()) {
+    const size_t end = std::min(relPath.find('/', start), relPath.size());
+    if (relPath.compare(start, end - start, "..") == 0) {
+      return false;
+    }
+    start = end + 1;
+  }
+  return true;
+}
+
 int FileCreator::openForBlocks(ThreadCtx& threadCtx,
                                BlockDetails const* blockDetails) {
+  if (!staysBelowRoot(blockDetails->fileName)) {
+    WLOG(ERROR) << "Refusing file name " << blockDetails->fileName;
+    return -1;
+  }
   if (blockDetails->allocationStatus == TO_BE_DELETED) {
     const std::string path = getFullPath(blockDetails->fileName);
     int status;
-- 
2.43.0


From 37e9d659a99378c65b4cc185b96fcdb44d768467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:34 +0000
Subject: [PATCH 42/50] fix: give the slot back when a transfer cannot be
 initialised

wdtSend and wdtReceiveStart returned without releasing the sender or
receiver they had created, so that later transfers to that destination
were refused and the quota was used up.
---
 Wdt.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Wdt.cpp b/Wdt.cpp
index 0def6b7..6c8ad83 100644
--- a/Wdt.cpp
+++ b/Wdt.cpp
@@ -122,6 +122,7 @@ ErrorCode Wdt::wdtSend(const WdtTransferRequest& req,
   auto validatedReq = sender->init();
   if (validatedReq.errorCode != OK) {
     WLOG(ERROR) << "Couldn't init sender with request for " << wdtNamespace;
+    releaseWdtSender(req);
     return validatedReq.errorCode;
   }
   auto transferReport = sender->transfer();
@@ -159,11 +160,15 @@ ErrorCode Wdt::wdtReceiveStart(const std::string& wdtNamespace,
   if (req.errorCode != OK) {
     WLOG(ERROR) << "Couldn't init receiver with request for " << wdtNamespace
                 << " " << identifier;
+    resourceController_->releaseReceiver(wdtNamespace, identifier);
     return req.errorCode;
   }
   errCode = receiver->transferAsync();
   WLOG(INFO) << "wdtReceiveStart for " << wdtNamespace << " " << identifier
              << " : " << errorCodeToStr(errCode);
+  if (errCode != OK) {
+    resourceController_->releaseReceiver(wdtNamespace, identifier);
+  }
   req.errorCode = errCode;
   return errCode;
 }
-- 
2.43.0


From 2ef5cc0598f9d069b6b967321b51ad7eb4505acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:34 +0000
Subject: [PATCH 43/50] fix: an ended send releases only its own sender

When wdtSend ended a running send to the same destination and took its
place, the ended call released its place by the destination's name once
more, and with it the sender that had replaced it.
---
 Wdt.cpp                   | 12 +++++++-----
 Wdt.h                     |  4 +++-
 WdtResourceController.cpp | 11 +++++++----
 WdtResourceController.h   | 12 ++++++++----
 4 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/Wdt.cpp b/Wdt.cpp
index 6c8ad83..b6ac54a 100644
--- a/Wdt.cpp
+++ b/Wdt.cpp
@@ -89,7 +89,8 @@ ErrorCode Wdt::createWdtSender(const WdtTransferRequest& req,
     }
     senderPtr->abort(ABORTED_BY_APPLICATION);
     // This may log an error too
-    resourceController_->releaseSender(wdtNamespace, secondKey);
+    resourceController_->releaseSender(wdtNamespace, secondKey,
+                                       senderPtr.get());
     // Try#2
     errCode = resourceController_->createSender(wdtNamespace, secondKey, req,
                                                 senderPtr);
@@ -104,9 +105,10 @@ ErrorCode Wdt::createWdtSender(const WdtTransferRequest& req,
   return OK;
 }
 
-ErrorCode Wdt::releaseWdtSender(const WdtTransferRequest& wdtRequest) {
+ErrorCode Wdt::releaseWdtSender(const WdtTransferRequest& wdtRequest,
+                                const Sender* only) {
   return resourceController_->releaseSender(wdtRequest.wdtNamespace,
-                                            getSenderIdentifier(wdtRequest));
+                                            getSenderIdentifier(wdtRequest), only);
 }
 
 ErrorCode Wdt::wdtSend(const WdtTransferRequest& req,
@@ -122,12 +124,12 @@ ErrorCode Wdt::wdtSend(const WdtTransferRequest& req,
   auto validatedReq = sender->init();
   if (validatedReq.errorCode != OK) {
     WLOG(ERROR) << "Couldn't init sender with request for " << wdtNamespace;
-    releaseWdtSender(req);
+    releaseWdtSender(req, sender.get());
     return validatedReq.errorCode;
   }
   auto transferReport = sender->transfer();
   errCode = transferReport->getSummary().getErrorCode();
-  releaseWdtSender(req);
+  releaseWdtSender(req, sender.get());
   WLOG(INFO) << "wdtSend for " << wdtNamespace << " " << req.hostName
              << " ended with " << errorCodeToStr(errCode);
   return errCode;
diff --git a/Wdt.h b/Wdt.h
index d4ac50f..b43e822 100644
--- a/Wdt.h
+++ b/Wdt.h
@@ -84,7 +84,9 @@ class Wdt {
                                     bool terminateExistingOne,
                                     SenderPtr& senderPtr);
 
-  virtual ErrorCode releaseWdtSender(const WdtTransferRequest& wdtRequest);
+  /// if only is set, leaves a sender that took its place alone
+  virtual ErrorCode releaseWdtSender(const WdtTransferRequest& wdtRequest,
+                                     const Sender* only = nullptr);
 
   /**
    * Receive data. It creates a receiver on specified namespace/identifier and
diff --git a/WdtResourceController.cpp b/WdtResourceController.cpp
index bd240f6..895c867 100644
--- a/WdtResourceController.cpp
+++ b/WdtResourceController.cpp
@@ -136,12 +136,14 @@ ErrorCode WdtNamespaceController::releaseReceiver(
   return OK;
 }
 
-ErrorCode WdtNamespaceController::releaseSender(const std::string& identifier) {
+ErrorCode WdtNamespaceController::releaseSender(const std::string& identifier,
+                                                const Sender* only) {
   SenderPtr sender = nullptr;
   {
     GuardLock lock(controllerMutex_);
     auto it = sendersMap_.find(identifier);
-    if (it == sendersMap_.end()) {
+    if (it == sendersMap_.end() ||
+        (only != nullptr && it->second.get() != only)) {
       WLOG(ERROR) << "Couldn't find sender to release with id " << identifier
                   << " for " << controllerName_;
       return NOT_FOUND;
@@ -461,7 +463,8 @@ ErrorCode WdtResourceController::createReceiver(
 }
 
 ErrorCode WdtResourceController::releaseSender(const std::string& wdtNamespace,
-                                               const std::string& identifier) {
+                                               const std::string& identifier,
+                                               const Sender* only) {
   NamespaceControllerPtr controller = nullptr;
   {
     controller = getNamespaceController(wdtNamespace);
@@ -470,7 +473,7 @@ ErrorCode WdtResourceController::releaseSender(const std::string& wdtNamespace,
       return ERROR;
     }
   }
-  if (controller->releaseSender(identifier) == OK) {
+  if (controller->releaseSender(identifier, only) == OK) {
     GuardLock lock(controllerMutex_);
     --numSenders_;
     return OK;
diff --git a/WdtResourceController.h b/WdtResourceController.h
index de1e532..be2d77b 100644
--- a/WdtResourceController.h
+++ b/WdtResourceController.h
@@ -88,8 +88,10 @@ class WdtNamespaceController : public WdtControllerBase {
   /// Delete a receiver from this namespace
   ErrorCode releaseReceiver(const std::string& identifier);
 
-  /// Delete a sender from this namespace
-  ErrorCode releaseSender(const std::string& identifier);
+  /// Delete a sender from this namespace (if only is set, just that one and
+  /// not another one that took its place)
+  ErrorCode releaseSender(const std::string& identifier,
+                          const Sender* only = nullptr);
 
   /// Releases all senders in this namespace
   int64_t releaseAllSenders();
@@ -172,9 +174,11 @@ class WdtResourceController : public WdtControllerBase {
                            const WdtTransferRequest& request,
                            ReceiverPtr& receiver);
 
-  /// Release a sender specified with namespace and identifier
+  /// Release a sender specified with namespace and identifier (if only is
+  /// set, just that one and not another one that took its place)
   ErrorCode releaseSender(const std::string& wdtNamespace,
-                          const std::string& identifier);
+                          const std::string& identifier,
+                          const Sender* only = nullptr);
 
   /// Release a receiver specified with namespace and identifier
   ErrorCode releaseReceiver(const std::string& wdtNamespace,
-- 
2.43.0


From 3e9169db756b2dd5b8d99674ade06284fe4f1df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:27 +0000
Subject: [PATCH 44/50] fix: the first two generator threads wrote the same
 data

The engine treats seed 0 like seed 1, so threads 0 and 1 drew the same
characters.
---
 bench/wdtGenFiles.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bench/wdtGenFiles.cpp b/bench/wdtGenFiles.cpp
index 2a2ea42..4697298 100644
--- a/bench/wdtGenFiles.cpp
+++ b/bench/wdtGenFiles.cpp
@@ -81,7 +81,8 @@ using RndEngine = std::minstd_rand;
 
 static std::shared_ptr<RndEngine> createRandomGenerator(int offset) {
   std::shared_ptr<RndEngine> gen = std::make_shared<RndEngine>();
-  time_t t = offset;
+  // not from 0, which gives the same sequence as 1
+  time_t t = offset + 1;
   if (FLAGS_seed_with_time) {
     t += time(nullptr);
     // Should technically be LOG(INFO) so if something fails the test can be
-- 
2.43.0


From df4f28beadee691c1fed60a17b33cc4904fd722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:19 +0000
Subject: [PATCH 45/50] fix: a receiver thread that never could listen leaves a
 checkpoint with its port

---
 ReceiverThread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 69234fa..a347830 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -1046,10 +1046,14 @@ ErrorCode ReceiverThread::init() {
       break;
     }
   }
+  // even without a successful listen: the checkpoint this thread then leaves
+  // has to tell the sender which port it is for
+  checkpoint_.port = socket_->getPort();
   if (socket_->listen() != OK) {
     WTLOG(ERROR) << "Couldn't listen on port " << socket_->getPort();
     return ERROR;
   }
+  // a dynamic port is known now
   checkpoint_.port = socket_->getPort();
   WTLOG(INFO) << "Listening on port " << socket_->getPort();
   return OK;
-- 
2.43.0


From 26d35045a17f5b3c8f367bb39f0a969b1fd61b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:19 +0000
Subject: [PATCH 46/50] fix: close the transfer log when finish is called on a
 receiver that was not started

---
 Receiver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Receiver.cpp b/Receiver.cpp
index 498773a..fd32864 100644
--- a/Receiver.cpp
+++ b/Receiver.cpp
@@ -289,6 +289,10 @@ std::unique_ptr<TransferReport> Receiver::finish() {
   TransferStatus status = getTransferStatus();
   if (status == TransferStatus::NOT_STARTED) {
     WLOG(WARNING) << "Even though transfer has not started, finish is called";
+    if (transferLogManager_) {
+      // init() may have opened it
+      transferLogManager_->closeLog();
+    }
     // getTransferReport will set the error code to ERROR
     return getTransferReport();
   }
-- 
2.43.0


From c3395545230eaefc035d3c2115681dd00a70a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:19 +0000
Subject: [PATCH 47/50] fix: print the url, not an error code, when the
 receiver goes on with fewer ports

---
 wdtCmdLine.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wdtCmdLine.cpp b/wdtCmdLine.cpp
index 600665e..1b28f83 100644
--- a/wdtCmdLine.cpp
+++ b/wdtCmdLine.cpp
@@ -321,6 +321,8 @@ int main(int argc, char* argv[]) {
         return facebook::wdt::FEWER_PORTS;
       }
       retCode = facebook::wdt::OK;
+      // no url is generated from a request with an error
+      augmentedReq.errorCode = facebook::wdt::OK;
     } else if (augmentedReq.errorCode != facebook::wdt::OK) {
       WLOG(ERROR) << "Error setting up receiver " << errorCodeToStr(retCode);
       return retCode;
-- 
2.43.0


From 0651df3b0f7779348dbf2c74daefda9eda3bde42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:19 +0000
Subject: [PATCH 48/50] fix: do not log the encryption secret of a url that
 cannot be parsed

---
 WdtTransferRequest.cpp   | 34 ++++++++++++++++++++++------------
 util/EncryptionUtils.cpp | 12 ++++++------
 wdtCmdLine.cpp           |  4 ++--
 3 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/WdtTransferRequest.cpp b/WdtTransferRequest.cpp
index 525486c..4fb048d 100644
--- a/WdtTransferRequest.cpp
+++ b/WdtTransferRequest.cpp
@@ -17,6 +17,12 @@ using folly::StringPiece;
 namespace facebook {
 namespace wdt {
 
+/// @return   the part of the url that can not hold the secret, for logging
+static string getUrlLogSafeString(const string& url) {
+  const size_t end = url.find_first_of("?&=");
+  return end == string::npos ? url : url.substr(0, end) + "...";
+}
+
 WdtUri::WdtUri(const string& url) {
   errorCode_ = process(url);
 }
@@ -88,15 +94,15 @@ bool WdtUri::unescape(string& res, StringPiece escapedValue) {
     i += 2;
     // Make sure there room for both hex
     if (i >= escapedValue.size()) {
-      WLOG(ERROR) << "Can't decode \"" << escapedValue
-                  << "\" end with unfinished % sequence";
+      WLOG(ERROR) << "Can't decode value (" << escapedValue.size()
+                  << " bytes), end with unfinished % sequence";
       return false;
     }
     const int msb = fromHex(escapedValue[i - 1]);
     const int lsb = fromHex(escapedValue[i]);
     if (msb < 0 || lsb < 0) {
-      WLOG(ERROR) << "Can't decode \"" << escapedValue
-                  << "\" % sequence with non 0-9a-f characters";
+      WLOG(ERROR) << "Can't decode value (" << escapedValue.size()
+                  << " bytes), % sequence with non 0-9a-f characters";
       return false;
     }
     res.push_back(msb << 4 | lsb);
@@ -135,12 +141,13 @@ ErrorCode WdtUri::process(const string& url) {
   StringPiece urlPiece(url, 0, WDT_URL_PREFIX.size());
   StringPiece wdtPrefix(WDT_URL_PREFIX);
   if (urlPiece != wdtPrefix) {
-    WLOG(ERROR) << "Url does not specify wdt protocol " << url;
+    WLOG(ERROR) << "Url does not specify wdt protocol "
+                << getUrlLogSafeString(url);
     return URI_PARSE_ERROR;
   }
   urlPiece = StringPiece(url, WDT_URL_PREFIX.size());
   if (urlPiece.empty()) {
-    WLOG(ERROR) << "Empty host name " << url;
+    WLOG(ERROR) << "Empty host name " << getUrlLogSafeString(url);
     return URI_PARSE_ERROR;
   }
   ErrorCode status = OK;
@@ -149,7 +156,8 @@ ErrorCode WdtUri::process(const string& url) {
     urlPiece.advance(1);
     size_t hostNameEnd = urlPiece.find(']');
     if (hostNameEnd == string::npos) {
-      WLOG(ERROR) << "Didn't find ] for ipv6 address " << url;
+      WLOG(ERROR) << "Didn't find ] for ipv6 address "
+                  << getUrlLogSafeString(url);
       return URI_PARSE_ERROR;
     }
     hostName_.assign(urlPiece.data(), hostNameEnd);
@@ -170,7 +178,7 @@ ErrorCode WdtUri::process(const string& url) {
 
   if (hostName_.empty()) {
     status = URI_PARSE_ERROR;
-    WLOG(ERROR) << "Empty hostname " << url;
+    WLOG(ERROR) << "Empty hostname " << getUrlLogSafeString(url);
   }
 
   if (urlPiece.empty()) {
@@ -189,7 +197,8 @@ ErrorCode WdtUri::process(const string& url) {
       portStr.assign(urlPiece.data(), paramsIndex);
       port_ = folly::to<int32_t>(portStr);
     } catch (std::exception&) {
-      WLOG(ERROR) << "Invalid port, can't be parsed " << url;
+      WLOG(ERROR) << "Invalid port, can't be parsed "
+                  << getUrlLogSafeString(url);
       status = URI_PARSE_ERROR;
     }
     urlPiece.advance(paramsIndex);
@@ -211,7 +220,8 @@ ErrorCode WdtUri::process(const string& url) {
     StringPiece value = keyValuePair;
     if (key.empty()) {
       // Value can be empty but key can't be empty
-      WLOG(ERROR) << "Errors parsing params, url = " << url;
+      WLOG(ERROR) << "Errors parsing params, url = "
+                  << getUrlLogSafeString(url);
       status = URI_PARSE_ERROR;
       break;
     }
@@ -305,8 +315,8 @@ WdtTransferRequest::WdtTransferRequest(const string& uriString) {
   if (!encStr.empty()) {
     ErrorCode code = EncryptionParams::unserialize(encStr, encryptionData);
     if (code != OK) {
-      WLOG(ERROR) << "Unable to parse encryption data from \"" << encStr
-                  << "\" " << errorCodeToStr(code);
+      WLOG(ERROR) << "Unable to parse encryption data (" << encStr.size()
+                  << " bytes) " << errorCodeToStr(code);
       errorCode = getMoreInterestingError(code, errorCode);
     }
   }
diff --git a/util/EncryptionUtils.cpp b/util/EncryptionUtils.cpp
index 58202fa..dfdbe4b 100644
--- a/util/EncryptionUtils.cpp
+++ b/util/EncryptionUtils.cpp
@@ -131,7 +131,7 @@ ErrorCode EncryptionParams::unserialize(const string& input,
       // In type section (before ':')
       if (c == ':') {
         if (type == 0) {
-          WLOG(ERROR) << "Enc type still none when ':' reached " << input;
+          WLOG(ERROR) << "Enc type still none when ':' reached";
           return ERROR;
         }
         state = FIRST_HEX;
@@ -140,14 +140,14 @@ ErrorCode EncryptionParams::unserialize(const string& input,
     }
     int v = WdtUri::fromHex(c);
     if (v < 0) {
-      WLOG(ERROR) << "Not hex found " << (int)c << " in " << input;
+      WLOG(ERROR) << "Not hex found " << (int)c << " in encryption data";
       return ERROR;
     }
     if (state == IN_TYPE) {
       // Pre : hex digits
       type = (type << 4) | v;
       if (type >= NUM_ENC_TYPES) {
-        WLOG(ERROR) << "Encryption type out of range in " << input;
+        WLOG(ERROR) << "Encryption type out of range in input";
         return ERROR;
       }
       continue;
@@ -164,12 +164,12 @@ ErrorCode EncryptionParams::unserialize(const string& input,
     byte = 0;  // not needed but safer
   }
   if (state == IN_TYPE) {
-    WLOG(ERROR) << "Missing ':' in encryption data " << input;
+    WLOG(ERROR) << "Missing ':' in encryption data";
     return ERROR;
   }
   if (state != LEFT_HEX) {
-    WLOG(ERROR) << "Odd number of hex in encryption data " << input
-                << " decoded up to: " << out.data_;
+    WLOG(ERROR) << "Odd number of hex in encryption data, decoded up to: "
+                << out.data_.size() << " bytes";
     return ERROR;
   }
   if (type <= ENC_NONE || type >= NUM_ENC_TYPES) {
diff --git a/wdtCmdLine.cpp b/wdtCmdLine.cpp
index 1b28f83..a008f4a 100644
--- a/wdtCmdLine.cpp
+++ b/wdtCmdLine.cpp
@@ -281,8 +281,8 @@ int main(int argc, char* argv[]) {
   } else {
     reqPtr = std::make_unique<facebook::wdt::WdtTransferRequest>(connectUrl);
     if (reqPtr->errorCode != facebook::wdt::OK) {
-      WLOG(ERROR) << "Invalid url \"" << connectUrl
-                  << "\" : " << errorCodeToStr(reqPtr->errorCode);
+      // not the url itself: it may hold the secret
+      WLOG(ERROR) << "Invalid url : " << errorCodeToStr(reqPtr->errorCode);
       return facebook::wdt::ERROR;
     }
     reqPtr->directory = FLAGS_directory;
-- 
2.43.0


From 41244ddfd13f4891b1dd67413d56084e20c71970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:47 +0000
Subject: [PATCH 49/50] fix: a sender told to send a list of files it cannot
 open ends with an error

---
 wdtCmdLine.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wdtCmdLine.cpp b/wdtCmdLine.cpp
index a008f4a..9119b0b 100644
--- a/wdtCmdLine.cpp
+++ b/wdtCmdLine.cpp
@@ -367,6 +367,10 @@ int main(int argc, char* argv[]) {
         readManifest(std::cin, req, options.odirect_reads);
       } else {
         std::ifstream fin(FLAGS_manifest);
+        if (!fin.is_open()) {
+          WPLOG(ERROR) << "Unable to open manifest " << FLAGS_manifest;
+          return facebook::wdt::ERROR;
+        }
         readManifest(fin, req, options.odirect_reads);
         fin.close();
       }
-- 
2.43.0


From d11c23487dd3f693c95d03a4aa0c1cba47ded41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:20 +0000
Subject: [PATCH 50/50] fix: do not wait for an encryption tag on a socket that
 could not connect

---
 util/ClientSocket.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/util/ClientSocket.cpp b/util/ClientSocket.cpp
index c5db276..a071446 100644
--- a/util/ClientSocket.cpp
+++ b/util/ClientSocket.cpp
@@ -56,6 +56,8 @@ ErrorCode ClientSocket::connect() {
     return CONN_ERROR;
   }
   int count = 0;
+  // What fails to connect is closed without check: there are no tags to read or
+  // write, waiting for them would only take time
   for (struct addrinfo* info = infoList; info != nullptr;
        info = info->ai_next) {
     ++count;
@@ -79,14 +81,14 @@ ErrorCode ClientSocket::connect() {
     if (res < 0) {
       WPLOG(ERROR) << "Failed to make the socket non-blocking " << port_2
                    << " sock " << sockArg << " res " << res;
-      closeConnection();
+      closeNoCheck();
       continue;
     }
 
     if (::connect(fd, info->ai_addr, info->ai_addrlen) != 0) {
       if (errno != EINPROGRESS) {
         WPLOG(INFO) << "Error connecting on " << host << " " << port_2;
-        closeConnection();
+        closeNoCheck();
         continue;
       }
       auto startTime = Clock::now();
@@ -97,7 +99,7 @@ ErrorCode ClientSocket::connect() {
         if (threadCtx_.getAbortChecker()->shouldAbort()) {
           WLOG(ERROR) << "Transfer aborted during connect " << port_2 << " "
                       << fd;
-          closeConnection();
+          closeNoCheck();
           return ABORT;
         }
         // we need this loop because poll() can return before any file handles
@@ -108,7 +110,7 @@ ErrorCode ClientSocket::connect() {
         int timeElapsed = durationMillis(Clock::now() - startTime);
         if (timeElapsed >= connectTimeout) {
           WVLOG(1) << "connect() timed out" << host << " " << port_2;
-          closeConnection();
+          closeNoCheck();
           return CONN_ERROR_RETRYABLE;
         }
         int pollTimeout =
@@ -127,7 +129,7 @@ ErrorCode ClientSocket::connect() {
           }
           WPLOG(ERROR) << "poll() failed " << host << " " << port_2 << " "
                        << fd;
-          closeConnection();
+          closeNoCheck();
           return CONN_ERROR;
         }
         break;
@@ -138,13 +140,13 @@ ErrorCode ClientSocket::connect() {
       socklen_t len = sizeof(connectResult);
       if (getsockopt(fd, SOL_SOCKET, SO_ERROR, &connectResult, &len) < 0) {
         WPLOG(WARNING) << "getsockopt() failed";
-        closeConnection();
+        closeNoCheck();
         continue;
       }
       if (connectResult != 0) {
         WLOG(WARNING) << "connect did not succeed on " << host << " " << port_2
                       << " : " << strerrorStr(connectResult);
-        closeConnection();
+        closeNoCheck();
         continue;
       }
     }
@@ -155,7 +157,7 @@ ErrorCode ClientSocket::connect() {
     res = fcntl(fd, F_SETFL, sockArg);
     if (res == -1) {
       WPLOG(ERROR) << "Could not make the socket blocking " << port_2;
-      closeConnection();
+      closeNoCheck();
       continue;
     }
     WVLOG(1) << "Successful connect on " << fd;
-- 
2.43.0

