#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files,
                   state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mech],
                   observe_at=list(observe), hook_needed=hook)))

p("C01", "Completed transfers deliver every byte, whatever breaks on the way",
  "When a transfer finishes and both ends report success, every file the sender discovered exists at the destination under its relative name with exactly the source's size and bytes. This holds for any number of sender/receiver threads, any block size and any sequence of connection breaks, partial reads and writes, retries and thread interleavings. A broken connection never makes the two ends agree on success while data is missing, duplicated at a wrong place, or stale.",
  ["schedules", "fault_sequences", "configurations"],
  "every interleaving of sender and receiver threads, every finite sequence of connection breaks at any byte of either direction, 1..n threads, block transfer on/off, preallocation on/off, checksum/encryption on/off",
  "The e2e scripts need folly and a network, run a few fixed shapes and break connections at arbitrary unreproducible times; none of them runs in the baseline.",
  ["SenderThread.cpp", "ReceiverThread.cpp", "util/ThreadTransferHistory.cpp", "util/DirectorySourceQueue.cpp", "util/FileWriter.cpp", "util/FileCreator.cpp"],
  [("sender state machine: reconnect, checkpoint, resend", "SenderThread.cpp"), ("receiver state machine: checkpoint of verified blocks", "ReceiverThread.cpp")],
  [("history", "blocks sent on this connection and not yet acknowledged", "util/ThreadTransferHistory.h"), ("checkpoint", "number of blocks the receiver has verified and bytes of the one in progress", "ReceiverThread.h")],
  ["bytes on each socket (client side)", "destination tree", "TransferReport of both ends"])

p("C02", "A transfer is reported OK only if it really completed",
  "The sender's report is OK only if every discovered block was acknowledged, no file or directory failed, and effective bytes equal the discovered total; the receiver's report is OK only if the number of blocks and bytes it verified equal what the sender announced. A failed file appears in the failed list, and an error seen by either end (abort, encryption failure, protocol error, unreadable source) is never turned into OK, although errors of single threads that were fully recovered by others may be.",
  ["fault_sequences", "schedules", "inputs"],
  "all combinations of per-thread final states, per-source results, discovered/acknowledged totals and remote errors",
  "No test builds a report out of mixed per-thread outcomes, and e2e scripts only look at the exit code of a few scenarios.",
  ["Reporting.cpp", "Reporting.h", "Sender.cpp", "Receiver.cpp", "ErrorCodes.cpp"],
  [("TransferReport constructors", "Reporting.cpp"), ("getTransferReport / finish", "Sender.cpp"), ("getTransferReport / finish", "Receiver.cpp")],
  [("TransferStats", "per thread / per source counters and local, remote error codes", "Reporting.h")],
  ["TransferReport accessors"])

p("C03", "Checkpoints return exactly the unacknowledged blocks to the send queue",
  "At any time every dequeued block is either being sent, acknowledged, or waiting in a connection's history; applying a receiver checkpoint of n blocks keeps the first n as acknowledged and puts every later block, and only those, back into the queue, shortened by the received bytes only if the checkpoint names that very block. Checkpoints that go backwards or claim more than was sent are rejected with no effect, a repeated one is reported as no progress, and a block added after the connection was given up by a global checkpoint goes straight back to the queue. The byte and block counters always equal what is acknowledged plus what is still in the history.",
  ["histories", "schedules", "inputs"],
  "every sequence of add-source / local checkpoint / global checkpoint / acknowledge-all / version-mismatch over several connections, every checkpoint value including malformed ones",
  "There is no unit test of this class; in e2e runs a wrong accounting shows up only when a break hits one specific point.",
  ["util/ThreadTransferHistory.cpp", "util/ThreadTransferHistory.h", "util/DirectorySourceQueue.cpp", "Reporting.h"],
  [("setCheckpointAndReturnToQueue / validateCheckpoint / addSource", "util/ThreadTransferHistory.cpp"), ("returnToQueue", "util/DirectorySourceQueue.cpp")],
  [("history_, numAcknowledged_, lastCheckpoint_, globalCheckpoint_", "per connection accounting", "util/ThreadTransferHistory.h")],
  ["blocks obtained again from the queue", "transfer stats of thread and sources", "return codes"])

p("C04", "The send queue hands out each remaining byte range exactly once, in order",
  "For every file, the blocks handed out by the send queue are disjoint and together cover exactly the part the receiver does not already have; each block is handed to one consumer only and carries the right file identity, allocation status and sequence ids. Consumers get deletions first, then blocks in order of fewer failed attempts, larger size, lower offset; they block while discovery is running and all of them are released with 'nothing left' when it is over. Files that cannot be read are reported as failed, never silently skipped.",
  ["inputs", "schedules", "configurations"],
  "every file size, block size and set of already-received chunks; every interleaving of discovery, receipt of the chunk list, several consumers and returned blocks",
  "No test drives the queue directly; e2e runs only see the sum.",
  ["util/DirectorySourceQueue.cpp", "util/DirectorySourceQueue.h", "Protocol.cpp", "util/FileByteSource.cpp"],
  [("createIntoQueueInternal, setPreviouslyReceivedChunks, getNextSource, returnToQueue", "util/DirectorySourceQueue.cpp")],
  [("sourceQueue_, previouslyTransferredChunks_, numBlocks_, nextSeqId_", "what is left to send", "util/DirectorySourceQueue.h")],
  ["public queue API"])

p("C05", "One thread creates a file, the others wait for it and never destroy its data",
  "When blocks of one file arrive on several receiver threads, exactly one of them creates and sizes the file, the others wait until that has succeeded or failed, and all of them then see the same outcome. The file gets the announced size (or is left to grow when preallocation is off), existing content of a file that is being resumed is kept, and no opening ever truncates bytes already written in this session. A waiter is never left blocked after the creator is done.",
  ["schedules", "inputs", "fault_sequences"],
  "every interleaving of block arrivals for one or more files, every allocation status, creation failing or succeeding",
  "FileWriterTest writes one block from one thread.",
  ["util/FileCreator.cpp", "util/FileCreator.h", "util/FileWriter.cpp"],
  [("openAndSetSize / openForBlocks / waitForAllocationFinish", "util/FileCreator.cpp")],
  [("fileStatusMap_", "seq-id -> in progress by thread / allocated / failed", "util/FileCreator.h")],
  ["FileCreator public API", "file contents on disk"])

p("C06", "Resuming from a transfer log recovers exactly the logged progress",
  "Parsing a transfer log yields for each file the sequence id, size and exactly the union of byte ranges logged for it after its last (re)creation, minus everything invalidated later. A log that belongs to another session, peer or configuration, or that contradicts itself, is rejected as a whole and never used partly; a log cut at any byte is repaired to its last complete entry and yields the progress of those entries. Compaction never changes what a log means.",
  ["inputs", "histories", "crash_points"],
  "every sequence of log entries (headers, creations, blocks, resizes, file and directory invalidations), and every truncation point of it",
  "Only end-to-end scripts touch the log, with whatever entries a kill happens to leave.",
  ["util/TransferLogManager.cpp", "util/TransferLogManager.h"],
  [("LogParser::parseLog and parse*Entry", "util/TransferLogManager.cpp"), ("compactLog, fixAndCloseTransferLog", "util/TransferLogManager.cpp")],
  [("fileInfoMap / seqIdToSizeMap", "what has been received", "util/TransferLogManager.cpp")],
  ["parseAndMatch/parseAndPrint results", "log file bytes"])

p("C07", "A crash never leaves a log that claims data which is not on disk",
  "At every instant, every byte range the transfer log (as it could be read after a crash at that instant) claims for a file has been written to that file with the right content, and where syncing is enabled was synced before the claim was written. A file's creation is logged before any of its blocks, and a replaced file's old progress is invalidated before new progress is claimed.",
  ["crash_points", "schedules", "fault_sequences"],
  "every crash instant (every prefix of the file-system operations the receiver issued) of a transfer with any thread interleaving and connection breaks",
  "Tests kill a process at a handful of moments and never inspect the log/data order.",
  ["ReceiverThread.cpp", "util/FileWriter.cpp", "util/TransferLogManager.cpp", "util/FileCreator.cpp"],
  [("markBlockVerified -> addBlockWriteEntry", "ReceiverThread.cpp"), ("FileWriter::close/sync", "util/FileWriter.cpp")],
  [("log entries queue", "entries waiting for the writer thread", "util/TransferLogManager.h")],
  ["interposed write/pwrite/fsync/ftruncate/open/unlink calls"])

p("C08", "An interrupted transfer resumes to an identical copy, sending only the rest",
  "After a receiver or sender stops at any point, a new transfer into the same directory with resumption enabled ends with a destination identical to the source. It re-sends exactly the ranges that were not recorded as received (all of a file whose recorded state no longer fits: larger, invalidated, other session), and counts the bytes saved accordingly.",
  ["crash_points", "fault_sequences", "configurations"],
  "every interruption point, any number of successive interruptions, changed/added/removed/grown/shrunk source files between runs, log-based and directory-tree-based resumption",
  "The resumption scripts use random kill times and check only a checksum at the end.",
  ["Receiver.cpp", "SenderThread.cpp", "ReceiverThread.cpp", "util/TransferLogManager.cpp", "util/DirectorySourceQueue.cpp"],
  [("Receiver::startNewGlobalSession / setupResume, file chunks exchange", "Receiver.cpp, ReceiverThread.cpp"), ("setPreviouslyReceivedChunks", "util/DirectorySourceQueue.cpp")],
  [("fileChunksInfo_", "progress sent to the sender", "Receiver.h")],
  ["bytes on the sockets", "destination tree"])

p("C09", "Received and remaining ranges partition a file",
  "For any set of byte ranges added in any order, with overlaps, duplicates or adjacency, the merged form is the sorted list of maximal disjoint ranges covering the same bytes, the remaining ranges for a given file size are exactly the complement inside that size, and the total is the number of covered bytes.",
  ["inputs", "histories"],
  "every finite set of ranges and every file size, including zero-length, touching and equal ranges",
  "ProtocolTest checks three hand-written cases.",
  ["Protocol.cpp", "Protocol.h"],
  [("FileChunksInfo::addChunk/mergeChunks/getRemainingChunks/getTotalChunkSize", "Protocol.cpp")],
  [("chunks_", "list of received intervals", "Protocol.h")],
  ["FileChunksInfo public API"])

p("C10", "Wire and log messages decode to what was encoded, and nothing else",
  "Every protocol message (settings, file/block header, size, done, abort, checkpoint, chunk list) decodes to exactly the fields that were encoded, for every value and every supported protocol version, with fields a version does not know taking their documented defaults. The byte layout for a given version never changes, so differently built peers keep understanding each other. Truncated or malformed input is rejected and never read past its end or accepted as a shorter message.",
  ["inputs", "configurations"],
  "all field values at and around the encoding boundaries, every protocol version from the oldest supported to the current one, every strict prefix of a message, corrupted bytes",
  "ProtocolTest round-trips a few values at the current version only.",
  ["Protocol.cpp", "Protocol.h", "util/SerializationUtil.cpp", "util/SerializationUtil.h"],
  [("encode*/decode* pairs", "Protocol.cpp"), ("varint and string coding", "util/SerializationUtil.cpp")],
  [],
  ["Protocol static functions"])

p("C11", "Peers of different versions settle on one common version or refuse",
  "Two peers use the lower of their protocol versions if both support it and fail with a version error otherwise. All threads of a transfer end up with the same version, data acknowledged before is never lost or sent twice into the accounting, features unknown to the common version are switched off on both ends, and the outcome does not depend on which thread finds the mismatch first.",
  ["schedules", "configurations"],
  "all pairs of versions, thread counts and interleavings of the threads discovering the mismatch",
  "The negotiation script tries a few pairs, single schedule each.",
  ["SenderThread.cpp", "ReceiverThread.cpp", "Protocol.cpp", "util/ThreadTransferHistory.cpp", "WdtBase.cpp"],
  [("negotiateProtocol", "Protocol.cpp"), ("processVersionMismatch", "SenderThread.cpp"), ("processSettingsCmd / processAbortCmd", "ReceiverThread.cpp"), ("handleVersionMismatch", "util/ThreadTransferHistory.cpp")],
  [("protocolVersion, negotiation status", "version in use", "WdtBase.h, Sender.h")],
  ["bytes on the sockets", "TransferReport", "negotiateProtocol()"])

p("C12", "Thread coordination primitives keep their contracts under every schedule",
  "A run-once-at-start or run-at-end function runs exactly once no matter how many threads arrive; a barrier releases its threads only when all still-registered ones have arrived, and nobody is left waiting when threads leave; a funnel lets exactly one thread do the work at a time while the others wait, and hands over if that thread does not finish; thread-state counts always match the states threads have set.",
  ["schedules"],
  "every interleaving of arrivals, departures, deregistrations and notifications over any number of threads",
  "ThreadsControllerTest samples random schedules of one scenario per primitive.",
  ["util/ThreadsController.cpp", "util/ThreadsController.h"],
  [("ThreadsController, Barrier, Funnel, ConditionGuard, ExecuteOnceFunc", "util/ThreadsController.cpp")],
  [("barrier/funnel/once states", "who has arrived", "util/ThreadsController.h")],
  ["public API, with blocked/returned status of each caller"])

p("C13", "A receiver thread ends a session only after all progress has been handed over",
  "The receiver confirms completion to a sender thread only when every other receiver thread has finished its session and every failed thread's checkpoint has been delivered to a live sender connection; until then it keeps that connection waiting. A failed connection's checkpoint is delivered so that its unacknowledged blocks are sent over the remaining connections, and the transfer ends (in success or failure) once no connection is left.",
  ["schedules", "fault_sequences"],
  "every interleaving of threads finishing, failing and reconnecting, with any subset of connections permanently lost",
  "wdt_global_checkpoint_test.sh exercises one blocked port.",
  ["ReceiverThread.cpp", "SenderThread.cpp", "Receiver.cpp"],
  [("finishWithError / waitForFinishOrNewCheckpoint / sendGlobalCheckpoint / sendDoneCmd", "ReceiverThread.cpp"), ("readReceiverCmd, processErrCmd, processWaitCmd", "SenderThread.cpp")],
  [("checkpoints_, thread states", "checkpoints of failed threads", "Receiver.h")],
  ["bytes on the sockets", "TransferReport"])

p("C14", "Tampered, truncated or wrongly keyed encrypted streams are never accepted",
  "With an authenticated cipher, if any ciphertext or tag byte between the peers is changed, removed, repeated or encrypted under another key, the altered data is never accepted: no block is counted in a checkpoint, confirmed or logged as received before a tag covering all of its bytes has been verified, and when both ends report success the destination has the source's content. A connection whose stream failed verification is never used again, and neither process crashes, whatever bytes arrive. Without tampering, decryption yields exactly the plaintext for every segmentation of reads and writes and every tag and IV-change interval.",
  ["inputs", "fault_sequences", "configurations"],
  "every position and kind of tampering, all ciphers, tag intervals, IV-change intervals and read/write segmentations",
  "EncryptionTest encrypts one string per cipher without any tampering.",
  ["util/EncryptionUtils.cpp", "util/WdtSocket.cpp", "ReceiverThread.cpp", "SenderThread.cpp"],
  [("encrypt/decrypt, tag computation", "util/EncryptionUtils.cpp"), ("computeNextTagOffset, readEncryptionTag, writeTag", "util/WdtSocket.cpp"), ("checkAndFinishBlock / markReceivedBlocksVerified", "ReceiverThread.cpp")],
  [("blocksWaitingVerification_", "blocks received but not yet authenticated", "ReceiverThread.h")],
  ["socket bytes between two WdtSockets", "receiver report", "checkpoints on the wire"])

p("C15", "A block whose data is altered in transit is not accepted as received",
  "With checksums on (and no authenticated encryption), a block whose bytes reach the receiver altered is never counted, acknowledged or logged as received; its bytes are transferred again, and the final file has the source's content. This covers any altered byte of a block's data or of its checksum, whatever the block's position, size or connection. A header that is inconsistent in itself (impossible status, sizes or offsets) is rejected.",
  ["inputs", "fault_sequences"],
  "any altered byte of any block, header or footer on any connection, repeated alterations",
  "No test corrupts data in flight.",
  ["ReceiverThread.cpp", "SenderThread.cpp", "Protocol.cpp"],
  [("checksum comparison in processFileCmd", "ReceiverThread.cpp"), ("footer encoding", "Protocol.cpp")],
  [("checksum", "crc32c of the block", "ReceiverThread.cpp")],
  ["socket bytes", "destination tree", "reports"])

p("C16", "The throttler never lets transfers exceed the configured rates",
  "Over any interval the bytes a throttled group of threads has sent stay within the average rate times the elapsed time and within the peak rate plus the configured burst, up to the one request in progress of each thread. All registered threads share one budget; an idle period does not create more credit than the burst limit; when the last user leaves, the budget starts afresh; rates changed in mid-transfer take effect from that moment, and unset or inconsistent rates are resolved by the documented rules.",
  ["histories", "schedules", "configurations"],
  "every sequence of requests, pauses, rate changes and (de)registrations, under every interleaving of threads and any clock advance",
  "ThrottlerTest checks average rates loosely in real time with fixed rates.",
  ["Throttler.cpp", "Throttler.h"],
  [("limit / calculateSleep / averageThrottler", "Throttler.cpp"), ("startTransfer/endTransfer", "Throttler.cpp")],
  [("tokenBucket_, instantProgress_, lastFillTime_", "bucket state", "Throttler.h")],
  ["limit() under a virtual clock"])

p("C17", "Transfer quotas are never exceeded and never leak",
  "The number of live senders and receivers never exceeds the global limit nor that of their namespace, creation beyond a limit is refused with the quota error and changes nothing, and every release gives back exactly one slot exactly once. Creating an id that exists returns the existing object with the 'already exists' answer; removing stale or all transfers, deregistering a namespace and shutting down leave the counts equal to the objects still alive.",
  ["histories", "schedules"],
  "every sequence and interleaving of create, release, release-stale, (de)register and shutdown over any namespaces and ids",
  "WdtResourceControllerTest runs a few scripted sequences, mostly single threaded.",
  ["WdtResourceController.cpp", "WdtResourceController.h"],
  [("WdtNamespaceController / WdtResourceController", "WdtResourceController.cpp")],
  [("numSenders_, numReceivers_, maps", "live objects", "WdtResourceController.h")],
  ["public API"])

p("C18", "A connection URL carries the transfer request exactly, or says it cannot",
  "Parsing the URL generated for a transfer request gives back the same host, ports, transfer id, protocol version, options and encryption parameters; malformed URLs are reported as an error and never half accepted. The form meant for logs never contains the encryption secret.",
  ["inputs"],
  "every host (names, IPv4, IPv6, empty), port list (contiguous or not), query parameter value incl. reserved characters, and malformed URLs",
  "WdtUrlTest covers a list of literal URLs.",
  ["WdtTransferRequest.cpp", "WdtTransferRequest.h", "util/EncryptionUtils.cpp"],
  [("WdtUri parse/generate/escape", "WdtTransferRequest.cpp"), ("genWdtUrlWithSecret / getLogSafeString", "WdtTransferRequest.cpp")],
  [],
  ["WdtUri and WdtTransferRequest public API"])

p("C19", "Aborting ends both ends promptly, with the abort reported",
  "After an abort is requested at any moment on either end, all its threads stop, the object can be finished and destroyed, and its report carries an error, never OK with missing data. The reason of a real abort stays (a version mismatch never replaces another abort reason and is the only one that can be cleared), and an abort sent by the peer is reported as such on the other end.",
  ["schedules", "fault_sequences"],
  "every moment of abort relative to every protocol state on either end, and every sequence of abort/clear calls",
  "Abort tests use a fixed delay on one end.",
  ["WdtBase.cpp", "SenderThread.cpp", "ReceiverThread.cpp", "util/WdtSocket.cpp"],
  [("abort / clearAbort / getCurAbortCode", "WdtBase.cpp"), ("sendAbortCmd / processAbortCmd", "SenderThread.cpp, ReceiverThread.cpp")],
  [("abortCode_", "reason", "WdtBase.h")],
  ["report error codes", "termination within the timeouts"])

p("C20", "Existing destination data is only replaced or deleted when asked for",
  "Without overwrite (and without resumption), a file already present at the destination is never modified; with it, it ends up with exactly the new content. Extra files are deleted only when deletion is enabled, and then exactly those inside the destination that the sender does not have and the progress exchange listed; the transfer log and files outside the destination are never touched.",
  ["configurations", "inputs", "fault_sequences"],
  "every combination of overwrite, skip-write, resumption, directory-tree resumption and deletion options with every relation of source to destination tree",
  "wdt_overwrite_test.py covers the default two cases.",
  ["util/FileCreator.cpp", "util/FileWriter.cpp", "util/DirectorySourceQueue.cpp", "ReceiverThread.cpp", "Sender.cpp"],
  [("createFile flags", "util/FileCreator.cpp"), ("TO_BE_DELETED handling", "util/FileWriter.cpp, util/DirectorySourceQueue.cpp")],
  [],
  ["destination tree before/after"])

p("C21", "Only a sender that knows the transfer id can write",
  "A receiver accepts data only over connections whose settings carry its own transfer id and an accepted protocol version; any other connection is refused (with an error to the peer once it presented a wrong id or version), writes nothing, learns nothing of what was received, and never lets a transfer be reported as complete with wrong or foreign content. This holds for every thread, before and after reconnections.",
  ["inputs", "fault_sequences", "schedules"],
  "every first message on a connection, wrong, empty or prefix ids, at any time of a running transfer",
  "wdt_bad_server_test.py only checks a sender against garbage.",
  ["ReceiverThread.cpp", "SenderThread.cpp", "Protocol.cpp"],
  [("processSettingsCmd", "ReceiverThread.cpp")],
  [("settings received flag / transfer id", "session authentication", "ReceiverThread.h")],
  ["socket bytes", "destination tree", "reports"])

p("C22", "Directory discovery finds exactly the requested files, each once",
  "Discovery yields each regular file under the root exactly once with its relative name and size if it passes the include/exclude/prune patterns, and nothing else; symbolic links are followed only when asked, without endless recursion, and a directory reached by several links is sent once. With a file list, exactly the listed files are sent, and entries that cannot be read make the transfer fail rather than vanish (a dangling link is no entry).",
  ["inputs", "configurations", "schedules"],
  "every directory tree (nesting, links, cycles, special files, unreadable entries) with every combination of patterns and options",
  "A few fixed trees in shell tests.",
  ["util/DirectorySourceQueue.cpp"],
  [("explore / enqueueFiles", "util/DirectorySourceQueue.cpp")],
  [("todoList, visited", "pending directories", "util/DirectorySourceQueue.cpp")],
  ["discovered sources"])

p("C23", "Retries are bounded: every transfer ends, and progress resets the bound",
  "A sender connection that keeps breaking without progress gives up after the configured number of retries and reports it; connection attempts are bounded likewise; while progress is made the transfer goes on. A receiver whose peer disappears ends by its timeouts, so no transfer runs forever whatever the peer does.",
  ["fault_sequences", "schedules"],
  "every infinite or finite pattern of breaks, stalls and refusals on any subset of connections",
  "Tests with a dead peer check one pattern.",
  ["SenderThread.cpp", "ReceiverThread.cpp", "util/ClientSocket.cpp", "util/ServerSocket.cpp"],
  [("numReconnectWithoutProgress_ / connectToReceiver", "SenderThread.cpp"), ("accept timeouts", "ReceiverThread.cpp")],
  [("numReconnectWithoutProgress_", "retries since last progress", "SenderThread.h")],
  ["connection attempts", "reports"])

p("C24", "Options given by the user always win over defaults of the option type",
  "Choosing an option type changes exactly the documented settings for that type, and never one the user has set explicitly. A chosen start port implies static ports unless the user said otherwise. Preallocation, the kind of resumption and the throttler's limits follow from the final values.",
  ["configurations", "inputs"],
  "every option type and every subset of explicitly given options",
  "OptionTypeTest checks a handful of combinations.",
  ["WdtOptions.cpp", "WdtOptions.h", "util/WdtFlags.cpp"],
  [("modifyOptions / CHANGE_IF_NOT_SPECIFIED", "WdtOptions.cpp")],
  [],
  ["WdtOptions fields"])

p("C25", "Bigram statistics count every adjacent byte pair exactly once",
  "The statistics tool counts, for each pair of adjacent bytes of its input (and, when wrapping, the pair last/first), exactly its number of occurrences, lists the pairs in non-increasing order of count, and its stored form reads back to the same bigrams and counts.",
  ["inputs", "configurations"],
  "every input text of every length incl. empty and one byte, wrap on/off, binary and text output",
  "The unit tests check only construction and comparison of a bigram.",
  ["bench/wdtStats.cpp", "bench/Bigram.h", "bench/Bigram.cpp", "bench/WdtGenTestUtils.cpp"],
  [("main loop, sort and output", "bench/wdtStats.cpp"), ("Bigram ordering and serialization", "bench/Bigram.h")],
  [],
  ["tool output"])

p("C26", "Generated files have the exact size and follow the given statistics",
  "Every generated file has exactly the requested number of bytes and is a chain: each adjacent pair is a bigram with a non-zero count in the statistics, except right after a character that has no successor. The same seed and parameters give the same files, the characters are drawn in proportion to the counts by each thread for itself, and an existing tree is never extended with wrong files: parameters that cannot be met are refused and change nothing.",
  ["inputs", "configurations", "schedules"],
  "every statistics file (incl. dead ends and single bigrams), file size, number of files, directory depth and seed",
  "No test runs the generator.",
  ["bench/wdtGenFiles.cpp", "bench/Bigram.h", "bench/WdtGenTestUtils.cpp"],
  [("generate loop", "bench/wdtGenFiles.cpp")],
  [],
  ["generated files"])

p("C27", "A block is read and written at exactly its own byte range",
  "Reading a block yields exactly the file's bytes of that range, in order and once, however the reads are split, with buffered or direct (aligned) I/O, and fails if the file has become shorter; writing a block puts exactly its bytes at its offset and changes no other byte of the file. A block that could not be read or written completely is reported as an error and not as received.",
  ["inputs", "configurations", "fault_sequences"],
  "every offset, size, buffer size, alignment and short read/write pattern",
  "FileReaderTest and FileWriterTest use one file and a few sizes; neither runs in the baseline.",
  ["util/FileByteSource.cpp", "util/FileWriter.cpp", "util/FileCreator.cpp"],
  [("open/read/advanceOffset", "util/FileByteSource.cpp"), ("write/open/close", "util/FileWriter.cpp")],
  [("bytesRead_, offset_, totalWritten_", "position inside the block", "util/FileByteSource.h, util/FileWriter.h")],
  ["ByteSource and Writer API", "interposed pread/pwrite"])

p("C28", "Counters and histograms account for every recorded value once",
  "Counters, histograms and their thread-local aggregates report exactly the count, sum, minimum, maximum and bucket membership of the values recorded, no matter how many threads record and when the aggregates are merged, swapped or reset; merging two statistics equals recording all values in one. Per-thread transfer statistics add up to the totals of the report in the same way.",
  ["histories", "schedules", "inputs"],
  "every sequence of record/merge/reset/swap operations over any number of threads and any values",
  "Stats_test prints samples and compares one expected output.",
  ["util/Stats.h", "util/Stats.cpp", "Reporting.h", "Reporting.cpp"],
  [("Counter/Histogram record, merge, reset, ThreadLocalSwap", "util/Stats.cpp, util/Stats.h"), ("TransferStats operator+=", "Reporting.cpp")],
  [("hdata_, count_, sum_", "aggregates", "util/Stats.h")],
  ["public API"])

p("C29", "One-call interface: a transfer holds its slot exactly as long as it runs",
  "With the interface of one call per transfer (class Wdt), a send is admitted, holds a slot under its namespace and destination, and gives it back when it ends, whatever its outcome: a refused, failed, ended or successful call leaves nothing behind. While it runs no other send to that destination gets in, unless the caller asks for the running one to be ended (and it is another transfer), which then stops and frees only its own slot. A receiver holds its slot from a successful start to its finish. The calls return the outcome of their transfer or the reason for the refusal.",
  ["histories", "schedules"],
  "every sequence of sends, receiver starts and finishes by any number of threads, with any limits and any outcomes of the transfers",
  "No test uses the Wdt class.",
  ["Wdt.cpp", "Wdt.h", "WdtResourceController.cpp"],
  [("wdtSend/createWdtSender/releaseWdtSender", "Wdt.cpp"), ("wdtReceiveStart/wdtReceiveFinish", "Wdt.cpp"), ("createSender/releaseSender", "WdtResourceController.cpp")],
  [("sendersMap_, receiversMap_", "slots taken", "WdtResourceController.h")],
  ["public API of class Wdt"])

p("C30", "Command line tool: exit status, output and files agree; the key stays secret",
  "A receiving process of the wdt command prints exactly one line on standard output, the address of the transfer with its key, if and only if it starts to receive, and nothing else; the key is written nowhere else, in particular not to the log of either side, also not when the address given to a sender cannot be parsed. A sender told that address (as a flag, on standard input, or by host, port and id) exits with 0 only if all files asked for are at the destination as they are at the source (a list of files means those files, with the lengths given) and then so does the receiver; wrong flags, arguments, addresses, keys, ids, directories or lists make it exit with another status and leave the destination as it was, but for files asked for. Processes end, also when a port is in use by others; with fork the first process does not wait; as a daemon it serves again; no receiver ends by a crash.",
  ["inputs", "histories"],
  "every combination of flags, ways to pass the address, file lists, and ports that are or are not available",
  "No test runs the command.",
  ["wdtCmdLine.cpp", "WdtTransferRequest.cpp", "Receiver.cpp", "ReceiverThread.cpp", "util/EncryptionUtils.cpp"],
  [("main, setUpAbort, readManifest", "wdtCmdLine.cpp"), ("WdtUri::process, getLogSafeString", "WdtTransferRequest.cpp"), ("Receiver::init/finish", "Receiver.cpp")],
  [("exit status, standard output, log", "of each process", "wdtCmdLine.cpp")],
  ["command line"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
