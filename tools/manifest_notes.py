NOTES = "All specifications are TLA+ (spec/*.tla) checked with TLC; see DESIGN.md."
NA = {}
LIN = "TLA+ specification model-checked with TLC; concurrent programs run on the real code under a deterministic scheduler, recorded call/return histories validated by TLC (LinTrace.tla)"
TX = "TLA+ specification (%s) of whole transfers; the real sender and receiver run in a deterministic simulator (scheduler, network, disk, clock) on drawn configurations, schedules and faults, and TLC validates every recorded trace against the specification"
SIM = " Trusts the folly stand-in and the simulator; sequentially consistent memory."
CHECKS = {
 "C01": (TX % "Transfer.tla", "trace_validation", "Any breaks, refusals, stalls and segmentations over 1-5 ports, block sizes, versions, ciphers, resumption; some thousands of transfers per quick run." + SIM),
 "C02": (TX % "Transfer.tla", "trace_validation", "Reports of both ends compared with what the specification says was done; with unreadable sources, failing disks, aborts." + SIM),
 "C06": ("TLA+ specification of a log's meaning (Log.tla), model-checked over all short logs (LogMC.tla); those and longer drawn ones, also cut at every byte, given to the real log manager, results and repaired or compacted logs judged by TLC (LogJudge.tla)", "model_checking",
         "All logs of up to 4 entries from an alphabet of 27 (thorough: 5 in the model) for three kinds of session; random logs of up to 40 entries; parse, repair, address check, print, write, compact. No disk errors here."),
 "C07": (TX % "Log.tla, Transfer.tla", "trace_validation", "2-4 sessions into one directory; every write, sync, log entry, truncation and crash point checked against the log's meaning. A crash loses buffered memory, not the page cache." + SIM),
 "C08": (TX % "Log.tla, Transfer.tla", "trace_validation", "Crash, abort or broken network at any disk operation, then resumption from log or directory, with and without preallocation, compaction, changed files and recovery ids." + SIM),
 "C11": (TX % "Transfer.tla, Admit.tla", "trace_validation", "All pairs of versions 10..32 with and without faults; known finding for common versions 16..20." + SIM),
 "C13": (TX % "Transfer.tla", "trace_validation", "Ports lost for good, several breaks, up to 5 threads; every DONE, WAIT and ERR must be one the specification allows." + SIM),
 "C15": (TX % "Transfer.tla", "trace_validation", "Altered bytes of block data and checksums at any place, with breaks and resumption." + SIM),
 "C19": (TX % "Abort.tla, Transfer.tla", "trace_validation", "Aborts of either end by API or abort checker, several of them, at any event; steps and time after the abort bounded by the specification." + SIM),
 "C21": (TX % "Admit.tla, Transfer.tla", "trace_validation", "Strangers with ten kinds of behaviour at any moment, alone or beside the real sender." + SIM),
 "C23": (TX % "Transfer.tla", "trace_validation", "Small retry bounds, connections broken again and again, black holes, peers that never come." + SIM),

 "C03": (LIN + "; SendQueue.tla", "model_checking",
         "Exhaustive to a depth in the model (nothing lost, nothing twice); the real objects follow it on random programs drawn from the specification and on concurrent ones under random/PCT schedules. Preemption at every memory access of the tree's code; sequentially consistent."),
 "C04": (LIN + "; SendQueue.tla", "model_checking",
         "As C03, for the queue: partition into blocks, resumption, deletion, order, exactly once, concurrent builder and consumers. Directory traversal is C22's."),
 "C09": ("TLA+/TLC model (Chunks.tla), one implementation test per model state", "model_checking",
         "Exhaustive for all range lists up to the bound (and scaled to 64-bit offsets) against the byte-set meaning in the model; longer lists sampled. Trusts the folly stand-in."),
 "C12": (LIN + "; Coord.tla", "model_checking",
         "All programs up to the bound enumerated by TLC; schedules of the real ThreadsController random/PCT and run-until-blocked, at memory-access granularity."),
 "C10": ("TLA+ specification of the byte format (Wire.tla): model-checked round trips (WireMC.tla), its messages and drawn, cut and damaged ones run through the real encoders and decoders, every result judged by TLC", "model_checking",
         "All boundary values with one (thorough: two) unusual field(s), every version step, all cut-off points of short messages, mutated and random bytes; buffers end at an unreadable page. Other values sampled."),
 "C25": ("TLA+ specification (Bigrams.tla): inputs enumerated by TLC (BigramsMC.tla) and drawn, run through the real tool, outputs judged by TLC", "model_checking",
         "All inputs of up to 3 runs over small alphabets, random longer ones (also with counts beyond 16 bits), both output forms; the Bigram class on a grid of byte pairs."),
 "C26": ("TLA+ specification (Bigrams.tla): random statistics and parameters, the real tool's files judged by TLC pair by pair", "trace_validation",
         "Random small statistics incl. dead ends and zero counts, threads, block sizes, start and reset; proportions within seven standard deviations."),
 "C27": ("TLA+ models of reading and of writing a block over every answer of the system calls (BlockIOMC.tla, BlockWMC.tla); their behaviours replayed in the real FileByteSource and FileWriter, results judged by TLC (BlockIO.tla)", "model_checking",
         "Reader: all behaviours of small ranges, file lengths and buffers with one short read and one failure, scaled to 4 KB disk blocks with jitter, plus drawn larger ones; O_DIRECT's rules are checked, not performed. Writer: two blocks of one file interleaved, short, interrupted and failing writes, failing sync and close, four kinds of existing file."),
 "C17": (LIN + "; Quota.tla", "model_checking",
         "Model exhaustive for two threads over small limits; the real controller follows the specification on the model's programs and on drawn ones of up to 3 threads under random/PCT schedules. Objects are created but not started."),
 "C16": ("TLA+ specification of what a throttled group may send (Throttle.tla) and model of the algorithm (ThrottleMC.tla); recorded grants of the real Throttler in virtual time judged by TLC", "trace_validation",
         "Model exhaustive for 2 threads and small rates; real runs of 1-3 threads with drawn requests, pauses, rate changes, leaving and returning, under random/PCT schedules; bounds up to one request per thread."),
 "C18": ("TLA+ grammar of connection URLs and requests (Uri.tla, UriMC.tla); URLs enumerated by TLC and drawn ones given to the real parser and generator, results judged by TLC", "model_checking",
         "All sequences of up to 3 (5) URL pieces behind three heads, drawn URLs, requests with any bytes in every field. Hosts without a question mark; numbers without blanks or plus signs."),
 "C24": ("TLA+ specification of option settings (Options.tla, OptionsMC.tla); settings enumerated by TLC given to the real flags and options, results judged by TLC", "model_checking",
         "Every subset of the options a type touches with default, other and type's value, for four types; every flag alone; drawn mixtures; both flag prefixes."),
 "C28": ("TLA+ specification of counters, histograms and transfer statistics over bags of values (Stats.tla, StatsMC.tla); histories enumerated by TLC and drawn ones run on the real classes, results judged by TLC", "model_checking",
         "All histories of 4 operations on two counters over three values; drawn histories over up to 4 statistics; threads take turns (races between recording and reading are documented as approximate)."),
 "C22": ("TLA+ specification of directory discovery (Discover.tla) and of its algorithm (DiscoverMC.tla); trees enumerated by TLC and drawn ones built on a real file system and given to the real DirectorySourceQueue, results judged by TLC", "model_checking",
         "Every tree over five places (files, directories, links to seven targets, others), algorithm model checked over every order of entries; drawn trees of up to 30 nodes with unreadable directories, failing listings, patterns, lists and generators, up to 3 consumers. Patterns are literals, prefixes and suffixes."),
 "C05": ("TLA+ specification of opening files for blocks (FileOpen.tla), checked by TLC over all interleavings of three threads (FileOpenModel.tla); programs run on the real FileCreator under a deterministic scheduler, histories validated by TLC (FileOpenTrace.tla)", "model_checking",
         "Model exhaustive for 3 threads on one or two files, every option, status and initial size; real runs of 1-3 threads under random/PCT schedules with system calls as preemption points, failing allocation, missing directories."),
 "C14": (TX % "Auth.tla, Crypt.tla, Transfer.tla", "trace_validation", "Streams with bytes changed, removed, repeated or cut at any place, and another key, with every tag interval and breaks; two real sockets with every byte of many streams altered, cut and read in every way, generated by the model and at random; two known findings (written before verified, DONE before the end tag)." + SIM),
 "C20": (TX % "Dest.tla", "trace_validation", "Every relation of source to destination files under overwrite, skip_writes, log and directory-tree resumption, deletion and preallocation, with breaks, unreadable source directories and names that lead out; every operation on a destination file must be one the specification allows; one known finding (a source file named like the log)." + SIM),
 "C29": ("TLA+ specification of the one-call interface (Api.tla), checked by TLC over all interleavings of two threads (ApiModel.tla); programs run on the real Wdt class over a simulated network under a deterministic scheduler, histories validated by TLC (ApiTrace.tla)", "model_checking",
         "Model exhaustive for two threads of one and two calls; real runs of 1-3 threads with small limits and transfers that fail, succeed, are refused, go on in the background or are ended by others. A receiver is finished only by whoever started it."),
 "C30": ("TLA+ specification of a session of two processes of the command (Cli.tla); sessions generated by TLC (CliMC.tla: every way in which at most two things differ from the ordinary), run as real processes over the loopback network, outcomes judged by TLC against the specification", "model_checking",
         "About 260 sessions; real time and network, but nothing that is judged depends on how fast they are. Flags not named in Cli.tla are not varied here (C24 decides how options are set)."),
}
