-------------------------------- MODULE Options --------------------------------
(* Options: documented defaults, what an option type changes, what the user     *)
(* gave, and the settings derived from the result.  Values are strings.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Defaults ==
  "ipv6" :> "0" @@ "ipv4" :> "0" @@ "dscp" :> "0" @@ "skip_writes" :> "0" @@ "ignore_open_errors" :> "0" @@ "two_phases" :> "0" @@
  "follow_symlinks" :> "0" @@ "start_port" :> "22356" @@ "num_ports" :> "8" @@ "static_ports" :> "0" @@ "buffer_size" :> "262144" @@
  "max_retries" :> "20" @@ "sleep_millis" :> "50" @@ "backlog" :> "1" @@ "avg_mbytes_per_sec" :> "-1" @@ "max_mbytes_per_sec" :> "0" @@
  "throttler_bucket_limit" :> "0" @@ "throttler_log_time_millis" :> "0" @@ "include_regex" :> "" @@ "exclude_regex" :> "" @@
  "prune_dir_regex" :> "" @@ "max_transfer_retries" :> "3" @@ "full_reporting" :> "0" @@ "progress_report_interval_millis" :> "200" @@
  "block_size_mbytes" :> "16" @@ "accept_timeout_millis" :> "100" @@ "max_accept_retries" :> "500" @@ "accept_window_millis" :> "2000" @@
  "read_timeout_millis" :> "5000" @@ "write_timeout_millis" :> "5000" @@ "connect_timeout_millis" :> "1000" @@
  "abort_check_interval_millis" :> "200" @@ "disk_sync_interval_mb" :> "0.5" @@ "fsync" :> "1" @@ "throughput_update_interval_millis" :> "500" @@
  "enable_checksum" :> "0" @@ "enable_perf_stat_collection" :> "0" @@ "transfer_log_write_interval_ms" :> "100" @@
  "enable_transfer_log_compaction" :> "0" @@ "enable_download_resumption" :> "0" @@ "keep_transfer_log" :> "1" @@
  "disable_sender_verification_during_resumption" :> "0" @@ "global_sender_limit" :> "0" @@ "global_receiver_limit" :> "0" @@
  "namespace_sender_limit" :> "0" @@ "namespace_receiver_limit" :> "1" @@ "odirect_reads" :> "0" @@ "disable_preallocation" :> "0" @@
  "resume_using_dir_tree" :> "0" @@ "open_files_during_discovery" :> "0" @@ "overwrite" :> "0" @@ "drain_extra_ms" :> "500" @@
  "encryption_type" :> "aes128gcm" @@ "encryption_tag_interval_bytes" :> "4194304" @@ "send_buffer_size" :> "0" @@ "receive_buffer_size" :> "0" @@
  "delete_extra_files" :> "0" @@ "skip_fadvise" :> "0" @@ "enable_heart_beat" :> "1" @@ "iv_change_interval_mb" :> "32768" @@ "close_on_exec" :> "0"
Names == DOMAIN Defaults
DiskValues == "num_ports" :> "3" @@ "block_size_mbytes" :> "-1" @@ "disable_preallocation" :> "1" @@ "resume_using_dir_tree" :> "1"
TypeValues(type) == IF type = "disk" THEN DiskValues ELSE [n \in {} |-> ""]

(* modifyOptions: cur is what the options hold, given the names the user set.   *)
Modify(cur, type, given) ==
  LET tv == TypeValues(type)
      a == [n \in Names |-> IF n \in given \/ n \notin DOMAIN tv THEN cur[n] ELSE tv[n]] IN
  \* a chosen port is only used when ports are static
  IF "start_port" \in given /\ "static_ports" \notin given THEN [a EXCEPT !["static_ports"] = "1"] ELSE a

(* initializeFromFlags: flags is a function from the names given to values.     *)
FromFlags(type, flags) ==
  Modify([n \in Names |-> IF n \in DOMAIN flags THEN flags[n] ELSE Defaults[n]], type, DOMAIN flags)

Yes(o, n) == o[n] = "1"
Derived(o) == [prealloc |-> ~Yes(o, "disable_preallocation"),
               logres |-> Yes(o, "enable_download_resumption") /\ ~Yes(o, "resume_using_dir_tree"),
               treeres |-> Yes(o, "enable_download_resumption") /\ Yes(o, "resume_using_dir_tree")]

----------------------------------------------------------------------------
Same(o, p) == DOMAIN o = Names /\ \A n \in Names : o[n] = p[n]
(* throttler options arrive in KB and milliseconds, the options in half MB *)
ThrOk(t, h) == t.avg = 512 * h.avg /\ t.max = 512 * h.max /\ t.burst = 512 * h.burst /\ t.log = h.log /\ t.single = h.single
Ok(r) ==
  CASE r.k = "flags" -> Same(r.got, FromFlags(r.type, r.flags)) /\ Same(r.again, r.got) /\ r.der = Derived(r.got)
    [] r.k = "mod" -> Same(r.got, Modify(r.cur, r.type, {r.given[i] : i \in 1..Len(r.given)})) /\ r.der = Derived(r.got)
    [] r.k = "thr" -> ThrOk(r.t, r.h)
    [] OTHER -> FALSE
================================================================================
