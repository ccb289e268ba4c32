------------------------------- MODULE OptionsMC -------------------------------
(* Every option type with every subset of the options it touches (and a few it  *)
(* does not) given by the user, with the default value, another, or the type's. *)
EXTENDS Options, Json
CONSTANTS Emit
Choices == [num_ports |-> {"8", "3", "5"}, block_size_mbytes |-> {"16", "-1", "8"}, disable_preallocation |-> {"0", "1"},
            resume_using_dir_tree |-> {"0", "1"}, start_port |-> {"22356", "5000"}, static_ports |-> {"0", "1"},
            enable_download_resumption |-> {"0", "1"}]
Opts == DOMAIN Choices
VARIABLES flags, type, left
vars == <<flags, type, left>>
Empty == [n \in {} |-> ""]
Init == flags = Empty /\ type = "" /\ left = Opts
Pick == left /= {} /\ UNCHANGED type
        /\ LET n == CHOOSE x \in left : TRUE IN
           /\ left' = left \ {n}
           /\ flags' = flags \/ \E v \in Choices[n] : flags' = flags @@ (n :> v)
Choose == left = {} /\ type = "" /\ type' \in {"none", "flash", "disk", "Disk"} /\ UNCHANGED <<flags, left>>
Next == Pick \/ Choose
Spec == Init /\ [][Next]_vars
Done == left = {} /\ type /= ""
Wins == Done => \A n \in DOMAIN flags : FromFlags(type, flags)[n] = flags[n]
OnlyTheType == Done => \A n \in Names : FromFlags(type, flags)[n] \in {Defaults[n]} \cup
                 (IF n \in DOMAIN flags THEN {flags[n]} ELSE IF type = "disk" /\ n \in DOMAIN DiskValues THEN {DiskValues[n]}
                  ELSE IF n = "static_ports" /\ "start_port" \in DOMAIN flags THEN {"1"} ELSE {})
Idem == Done => LET o == FromFlags(type, flags) IN Modify(o, type, DOMAIN flags) = o
Show == Emit /\ Done => PrintT(<<"CASE", ToJson([type |-> type, flags |-> flags])>>)
================================================================================
