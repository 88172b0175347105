------------------------------ MODULE PolyccGen ------------------------------
(* The histories replayed into the driver: every number of regions, with the  *)
(* optimizer failing in any round, or a signal at any external command.       *)
EXTENDS Integers, Sequences, TLC, Json, CSV
CONSTANTS MaxRegions, MaxCmds, Signals, OutFile
VARIABLES case, pc
Faults == {[kind |-> "none", at |-> 0, when |-> "", sig |-> "", rc |-> 0]}
   \cup {[kind |-> "fail", at |-> k, when |-> w, sig |-> "", rc |-> x] : k \in 1..MaxRegions, w \in {"before", "after"}, x \in {1, 2, 139}}   \* 139: killed
   \cup {[kind |-> "signal", at |-> k, when |-> w, sig |-> g, rc |-> 0] :
            k \in 1..MaxCmds, w \in {"before", "after"}, g \in Signals}
Cases == {[kind |-> "polycc", n |-> n, fault |-> f, dir |-> d, style |-> 0, res |-> ""] :
            n \in 1..MaxRegions, f \in Faults, d \in {".", "sub"}}
   \* every way to write the marks and to name the result, without faults and with a failing optimizer
   \cup {[kind |-> "polycc", n |-> n, fault |-> f, dir |-> d, style |-> s, res |-> r] :
            n \in 1..MaxRegions, d \in {".", "sub"}, s \in 0..5, r \in {"", "res.c"},
            f \in {f \in Faults : f.kind = "none" \/ (f.kind = "fail" /\ f.when = "after")}}
\* a fault in a round or at a command that does not exist is no fault
Init == case \in Cases /\ pc = "emit"
Next == pc = "emit" /\ pc' = "done" /\ UNCHANGED case /\ CSVWrite("%1$s", <<ToJson(case)>>, OutFile)
Spec == Init /\ [][Next]_<<case, pc>>
=============================================================================
