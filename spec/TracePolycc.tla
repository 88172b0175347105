----------------------------- MODULE TracePolycc -----------------------------
(* Ends of real runs of the driver, against Polycc.tla.  The files are given  *)
(* as their marked lines; a run ended by itself (done), because the optimizer *)
(* failed, or by a signal.                                                    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc, res
vars == <<c, pc, res>>

\* the lines of a program with n regions of which the first m are transformed
RECURSIVE Lines(_, _, _)
Lines(n, m, i) ==
  IF i > n THEN <<>>
  ELSE (IF i <= m THEN <<"t" \o ToString(i)>> ELSE <<"scop", "s" \o ToString(i), "endscop">>)
       \o <<"a" \o ToString(i)>> \o Lines(n, m, i + 1)
Text(n, m) == <<"a0">> \o Lines(n, m, 1)

\* the model's states, from the files seen
P == INSTANCE Polycc WITH MaxRegions <- 4, Guarded <- TRUE,
       n <- Cases[c].in.n,
       src <- IF Cases[c].out.src = Text(Cases[c].in.n, 0) THEN [n |-> Cases[c].in.n, m |-> 0]
              ELSE IF \E m \in 1..Cases[c].in.n : Cases[c].out.src = Text(Cases[c].in.n, m) THEN [n |-> Cases[c].in.n, m |-> 1]
              ELSE [n |-> -1, m |-> -1],
       tmp <- [n |-> -1, m |-> -1],
       out <- IF Cases[c].out.out = Text(Cases[c].in.n, Cases[c].in.n) THEN [n |-> Cases[c].in.n, m |-> Cases[c].in.n]
              ELSE [n |-> -1, m |-> -1],
       kernel <- 0, pc <- "stopped", end <- Cases[c].out["end"]

Ob(k, ok) == [n |-> k, ok |-> ok, w |-> 1]
Init == c \in 1..Len(Cases) /\ pc = "judge" /\ res = {}
Judge ==
  /\ pc = "judge" /\ pc' = "done" /\ UNCHANGED c
  /\ res' = {Ob("driver-source-kept", Cases[c].out.src = Text(Cases[c].in.n, 0)),
             Ob("driver-source-state", P!SourceKept)}
       \cup (IF Cases[c].out["end"] = "done" THEN {Ob("driver-all", P!AllTransformed /\ Cases[c].out.rc = 0)} ELSE {})
       \cup (IF Cases[c].out["end"] = "failed" THEN {Ob("driver-reports", Cases[c].out.rc # 0)} ELSE {})
Report == /\ pc = "done" /\ pc' = "reported"
          /\ PrintT("RES " \o ToJson([c |-> c, v |-> 1, res |-> res])) /\ UNCHANGED <<c, res>>
Next == Judge \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
