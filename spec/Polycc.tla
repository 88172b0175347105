------------------------------- MODULE Polycc -------------------------------
(* The driver that takes a source file with several marked regions through    *)
(* the optimizer, one region per round.  After the first round the source     *)
(* file is moved aside and replaced by the partly transformed program, since  *)
(* the optimizer is always given the same file name; it comes back when the   *)
(* round ends - or when the driver is stopped, at whatever point.             *)
(*                                                                            *)
(* A program with n regions of which the first m are transformed is abstracted*)
(* to the record [n, m]; a file is a program or Absent.                       *)
EXTENDS Integers, Sequences, TLC

CONSTANTS MaxRegions,     \* programs with up to so many regions
          Guarded         \* TRUE: the driver cleans up when it is stopped

Absent == [n |-> -1, m |-> -1]
Program(n, m) == [n |-> n, m |-> m]

VARIABLES n, src, tmp, out, kernel, pc, end
vars == <<n, src, tmp, out, kernel, pc, end>>

Init == /\ n \in 1..MaxRegions /\ src = Program(n, 0) /\ tmp = Absent /\ out = Absent
        /\ kernel = 0 /\ pc = "optimize" /\ end = "running"

\* the optimizer: a kernel for the first region of the source not yet transformed
Optimize == /\ pc = "optimize" /\ src # Absent
            /\ kernel' = src.m + 1 /\ pc' = "splice" /\ UNCHANGED <<n, src, tmp, out, end>>
\* ... or a failure
OptFails == /\ pc = "optimize" /\ end' = "failed" /\ pc' = "stopping" /\ UNCHANGED <<n, src, tmp, out, kernel>>
\* the source's text around the kernel
Splice == /\ pc = "splice" /\ out' = Program(n, kernel) /\ pc' = IF tmp = Absent THEN "test" ELSE "back"
          /\ UNCHANGED <<n, src, tmp, kernel, end>>
Test == /\ pc = "test" /\ UNCHANGED <<n, src, tmp, out, kernel>>
        /\ IF out.m < n THEN pc' = "aside" /\ UNCHANGED end ELSE pc' = "stopping" /\ end' = "done"
Aside == /\ pc = "aside" /\ tmp' = src /\ src' = Absent /\ pc' = "in" /\ UNCHANGED <<n, out, kernel, end>>
In == /\ pc = "in" /\ src' = out /\ out' = Absent /\ pc' = "optimize" /\ UNCHANGED <<n, tmp, kernel, end>>
Back == /\ pc = "back" /\ src' = tmp /\ tmp' = Absent /\ pc' = "test" /\ UNCHANGED <<n, out, kernel, end>>

\* the user or the system stops the driver: at any point
Stop == /\ pc \notin {"stopping", "stopped"} /\ end' = "stopped" /\ pc' = "stopping"
        /\ UNCHANGED <<n, src, tmp, out, kernel>>
Cleanup == /\ pc = "stopping" /\ pc' = "stopped" /\ UNCHANGED <<n, out, kernel, end>>
           /\ IF Guarded /\ tmp # Absent THEN src' = tmp /\ tmp' = Absent ELSE UNCHANGED <<src, tmp>>

Next == Optimize \/ OptFails \/ Splice \/ Test \/ Aside \/ In \/ Back \/ Stop \/ Cleanup
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
\* nobody ever loses the original program
Original == src = Program(n, 0) \/ tmp = Program(n, 0)
\* and it is the source file whenever the driver is not running
SourceKept == pc = "stopped" => src = Program(n, 0) /\ tmp = Absent
\* success means that every region was transformed
AllTransformed == pc = "stopped" /\ end = "done" => out = Program(n, n)
Stops == <>(pc = "stopped")
=============================================================================
