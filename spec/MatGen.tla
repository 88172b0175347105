------------------------------- MODULE MatGen -------------------------------
(* Histories of operations on integer matrices.                               *)
EXTENDS Affine, TLC, Json, CSV
CONSTANTS Ops, NOps, OutFile
VARIABLES pc, regs, ops, rnd
vars == <<pc, regs, ops, rnd>>
NDraw == 24
Draw == [i \in 1..NDraw |-> RandomElement(0..(9999 + 0 * Len(ops)))]
PickS(i, s) == s[1 + (rnd[i] % Len(s))]
PickN(i, lo, hi) == lo + (rnd[i] % (hi - lo + 1))
Chance(i, p) == (rnd[i] % 100) < p
Init == pc = "draw" /\ regs = <<>> /\ ops = <<>> /\ rnd = Zeros(NDraw)
Shake == pc = "draw" /\ pc' = "regs" /\ UNCHANGED <<regs, ops>>
\* small matrices; a share of them of low rank or with zero columns
Entry(i, sp) == IF Chance(i, sp) THEN 0 ELSE PickN(i, -3, 3)
AddReg ==
  /\ pc = "regs" /\ Len(regs) < 3
  /\ LET nr == PickN(1, 1, 4)  nc == PickN(2, 1, 4)  sp == PickS(3, <<10, 40, 70>>)
         base == [i \in 1..nr |-> [j \in 1..nc |-> Entry(4 + ((i - 1) * nc + j), sp)]]
         dep == [i \in 1..nr |-> IF i > 1 /\ i = nr THEN [j \in 1..nc |-> 2 * base[1][j]]
                                 ELSE IF i > 2 THEN [j \in 1..nc |-> base[1][j] - base[2][j]] ELSE base[i]]
         zc == PickN(21, 1, nc)
         z == [i \in 1..nr |-> [j \in 1..nc |-> IF j <= zc THEN 0 ELSE base[i][j]]]
     IN regs' = Append(regs, [n |-> nc, d |-> IF Chance(22, 30) THEN dep ELSE IF Chance(23, 25) THEN z ELSE base])
  /\ pc' = (IF Len(regs) = 2 THEN "ops" ELSE "regs")
  /\ UNCHANGED ops
AddOp ==
  /\ pc = "ops" /\ Len(ops) < NOps
  /\ ops' = Append(ops, [op |-> PickS(1, Ops), a |-> PickN(2, 1, 3), b |-> PickN(3, 1, 3), i |-> PickN(4, 0, 29),
                         v |-> PickN(5, 0, 29)])
  /\ UNCHANGED <<pc, regs>>
Emit ==
  /\ pc = "ops" /\ Len(ops) = NOps /\ pc' = "done"
  /\ CSVWrite("%1$s", <<ToJson([kind |-> "comp", m |-> "mat", regs |-> regs, ops |-> ops])>>, OutFile)
  /\ UNCHANGED <<regs, ops>>
Next == (Shake \/ AddReg \/ AddOp \/ Emit) /\ rnd' = Draw
Spec == Init /\ [][Next]_vars
=============================================================================
