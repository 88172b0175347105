----------------------------- MODULE ConstrGen ------------------------------
(* Histories of operations on constraint systems.  A behaviour draws three    *)
(* registers and then operations on them; its last step emits the case.       *)
EXTENDS Affine, TLC, Json, CSV

CONSTANTS
  Ops,      \* sequence of operations to draw from (repeats = weight)
  NOps,     \* operations per history
  Width,    \* sequence of dimensionalities
  Flavours, \* sequence over "gen", "diff" (unit coefficients), "eqs" (many equalities), "big"
  OutFile

VARIABLES pc, n, fl, regs, ops, rnd
vars == <<pc, n, fl, regs, ops, rnd>>

NDraw == 40
Draw == [i \in 1..NDraw |-> RandomElement(0..(9999 + 0 * Len(ops)))]
PickS(i, s) == s[1 + (rnd[i] % Len(s))]
PickN(i, lo, hi) == lo + (rnd[i] % (hi - lo + 1))
Chance(i, p) == (rnd[i] % 100) < p

Init == pc = "draw" /\ n = 0 /\ fl = "" /\ regs = <<>> /\ ops = <<>> /\ rnd = Zeros(NDraw)
Shake == pc = "draw" /\ pc' = "start" /\ UNCHANGED <<n, fl, regs, ops>>
Start == pc = "start" /\ pc' = "regs" /\ n' = PickS(1, Width) /\ fl' = PickS(2, Flavours) /\ UNCHANGED <<regs, ops>>

\* a row drawn with the numbers o+1, o+2, ...
Coef(i) == IF fl = "big" THEN PickN(i, -5, 5) ELSE IF Chance(i, 35) THEN 0 ELSE PickN(i, -2, 2)
GenRow(o) == <<IF Chance(o, IF fl = "eqs" THEN 60 ELSE 25) THEN 1 ELSE 0>>
             \o [j \in 1..n |-> Coef(o + j)] \o <<PickN(o + n + 1, -4, 6)>>
\* x_p - x_q + c or +-x_p + c: systems whose rational vertices are integral
DiffRow(o) ==
  LET p == PickN(o + 1, 1, n)  q == PickN(o + 2, 1, n)  sg == IF Chance(o + 3, 50) THEN 1 ELSE -1
  IN <<IF Chance(o, 15) THEN 1 ELSE 0>>
     \o [j \in 1..n |-> IF j = p THEN sg ELSE IF j = q THEN -sg ELSE 0] \o <<PickN(o + 4, -2, 5)>>
Row(o) == IF fl = "diff" THEN DiffRow(o) ELSE GenRow(o)
Conj(o) == [i \in 1..PickN(o, 0, 4) |-> Row(o + 1 + 4 * (i - 1))]
AddReg ==
  /\ pc = "regs" /\ Len(regs) < 3
  /\ regs' = Append(regs, [n |-> n, names |-> IF Chance(40, 50) THEN 1 ELSE 0,
                           d |-> IF Chance(39, 20) THEN <<Conj(1), Conj(18)>> ELSE <<Conj(1)>>])
  /\ pc' = IF Len(regs) = 2 THEN "ops" ELSE "regs"
  /\ UNCHANGED <<n, fl, ops>>
AddOp ==
  /\ pc = "ops" /\ Len(ops) < NOps
  /\ ops' = Append(ops, [op |-> PickS(1, Ops), a |-> PickN(2, 1, 3), b |-> PickN(3, 1, 3), i |-> PickN(4, 0, 11),
                         v |-> PickN(5, -2, 3), row |-> [j \in 1..4 |-> PickN(5 + j, -2, 2)],
                         phi |-> [r \in 1..4 |-> [q \in 1..3 |-> PickN(10 + 3 * r + q, -1, 1)]]])
  /\ UNCHANGED <<pc, n, fl, regs>>
Emit ==
  /\ pc = "ops" /\ Len(ops) = NOps /\ pc' = "done"
  /\ CSVWrite("%1$s", <<ToJson([kind |-> "comp", m |-> "cst", lo |-> -2, hi |-> IF n = 3 THEN 2 ELSE 4, fl |-> fl,
                                regs |-> regs, ops |-> ops])>>, OutFile)
  /\ UNCHANGED <<n, fl, regs, ops>>
Next == (Shake \/ Start \/ AddReg \/ AddOp \/ Emit) /\ rnd' = Draw
Spec == Init /\ [][Next]_vars
=============================================================================
