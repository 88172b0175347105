------------------------------ MODULE GraphGen ------------------------------
(* Directed graphs with statement dimensionalities.  Edges are dependences:   *)
(* <<source, target, read-after-read?, satisfied?>>; deps also has those that *)
(* make no edge, and several for one edge.                                    *)
EXTENDS Affine, TLC, Json, CSV
CONSTANTS Sizes, Densities, OutFile
VARIABLES pc, n, dims, edges, rnd
vars == <<pc, n, dims, edges, rnd>>
NDraw == 64
Draw == [i \in 1..NDraw |-> RandomElement(0..(9999 + 0 * n))]
PickS(i, s) == s[1 + (rnd[i] % Len(s))]
Init == pc = "draw" /\ n = 0 /\ dims = <<>> /\ edges = {} /\ rnd = Zeros(NDraw)
Shake == pc = "draw" /\ pc' = "size" /\ UNCHANGED <<n, dims, edges>>
Size == pc = "size" /\ pc' = "edges" /\ n' = PickS(1, Sizes) /\ dims' = [i \in 1..n' |-> 1 + (rnd[1 + i] % 4)] /\ UNCHANGED edges
Edges ==
  /\ pc = "edges" /\ pc' = "emit"
  /\ LET p == PickS(64, Densities)  shape == rnd[63] % 4
         \* general; forward only; backward only; components on a residue class
         allowed(e) == CASE shape = 0 -> TRUE [] shape = 1 -> e[1] <= e[2] [] shape = 2 -> e[1] >= e[2]
                         [] OTHER -> (e[1] - e[2]) % 2 = 0
     IN edges' = {e \in (1..n) \X (1..n) : allowed(e) /\ rnd[(e[1] - 1) * n + e[2]] % 100 < p}
  /\ UNCHANGED <<n, dims>>
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
\* dependences: one to three per edge, and some that count for nothing
Some(e, i) == [k \in 1..(1 + (rnd[1 + ((e[1] * 7 + e[2] * 3 + i) % 60)] % 3)) |-> <<e[1], e[2], 0, 0>>]
None == [k \in 1..(rnd[61] % 5) |-> <<1 + (rnd[k] % n), 1 + (rnd[k + 7] % n), IF rnd[k + 20] % 2 = 0 THEN 1 ELSE 0, IF rnd[k + 20] % 2 = 0 THEN rnd[k + 30] % 2 ELSE 1>>]
RECURSIVE DepSeq(_)
DepSeq(q) == IF q = <<>> THEN None ELSE IF rnd[1 + (Len(q) % 60)] % 2 = 0 THEN Some(q[1], 0) \o DepSeq(Tail(q)) ELSE DepSeq(Tail(q)) \o Some(q[1], 1)
Emit ==
  /\ pc = "emit" /\ pc' = "done" /\ UNCHANGED <<n, dims, edges>>
  /\ CSVWrite("%1$s", <<ToJson([kind |-> "comp", m |-> "graph", n |-> n, dims |-> dims, edges |-> AsSeq(edges), deps |-> DepSeq(AsSeq(edges)), upd |-> rnd[62] % 2])>>, OutFile)
Next == (Shake \/ Size \/ Edges \/ Emit) /\ rnd' = Draw
Spec == Init /\ [][Next]_vars
=============================================================================
