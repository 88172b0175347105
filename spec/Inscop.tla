------------------------------- MODULE Inscop -------------------------------
(* Putting a transformed kernel in the place of the first marked region of a  *)
(* program.  A file is a sequence of lines [k, t]: kind and text.             *)
EXTENDS Integers, Sequences, FiniteSets

IsKind(l, k) == l.k = k
First(f, k) == CHOOSE i \in DOMAIN f : f[i].k = k /\ \A j \in 1..(i - 1) : f[j].k # k
Before(f) == SubSeq(f, 1, First(f, "scop") - 1)
After(f) == SubSeq(f, First(f, "endscop") + 1, Len(f))

Own(l) == l.k \in {"code", "scop", "endscop"}         \* lines that are told apart by their text
Texts(f) == [i \in DOMAIN f |-> f[i].t]
Count(f, t) == Cardinality({i \in DOMAIN f : f[i] = t})

(* what the result must be like *)
Marked(f) == Texts(SelectSeq(f, Own))
Expected(orig, kern) == Marked(Before(orig)) \o Marked(kern) \o Marked(After(orig))
Includes(f) == {f[i].t : i \in {i \in DOMAIN f : f[i].k = "inc"}}
Around(orig) == Before(orig) \o After(orig)
Pos(out, t) == {i \in DOMAIN out : out[i] = t}
Helpers == {"ceild", "floord", "max", "min"}
=============================================================================
