----------------------------- MODULE TraceInscop -----------------------------
(* Results of the splicing script against Inscop.tla.  out = the lines of the *)
(* result (texts only), left = files it left behind, tab = values of the      *)
(* helper macros as compiled from the result: [f, a, b, v].                   *)
EXTENDS Inscop, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, pc, res
vars == <<c, pc, res>>
In == Cases[c].in
Out == Cases[c].out
Ob(k, ok, w) == [n |-> k, ok |-> ok, w |-> w]
Known(f) == {f[i].t : i \in DOMAIN f}
Floor(a, b) == a \div b                 \* TLA+: rounds down for b > 0
Ceil(a, b) == -((-a) \div b)
Value(f, a, b) == CASE f = "floord" -> Floor(a, b) [] f = "ceild" -> Ceil(a, b)
                    [] f = "max" -> (IF a > b THEN a ELSE b) [] f = "min" -> (IF a < b THEN a ELSE b)
\* the compiler's preprocessor passes kernels on, changing blanks only
Squeeze(t) == t
Judge ==
  /\ pc = "judge" /\ pc' = "done" /\ UNCHANGED c
  /\ LET exp == Expected(In.orig, In.kern)
         want == {exp[i] : i \in DOMAIN exp}
         got == SelectSeq(Out.lines, LAMBDA t : t \in want)
         ar == Around(In.orig)
         kpos == UNION {Pos(Out.lines, In.kern[i].t) : i \in {i \in DOMAIN In.kern : In.kern[i].k = "code"}}
         incs == Includes(ar) \cup Includes(In.kern)
         hpos(h) == {i \in DOMAIN Out.defs : Out.defs[i].h = h}
     IN res' = {Ob("splice-text", got = exp, Len(exp)),
                Ob("splice-includes", \A t \in incs : Pos(Out.lines, t) # {}, Cardinality(incs)),
                Ob("splice-helpers", \A h \in Helpers : Cardinality(hpos(h)) = 1, 4),
                Ob("splice-helpers-first", \A h \in Helpers : \A i \in hpos(h) : \A p \in kpos : Out.defs[i].p < p, Cardinality(kpos)),
                Ob("splice-values", \A i \in DOMAIN Out.tab : Out.tab[i].v = Value(Out.tab[i].f, Out.tab[i].a, Out.tab[i].b), Len(Out.tab)),
                Ob("splice-clean", Out.left = <<>>, 1)}
Init == c \in 1..Len(Cases) /\ pc = "judge" /\ res = {}
Report == /\ pc = "done" /\ pc' = "reported"
          /\ PrintT("RES " \o ToJson([c |-> c, v |-> 1, res |-> res])) /\ UNCHANGED <<c, res>>
Next == Judge \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
