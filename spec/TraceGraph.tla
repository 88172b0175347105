----------------------------- MODULE TraceGraph -----------------------------
(* The statement graph: components and closures against reachability.         *)
EXTENDS Affine, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ob(n, ok, w) == [n |-> n, ok |-> ok, w |-> w]
VARIABLES c, pc
vars == <<c, pc>>
In == Trace[c].in
Out == Trace[c].out
V == 1..In.n
E == {<<In.edges[i][1], In.edges[i][2]>> : i \in DOMAIN In.edges}
\* transitive closure, by adding one allowed intermediate vertex at a time
RECURSIVE ReachVia(_, _)
ReachVia(R, t) == IF t = 0 THEN R
                  ELSE LET Q == TLCEval(ReachVia(R, t - 1)) IN
                       Q \cup {e \in V \X V : <<e[1], t>> \in Q /\ <<t, e[2]>> \in Q}
Plus(R) == TLCEval(ReachVia(R, In.n))
Sym(R) == R \cup {<<e[2], e[1]>> : e \in R}
Bit(b) == IF b THEN 1 ELSE 0
Adj(R) == [i \in V |-> [j \in V |-> Bit(<<i, j>> \in R)]]
Nz(m) == [i \in V |-> [j \in V |-> Bit(m[i][j] # 0)]]
Obs ==
  LET R == Plus(E)
      U == Plus(Sym(E))
      same(a, b) == a = b \/ (<<a, b>> \in R /\ <<b, a>> \in R)
      conn(a, b) == a = b \/ <<a, b>> \in U
      nscc == Cardinality({{b \in V : same(a, b)} : a \in V})
      ncc == Cardinality({{b \in V : conn(a, b)} : a \in V})
      many(i, j) == Cardinality({d \in DOMAIN In.deps : In.deps[d] = <<i, j, 0, 0>>})
  IN {Ob("graph-created", Out.created = [i \in V |-> [j \in V |-> many(i, j)]], 1),
      Ob("scc-mutual", \A a, b \in V : (Out.scc[a] = Out.scc[b]) <=> same(a, b), 1),
      Ob("scc-topological", \A e \in E : Out.scc[e[1]] <= Out.scc[e[2]], Cardinality(E)),
      Ob("scc-count", Out.nscc = nscc /\ {Out.scc[a] : a \in V} = 0..(nscc - 1) /\ Out.stmtscc = Out.scc, 1),
      Ob("scc-members", /\ Len(Out.verts) = nscc /\ Len(Out.size) = nscc
                        /\ \A s \in 1..nscc : LET m == {a \in V : Out.scc[a] = s - 1} IN
                             /\ Out.size[s] = Cardinality(m) /\ Range(Out.verts[s]) = m /\ Len(Out.verts[s]) = Cardinality(m)
                             /\ \A a \in m : Out.maxdim[s] >= In.dims[a]
                             /\ \E a \in m : Out.maxdim[s] = In.dims[a], 1),
      Ob("scc-frame", Out.same = 1, 1),
      Ob("cc-connected", \A a, b \in V : (Out.cc[a] = Out.cc[b]) <=> conn(a, b), 1),
      Ob("cc-count", Out.ncc = ncc /\ {Out.cc[a] : a \in V} = 0..(ncc - 1), 1),
      Ob("graph-transpose", Nz(Out.transpose) = Adj({<<e[2], e[1]>> : e \in E}), 1),
      Ob("scc-direct", Out.direct = [a \in 1..nscc |-> [b \in 1..nscc |-> Bit(\E e \in E : Out.scc[e[1]] = a - 1 /\ Out.scc[e[2]] = b - 1)]], 1),
      Ob("graph-undirected", Nz(Out.undirected) = Adj(Sym(E)), 1),
      Ob("graph-adjacent", Out.adjacent = Adj(Sym(E)), 1),
      Ob("graph-closure", Nz(Out.closure) = Adj({<<e[2], e[1]>> : e \in R}), Cardinality(R))}
Init == c \in DOMAIN Trace /\ pc = "run"
Judge == pc = "run" /\ pc' = "done" /\ UNCHANGED c /\ PrintT("RES " \o ToJson([c |-> c, v |-> 1, res |-> Obs]))
Next == Judge
Spec == Init /\ [][Next]_vars
=============================================================================
