------------------------------ MODULE TracePipe -----------------------------
(* Checks runs recorded from the implementation against Pluto.tla.  A case is *)
(* an input program with options, the events of each stage and the returned   *)
(* schedule; it is examined for each of its parameter vectors.  Every event   *)
(* is a step; the obligations of the step that do not hold end up in `res`.   *)
EXTENDS Pluto, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, v,      \* case, parameter vector
          pc, l,     \* control; next event
          I, P,      \* instances and required order of the input program
          Q,         \* Q[i] = pairs of the implementation's i-th dependence
          T,         \* time stamps after the last stage seen
          res        \* obligations examined: [l, n, ok, w]
vars == <<c, v, pc, l, I, P, Q, T, res>>

In == Cases[c].in
Out == Cases[c].out
Ev == Out.ev
PV == In.pvals[v]
\* the statements at hand: those of the input, or, once index sets were split, the pieces
IsSplit == Len(Ev) > 0 /\ Ev[1].e = "iss" /\ pc # "inst" /\ pc # "pairs" /\ l > 1
NS == IF IsSplit THEN Len(I) ELSE Len(In.stmts)
Orig(s) == IF IsSplit THEN Ev[1].stmts[s].orig ELSE s
Has(r, f) == f \in DOMAIN r
None == <<>>
On(f) == Has(In.opts, f) /\ In.opts[f] # 0     \* option f is set

\* an obligation named n of event l; w = number of facts it covered
Ob(n, ok, w) == [l |-> l, n |-> n, ok |-> ok, w |-> w]

Init == /\ c \in 1..Len(Cases) /\ v \in 1..Len(Cases[c].in.pvals)
        /\ pc = "inst" /\ l = 1 /\ I = None /\ P = None /\ Q = None /\ T = None /\ res = {}

-----------------------------------------------------------------------------
LoadInst ==
  /\ pc = "inst" /\ pc' = "pairs"
  /\ I' = [s \in 1..NS |-> Inst(In.stmts[s], PV, In.lo, In.hi)]
  /\ UNCHANGED <<c, v, l, P, Q, T, res>>

LoadPairs ==
  /\ pc = "pairs" /\ pc' = "events"
  /\ P' = [s \in 1..NS |-> [t \in 1..NS |->
             UNION {DepPairs(In.deps[d], I, PV) : d \in {d \in DOMAIN In.deps : In.deps[d].s = s /\ In.deps[d].t = t}}]]
  /\ UNCHANGED <<c, v, l, I, Q, T, res>>

-----------------------------------------------------------------------------
(* Time stamps of a recorded transformation.  Tile iterators come first and   *)
(* are resolved from the innermost one outwards: the domain says              *)
(* s*z <= phi <= s*z + s - 1, so z = floor(phi / s).                          *)
\* does row r give a lower-bound form -s*z_k + phi >= 0 with phi free of z_1..z_k ?
DefRow(r, k) == r[1] = 0 /\ r[1 + k] < 0 /\ \A j \in 1..(k - 1) : r[1 + j] = 0
DefRowsOf(dom, k) == IF dom = <<>> THEN {} ELSE {i \in DOMAIN dom[1] : DefRow(dom[1][i], k)}
RECURSIVE Resolve(_, _, _, _)
Resolve(dom, vec, k, tail) ==
  \* vec = values of iterators k+1.. ; tail = parameters
  IF k = 0 THEN vec
  ELSE LET r == dom[1][CHOOSE i \in DefRowsOf(dom, k) : TRUE]
           rest == DotFrom(r, 1 + k, vec \o tail, 0, Len(vec) + Len(tail)) + r[Len(r)]
       IN Resolve(dom, <<FloorDiv(rest, -r[1 + k])>> \o vec, k - 1, tail)
Resolvable(st) == st.dim = st.dimo \/
   (Has(st, "dom") /\ \A k \in 1..(st.dim - st.dimo) : DefRowsOf(st.dom, k) # {})
FullIter(st, x) == IF st.dim = st.dimo THEN x ELSE Resolve(st.dom, x, st.dim - st.dimo, PV)
\* the tile iterators of x are determined by the domain, from both sides
TileDet(st, x) ==
  st.dim = st.dimo \/
  LET n == st.dim - st.dimo  f == FullIter(st, x)
      rows == {i \in DOMAIN st.dom[1] : \E j \in 1..n : st.dom[1][i][1 + j] # 0}
      in(k, e) == \A i \in rows : RowSat(st.dom[1][i], [f EXCEPT ![k] = @ + e] \o PV)
  IN in(1, 0) /\ \A k \in 1..n : ~in(k, 1) /\ ~in(k, -1)
TimeVec(st, x) == LET f == FullIter(st, x) \o PV IN [k \in DOMAIN st.trans |-> AffVal(st.trans[k], f)]
\* statements are recorded in the implementation's order; here id = position - 1
Usable(ss) == /\ Len(ss) = NS
              /\ \A s \in 1..NS : ss[s].id = s - 1 /\ ss[s].dimo = In.stmts[Orig(s)].dim /\ Resolvable(ss[s])
                                  /\ \A k \in DOMAIN ss[s].trans : Len(ss[s].trans[k]) = ss[s].dim + In.npar + 1
              /\ \A s \in 1..NS : Len(ss[s].trans) = Len(ss[1].trans)
TimesOf(ss) == [s \in 1..NS |-> [x \in I[s] |-> TimeVec(ss[s], x)]]

BandOf(b) == [d |-> b.depth + 1, w |-> b.width, S |-> Range(b.stmts)]

-----------------------------------------------------------------------------
(* Events                                                                     *)
\* The program the optimizer works on is the program it was given.
PolyPairs(d) == {pr \in I[d.s] \X I[d.t] : SetSat(d.poly, pr[1] \o pr[2] \o PV)}
\* dependences computed from accesses (pluto_schedule): whatever is required
\* follows from them, and they relate conflicting instances in program order only
Flat == UNION {{<<s, t, pr>> : pr \in P[s][t]} : <<s, t>> \in (1..NS) \X (1..NS)}
RECURSIVE Reach(_, _, _)
Reach(E, seen, todo) ==       \* nodes reachable over E from seen; todo = frontier
  IF todo = {} THEN seen
  ELSE LET nx == {e[2] : e \in {e \in E : e[1] \in todo}} \ seen IN Reach(E, seen \cup nx, nx)
Follows(E, R) ==              \* every edge of R is a path of E
  \A a \in {e[1] : e \in R \ E} :
     LET f == {e[2] : e \in {e \in E : e[1] = a}} IN
     {e[2] : e \in {e \in R : e[1] = a}} \subseteq Reach(E, f, f)
Edges(pairs(_, _)) == UNION {{<<<<s, pr[1]>>, <<t, pr[2]>>>> : pr \in pairs(s, t)} : <<s, t>> \in (1..NS) \X (1..NS)}
EvInput(e) ==
  IF Len(e.stmts) # NS \/ \E s \in 1..NS : e.stmts[s].dim # In.stmts[Orig(s)].dim
  THEN /\ res' = res \cup {Ob("input-stmts", FALSE, 1)} /\ UNCHANGED <<T, Q>>
  ELSE \E q \in {TLCEval([i \in DOMAIN e.deps |-> PolyPairs(e.deps[i])])} :
    /\ Q' = q
    /\ LET dom == \A s \in 1..NS : Inst([dim |-> e.stmts[s].dim, dom |-> e.stmts[s].dom], PV, In.lo - 1, In.hi + 1) = I[s]
           got(s, t) == UNION {q[i] : i \in {i \in DOMAIN e.deps : e.deps[i].s = s /\ e.deps[i].t = t}}
           need(s, t) == P[s][t]
       IN IF In.api = "sched"
          THEN LET E == TLCEval(Edges(got))  R == TLCEval(Edges(need)) IN
               res' = res \cup {Ob("flow-dom", dom, NS), Ob("flow-complete", Follows(E, R), NPairs(P)),
                                Ob("flow-sound", E \subseteq R, NPairs(P))}
          ELSE res' = res \cup {Ob("input-dom", dom, NS),
                  Ob("input-deps", \A s \in 1..NS : \A t \in 1..NS : got(s, t) = P[s][t], NPairs(P))}
    /\ UNCHANGED T

(* Index set splitting: a step from one program to another.  The pieces of a  *)
(* statement hold each of its instances once; the dependences of the pieces   *)
(* are those of the statements.  From here on the program is that of pieces.  *)
EvIss(e) ==
  LET n == Len(e.stmts)
      wf == \A a \in 1..n : e.stmts[a].id = a - 1 /\ e.stmts[a].orig \in 1..NS /\ e.stmts[a].dim = In.stmts[e.stmts[a].orig].dim
                            /\ e.stmts[a].dimo = e.stmts[a].dim
      wd == \A i \in DOMAIN e.deps : e.deps[i].s \in 1..n /\ e.deps[i].t \in 1..n
  IN IF ~wf \/ ~wd THEN res' = res \cup {Ob("iss-pieces", FALSE, 1)} /\ UNCHANGED <<T, Q, I, P>>
     ELSE \E J \in {TLCEval([a \in 1..n |-> Inst([dim |-> e.stmts[a].dim, dom |-> e.stmts[a].dom], PV, In.lo - 1, In.hi + 1)])} :
          \E R \in {TLCEval([i \in DOMAIN e.deps |->
                {pr \in I[e.stmts[e.deps[i].s].orig] \X I[e.stmts[e.deps[i].t].orig] : SetSat(e.deps[i].poly, pr[1] \o pr[2] \o PV)}])} :
       LET of(s) == {a \in 1..n : e.stmts[a].orig = s}
           once == \A s \in 1..NS : \A a \in of(s) : \A b \in of(s) : a # b => J[a] \cap J[b] = {}
           all == \A s \in 1..NS : UNION {J[a] : a \in of(s)} = I[s]
           within == \A i \in DOMAIN R : R[i] \subseteq (J[e.deps[i].s] \X J[e.deps[i].t])
           got(s, t) == UNION {R[i] : i \in {i \in DOMAIN R : e.stmts[e.deps[i].s].orig = s /\ e.stmts[e.deps[i].t].orig = t}}
       IN /\ I' = J /\ UNCHANGED <<T, Q>>
          /\ P' = [a \in 1..n |-> [b \in 1..n |->
                     {pr \in P[e.stmts[a].orig][e.stmts[b].orig] : pr[1] \in J[a] /\ pr[2] \in J[b]}]]
          /\ res' = res \cup {Ob("iss-pieces", TRUE, n), Ob("iss-once", once, e.split), Ob("iss-all", all, e.split),
                               Ob("iss-deps", within /\ \A s \in 1..NS : \A t \in 1..NS : got(s, t) = P[s][t], e.split * NPairs(P))}

\* dimension k is a constant for statement s of the recorded statements F
Const(F, s, k) == \A j \in 1..F[s].dim : F[s].trans[k][j] = 0
\* the loops of the transformed program F (recorded statements) among statements
\* S from dimension d on: at a dimension that is a constant for all of them the
\* statements part company; otherwise those that are not constant share a loop
RECURSIVE LoopsUnder(_, _, _)
LoopsUnder(F, S, d) ==
  IF S = {} \/ d > Len(F[1].trans) THEN {}
  ELSE IF \E s \in S : ~Const(F, s, d)
       THEN {[d |-> d, S |-> {s \in S : ~Const(F, s, d)}]} \cup LoopsUnder(F, S, d + 1)
       ELSE LET val(s) == F[s].trans[d][Len(F[s].trans[d])] IN
            UNION {LoopsUnder(F, {s \in S : val(s) = a}, d + 1) : a \in {val(s) : s \in S}}
LoopSet(seq) == {[d |-> seq[i].depth + 1, S |-> Range(seq[i].stmts)] : i \in DOMAIN seq}
\* loop a lies inside loop b
Inside(F, a, b) == a.d > b.d /\ a.S \subseteq b.S
FinalF == LET fe == {i \in 1..(l - 1) : Ev[i].e = "final"} IN
          IF fe = {} THEN None ELSE Ev[CHOOSE i \in fe : TRUE].stmts
LoopObs(e) ==
  LET F == FinalF IN
  IF F = None \/ ~Usable(F) \/ ~Has(e, "all") THEN {}
  ELSE LET all == TLCEval(LoopsUnder(F, 1..NS, 1))  par == LoopSet(e.par)  dom == LoopSet(e.dompar) IN
    {Ob("loops-all", LoopSet(e.all) = all /\ Len(e.all) = Cardinality(all), Cardinality(all)),
     Ob("loops-par", par \subseteq all /\ Len(e.par) = Cardinality(par), Len(e.par)),
     Ob("loops-dom", dom \subseteq par /\ (\A a \in dom : \A b \in par : ~Inside(F, a, b)), Len(e.dompar)),
     Ob("loops-domcover", \A a \in par : \E b \in dom : a = b \/ (a.d > b.d /\ (a.S \cap b.S # {})), Len(e.par))}
    \cup (IF ~Has(e, "inner") THEN {}
          ELSE {Ob("loops-inner", LoopSet(e.inner) = {a \in all : LoopsUnder(F, a.S, a.d + 1) = {}}, Len(e.inner))})
    \cup (IF ~Has(e, "outer") THEN {}     \* the outermost loops: what is not below another
          ELSE LET outer == LoopSet(e.outer) IN
               {Ob("loops-outer", /\ outer \subseteq all /\ \A a \in outer : \A b \in all : ~Inside(F, a, b)
                                  /\ \A a \in all : \E b \in outer : a = b \/ a.d > b.d, Len(e.outer))})
    \cup (IF ~Has(e, "uj") THEN {}        \* loops to be unrolled and jammed: what they hold can be permuted
          ELSE LET uj == LoopSet(e.uj) IN
               {Ob("ujam-loops", \A a \in uj : (\E b \in all : b.d = a.d /\ a.S \subseteq b.S) /\ LoopsUnder(F, a.S, a.d + 1) # {}, Cardinality(uj)),
                Ob("ujam-points", \A a \in uj : \E s \in a.S : \E j \in (F[s].dim - F[s].dimo + 1)..F[s].dim : F[s].trans[a.d][j] # 0, Cardinality(uj)),
                Ob("ujam-permutable", \A a \in uj : \A s \in a.S : \A t \in a.S : \A pr \in P[s][t] :
                     PrefixEq(T[s][pr[1]], T[t][pr[2]], a.d - 1) =>
                        \A b \in {a} \cup LoopsUnder(F, a.S, a.d + 1) : s \in b.S /\ t \in b.S => Delta(T, s, t, pr, b.d) >= 0, Cardinality(uj))})
    \cup (IF ~Has(e, "pband") THEN {}
          ELSE {Ob("parband-sound", \A i \in DOMAIN e.pband : LET b == BandOf(e.pband[i]) IN
                 \A s \in b.S : \A t \in b.S : \A pr \in P[s][t] : PrefixEq(T[s][pr[1]], T[t][pr[2]], b.d - 1) =>
                    \A k \in b.d..(b.d + b.w - 1) : Delta(T, s, t, pr, k) = 0, Len(e.pband))})
    \cup (IF In.npar # 0 THEN {}
          ELSE {Ob("par-complete",   \* nothing moves along the loop at all: reported
                  \A a \in all : (\A s \in a.S : \A t \in a.S : \A pr \in P[s][t] : Delta(T, s, t, pr, a.d) = 0) => a \in par, Cardinality(all))})

EvLoops(e) ==
  IF T = None THEN UNCHANGED <<T, Q, res>>
  ELSE /\ UNCHANGED <<T, Q>>
       /\ res' = res \cup LoopObs(e) \cup
           {Ob("par-sound", \A i \in DOMAIN e.par : NoCarried(T, P, e.par[i].depth + 1, Range(e.par[i].stmts)), Len(e.par)),
            Ob("dompar-sound", \A i \in DOMAIN e.dompar : NoCarried(T, P, e.dompar[i].depth + 1, Range(e.dompar[i].stmts)), Len(e.dompar))}

-----------------------------------------------------------------------------
(* The choice of hyperplanes.  phi[s] = <<coefficients of the iterators, c0>>. *)
\* rows that give an integral polyhedron: at most one +1 and one -1 per row
DiffRow(r, n) == /\ \A j \in 1..n : r[1 + j] \in {-1, 0, 1}
                 /\ Cardinality({j \in 1..n : r[1 + j] = 1}) <= 1
                 /\ Cardinality({j \in 1..n : r[1 + j] = -1}) <= 1
Network == /\ \A s \in 1..NS : Len(In.stmts[s].dom) = 1
           /\ \A s \in 1..NS : \A i \in DOMAIN In.stmts[s].dom[1] : DiffRow(In.stmts[s].dom[1][i], In.stmts[s].dim)
           /\ \A d \in DOMAIN In.deps : \A i \in DOMAIN In.deps[d].rows :
                DiffRow(In.deps[d].rows[i], In.stmts[In.deps[d].s].dim + In.stmts[In.deps[d].t].dim)
PhiVal(f, x) == AffVal(f, x)
\* what a pair contributes to the distance of phi: pairs of one statement by their difference only
Reqs(E(_, _)) ==
  UNION {IF s = t THEN {<<s, s, [k \in 1..In.stmts[s].dim |-> pr[2][k] - pr[1][k]], <<>>>> : pr \in E(s, s)}
         ELSE {<<s, t, pr[1], pr[2]>> : pr \in E(s, t)} : <<s, t>> \in (1..NS) \X (1..NS)}
ReqDist(q, phi) == IF q[1] = q[2] THEN DotFrom(phi[q[1]], 0, q[3], 0, Len(q[3]))
                   ELSE PhiVal(phi[q[2]], q[4]) - PhiVal(phi[q[1]], q[3])
LegalPhi(R, phi) == \A q \in R : ReqDist(q, phi) >= 0
MaxDist(R, phi) == LET D == {ReqDist(q, phi) : q \in R} \cup {0} IN CHOOSE m \in D : \A x \in D : x <= m
SumDims == SumSeq([s \in 1..NS |-> In.stmts[s].dim])
Big == IF SumDims <= 3 THEN 2 ELSE 1
\* hyperplanes the search may choose from: non-negative, not constant
PhiOf(s) == {f \in [1..(In.stmts[s].dim + 1) -> 0..Big] : \E k \in 1..In.stmts[s].dim : f[k] # 0}
Phis == IF NS = 1 THEN {<<f>> : f \in {f \in PhiOf(1) : f[Len(f)] = 0}}
        ELSE IF NS = 2 THEN {<<f, g>> : f \in PhiOf(1), g \in PhiOf(2)}
        ELSE {<<f, g, h>> : f \in PhiOf(1), g \in PhiOf(2), h \in PhiOf(3)}
SearchSmall == NS <= 3 /\ SumDims + (IF NS = 1 THEN 0 ELSE NS) <= 7
\* leading dimensions that are constants for all statements
RECURSIVE LeadScalars(_, _)
LeadScalars(F, k) == IF k > Len(F[1].trans) \/ \E s \in 1..NS : ~Const(F, s, k) THEN k - 1 ELSE LeadScalars(F, k + 1)
PermCol(phi, u, w, nv) ==
  u \o <<w>> \o Concat([s \in 1..NS |-> SubSeq(phi[s], 1, In.stmts[s].dim) \o Zeros(nv - In.stmts[s].dim) \o <<phi[s][In.stmts[s].dim + 1]>>])
PermEvs(nh) == {i \in 1..(l - 1) : Ev[i].e = "perm" /\ Ev[i].nh = nh /\ Len(Ev[i].cst) > 0
                                  /\ Len(Ev[i].cst[1]) = In.npar + 1 + NS * (Ev[i].nvar + 1) + 2}
Us == IF In.npar = 0 THEN {<<>>} ELSE [1..In.npar -> 0..1]
\* is (u, w), or anything before it, a bound of phi's distances?
BoundedBy(cs, phi, u, w, nv) ==
  \/ ConjSat(cs, PermCol(phi, u, w, nv))
  \/ \E u2 \in Us : LexLT(u2, u) /\ ConjSat(cs, PermCol(phi, u2, 60, nv))
PhiAt(e, k) == [s \in 1..NS |-> SubSeq(e.stmts[s].trans[k], 1, In.stmts[s].dim) \o <<e.stmts[s].trans[k][Len(e.stmts[s].trans[k])]>>]
OptObs(e, t) ==
  IF IsSplit \/ ~SearchSmall \/ Has(In, "precut") \/ Has(In, "fst") \/ ~Has(In.opts, "diamondtile") \/ In.opts.diamondtile # 0 \/ On("nodepbound") \/ On("rar")
     \/ (Has(In.opts, "coeff_bound") /\ In.opts.coeff_bound # -1) THEN {}
  ELSE
   LET k == LeadScalars(e.stmts, 1) + 1
       rest(s, u) == {pr \in P[s][u] : PrefixEq(t[s][pr[1]], t[u][pr[2]], k - 1)}
       R == TLCEval(Reqs(rest))
       loop == k <= Len(e.stmts[1].trans) /\ \A s \in 1..NS : ~Const(e.stmts, s, k)
       pe == PermEvs(k - 1)
       pe0 == PermEvs(0)
   IN (IF ~loop \/ In.npar # 0 \/ ~Network THEN {}
       ELSE LET D == {Delta(t, s, u, pr, k) : <<s, u, pr>> \in UNION {{<<s2, u2, pr2>> : pr2 \in rest(s2, u2)} : <<s2, u2>> \in (1..NS) \X (1..NS)}}
                w == CHOOSE m \in D \cup {0} : \A x \in D : x <= m
            IN {Ob("first-optimal", w = 0 \/ \A phi \in Phis : LegalPhi(R, phi) => MaxDist(R, phi) >= w, w)})
      \cup (IF ~loop \/ pe = {} THEN {}
            ELSE LET m == Ev[CHOOSE i \in pe : TRUE]  mine == PhiAt(e, k) IN
                 {Ob("first-best", \A u \in Us : \A w \in 0..2 :
                       \/ BoundedBy(m.cst, mine, u, w, m.nvar)
                       \/ \A phi \in Phis : ~ConjSat(m.cst, PermCol(phi, u, w, m.nvar)), 1)})
      \cup (IF ~Has(In.opts, "fuse") \/ In.opts.fuse # 1 \/ Has(In, "fst") \/ Has(In, "precut") \/ k = 1 \/ pe0 = {} THEN {}
            ELSE LET m == Ev[CHOOSE i \in pe0 : TRUE] IN
                 {Ob("fuse-max", \A phi \in Phis : ~ConjSat(m.cst, PermCol(phi, [i \in 1..In.npar |-> 2], 30, m.nvar)), 1)})
\* without fusion: statements that do not depend on each other both ways share no loop
Succ(s) == {t \in 1..NS : \E d \in DOMAIN In.deps : In.deps[d].s = s /\ In.deps[d].t = t}
RECURSIVE ReachS(_, _)
ReachS(seen, todo) == IF todo = {} THEN seen ELSE LET nx == UNION {Succ(s) : s \in todo} \ seen IN ReachS(seen \cup nx, nx)
From(s) == ReachS({s}, {s})
SameScc(s, t) == t \in From(s) /\ s \in From(t)
Apart(F, s, t) ==     \* parted by a constant dimension before any loop
  \E k \in 1..Len(F[1].trans) : /\ \A j \in 1..k : Const(F, s, j) /\ Const(F, t, j)
                                /\ F[s].trans[k][Len(F[s].trans[k])] # F[t].trans[k][Len(F[t].trans[k])]
FuseObs(e) ==
  IF IsSplit \/ ~Has(In.opts, "fuse") \/ In.opts.fuse # 0 \/ Has(In, "fst") \/ Has(In, "precut") THEN {}
  ELSE {Ob("fuse-none", \A s \in 1..NS : \A t \in 1..NS : s = t \/ SameScc(s, t) \/ Apart(e.stmts, s, t), NS - 1)}

(* The constraint system the search works on describes the legal hyperplanes: *)
(* columns are u (one per parameter), w, then nvar + 1 per statement.         *)
Sparse(n) == LET z == Zeros(n) IN
  {z} \cup {[z EXCEPT ![i] = a] : <<i, a>> \in (1..n) \X {-1, 1, 2}}
      \cup {[z EXCEPT ![ij[1]] = a, ![ij[2]] = b] : <<ij, a, b>> \in {ij \in (1..n) \X (1..n) : ij[1] < ij[2]} \X {-1, 1} \X {-1, 1, 2}}
      \cup {[i \in 1..n |-> 1]}
EvPerm(e) ==
  IF IsSplit \/ Q = None \/ On("nodepbound") \/ On("rar") \/ Len(e.cst) = 0 \/ NS > 4 THEN UNCHANGED <<T, Q, res>>
  ELSE LET nv == e.nvar
           off == [s \in 1..NS |-> SumSeq([j \in 1..(s - 1) |-> In.stmts[j].dim + 1])]
           n == SumDims + NS
           phi(g) == [s \in 1..NS |-> SubSeq(g, off[s] + 1, off[s] + In.stmts[s].dim) \o Zeros(In.npar) \o <<g[off[s] + In.stmts[s].dim + 1]>>]
           phi0(g) == [s \in 1..NS |-> SubSeq(g, off[s] + 1, off[s] + In.stmts[s].dim + 1)]
           col(g, u, w) == u \o <<w>> \o Concat([s \in 1..NS |-> SubSeq(g, off[s] + 1, off[s] + In.stmts[s].dim)
                               \o Zeros(nv - In.stmts[s].dim) \o <<g[off[s] + In.stmts[s].dim + 1]>>])
           un == {i \in Range(e.unsat) : i \in DOMAIN Q}
           deps == Ev[CHOOSE i \in DOMAIN Ev : Ev[i].e = "input"].deps
           un2(s, t) == UNION {Q[i] : i \in {i \in un : deps[i].s = s /\ deps[i].t = t}}
           R == TLCEval(Reqs(un2))
           G == Sparse(n)
           lim(u, w) == w + DotFrom(u, 0, PV, 0, In.npar)
           U == IF In.npar = 0 THEN {<<>>} ELSE {Zeros(In.npar), Unit(In.npar, 1)}
           fits(g, u, w) == \A q \in R : LET x == ReqDist(q, phi0(g)) IN x >= 0 /\ x <= lim(u, w)
       IN IF Len(e.cst[1]) # In.npar + 1 + NS * (nv + 1) + 2 THEN UNCHANGED <<T, Q, res>>
          ELSE /\ UNCHANGED <<T, Q>>
               /\ res' = res \cup
                   {Ob("space-sound", \A g \in G : \A u \in U : \A w \in {0, 2} :
                        ConjSat(e.cst, col(g, u, w)) => fits(g, u, w), Cardinality(R))}
                   \cup (IF In.npar # 0 \/ ~Network THEN {}
                         ELSE {Ob("space-complete", \A g \in G : \A w \in {0, 2} :
                                 fits(g, <<>>, w) => ConjSat(e.cst, col(g, <<>>, w)), Cardinality(R))})

\* a structure given by the user is kept: components one after the other; the
\* given rows are the outermost ones (up to a dimension that is 0 for all)
Before(U, S, R) == \A s \in S : \A t \in R : \A x \in I[s] : \A y \in I[t] : LexLT(U[s][x], U[t][y])
IdsOf(g) == {g.ss[i] + 1 : i \in DOMAIN g.ss}
GivenRow(s, r, x) == AffVal(In.precut[s][r], x \o PV)
\* (diamond tiling replaces one row of a statement afterwards and notes which)
Replaced(ss, s, r) == Has(ss[s], "evpos") /\ ss[s].evpos = r - 1
StructObs(U, ss) ==
  (IF ~Has(In, "fst") THEN {}
   ELSE {Ob("fst-kept", \A i \in DOMAIN In.fst : \A j \in DOMAIN In.fst : i < j => Before(U, IdsOf(In.fst[i]), IdsOf(In.fst[j])), Len(In.fst) - 1)})
  \cup
  (IF ~Has(In, "precut") THEN {}
   ELSE {Ob("precut-kept", \A s \in 1..NS : \A x \in I[s] : \A r \in DOMAIN In.precut[s] :
           ss = None \/ Replaced(ss, s, r) \/ (Len(U[s][x]) >= r /\ U[s][x][r] = GivenRow(s, r, x)), NS)})
EvAuto(e) ==
  IF e.ret # 0 \/ ~Usable(e.stmts) THEN UNCHANGED <<T, Q, res>>
  ELSE \E t \in {TLCEval(TimesOf(e.stmts))} :
    /\ T' = t /\ UNCHANGED Q
    /\ res' = res \cup {Ob("auto-legal", Legal(t, P), NPairs(P)),
                        Ob("auto-injective", \A s \in 1..NS : Injective(t, s), NS)}
                   \cup StructObs(t, e.stmts) \cup OptObs(e, t) \cup FuseObs(e)

\* distances of the i-th dependence along dimension k
Dists(t, d, i, k) == {Delta(t, d.s, d.t, pr, k) : pr \in Q[i]}
EvDirs(e) ==
  IF ~Usable(e.stmts) \/ Len(e.deps) # Len(Q) THEN UNCHANGED <<T, Q, res>>
  ELSE \E t \in {TLCEval(TimesOf(e.stmts))} :
    /\ T' = t /\ UNCHANGED Q
    /\ res' = res \cup {Ob("dir-sound",
         \A i \in DOMAIN e.deps : \A k \in DOMAIN e.deps[i].dir :
            DirSound(e.deps[i].dir[k], Dists(t, e.deps[i], i, k)), Len(e.deps))}
          \cup (IF In.npar # 0 THEN {}
                ELSE {Ob("dir-exact", \A i \in DOMAIN e.deps : \A k \in DOMAIN e.deps[i].dir :
                        e.deps[i].dir[k] = DirOf(Dists(t, e.deps[i], i, k)), Len(e.deps))})

EvSat(e) ==
  IF ~Usable(e.stmts) \/ Len(e.deps) # Len(Q) THEN UNCHANGED <<T, Q, res>>
  ELSE \E t \in {TLCEval(TimesOf(e.stmts))} :
    /\ T' = t /\ UNCHANGED Q
    /\ res' = res \cup
        {Ob("sat-sound",     \* satisfied at a level: strictly forward there
           \A i \in DOMAIN e.deps : e.deps[i].lev >= 0 /\ e.deps[i].lev < e.nh =>
               \A x \in Dists(t, e.deps[i], i, e.deps[i].lev + 1) : x >= 1, Len(e.deps)),
         Ob("satvec-sound",  \* not marked at a level: carries nothing there
           \A i \in DOMAIN e.deps : \A k \in DOMAIN e.deps[i].sat : e.deps[i].sat[k] = 0 =>
               \A pr \in Q[i] :
                  PrefixEq(t[e.deps[i].s][pr[1]], t[e.deps[i].t][pr[2]], k - 1) =>
                     Delta(t, e.deps[i].s, e.deps[i].t, pr, k) = 0, Len(e.deps))}

(* Bands reach as far as they can.  A dimension blocks the loops starting at d *)
(* over statements S if a dependence among S that is still to be satisfied     *)
(* there (not satisfied outside, nor by a dimension that is constant on S)     *)
(* points backwards along it.                                                  *)
DepsIn == LET f == {j \in DOMAIN Ev : Ev[j].e = "input"} IN IF f = {} THEN <<>> ELSE Ev[CHOOSE j \in f : TRUE].deps
SatLevel(t, nh, i) ==
  LET ks == {k \in 1..nh : \A x \in Dists(t, DepsIn[i], i, k) : x >= 1} IN
  IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : k <= j
Backward(t, lev, F, d, S, k) ==
  \E i \in DOMAIN Q :
    /\ DepsIn[i].s \in S /\ DepsIn[i].t \in S
    /\ lev[i] = 0 \/ (lev[i] >= d /\ \E s \in S : ~Const(F, s, lev[i]))
    /\ \E x \in Dists(t, DepsIn[i], i, k) : x < 0
RECURSIVE LastFree(_, _, _, _, _, _, _)
LastFree(t, lev, F, d, S, k, nh) ==      \* last dimension before one that blocks, from k on
  IF k > nh \/ Backward(t, lev, F, d, S, k) THEN k - 1 ELSE LastFree(t, lev, F, d, S, k + 1, nh)
ReachBand(t, lev, F, d, S, nh) ==            \* last loop of the widest band starting at d
  LET m == LastFree(t, lev, F, d, S, d, nh)
      ks == {k \in d..m : \E s \in S : ~Const(F, s, k)}
  IN IF ks = {} THEN d - 1 ELSE CHOOSE k \in ks : \A j \in ks : j <= k
\* statements of the loop are bound to others that are not part of it
Bound(lev, d, S) == \E i \in DOMAIN Q : (lev[i] = 0 \/ lev[i] >= d) /\ ((DepsIn[i].s \in S) # (DepsIn[i].t \in S))
SameTrans(A, B) == Len(A) = Len(B) /\ \A i \in DOMAIN A : A[i].trans = B[i].trans
FreshAt(what, ss) ==
  LET js == {j \in 1..(l - 1) : Ev[j].e = what} IN
  js # {} /\ LET j == CHOOSE j \in js : \A i \in js : i <= j IN SameTrans(Ev[j].stmts, ss)
WideObs(e, t) ==
  IF In.npar # 0 \/ e.which # "outer" \/ Len(DepsIn) # Len(Q) \/ ~FreshAt("sat", e.stmts) \/ ~FreshAt("dirs", e.stmts)
     \/ \E i \in DOMAIN Q : Q[i] = {}
  THEN {}
  ELSE LET nh == e.nh
           lev == TLCEval([i \in DOMAIN Q |-> SatLevel(t, nh, i)])
           F == e.stmts
           loops == LoopsUnder(F, 1..NS, 1)
           bs == {BandOf(e.bands[i]) : i \in DOMAIN e.bands}
           wide == {x \in loops : ~Bound(lev, x.d, x.S) /\ ReachBand(t, lev, F, x.d, x.S, nh) > x.d}
       IN {Ob("band-maximal", \A b \in bs : ReachBand(t, lev, F, b.d, b.S, nh) <= b.d + b.w - 1, Cardinality(bs)),
           Ob("band-cover", \A x \in wide : \E b \in bs : x.S \subseteq b.S /\ b.d <= x.d, Cardinality(wide))}

EvBands(e) ==
  IF ~Usable(e.stmts) THEN UNCHANGED <<T, Q, res>>
  ELSE \E t \in {TLCEval(TimesOf(e.stmts))} :
    /\ UNCHANGED <<T, Q>>
    /\ res' = res \cup {Ob("band-permutable",
          \A i \in DOMAIN e.bands : LET b == BandOf(e.bands[i]) IN
             Tilable(t, P, b.d, b.w, b.S,
                     {k \in b.d..(b.d + b.w - 1) : \A s \in b.S : e.stmts[s].hyp[k] = 3}), Len(e.bands))}
          \cup WideObs(e, t)

\* tile sizes: the numbers of tile.sizes go, in order, to the band's loop
\* dimensions; then as many numbers are the second-level ratios
RECURSIVE SizesFrom(_, _, _, _)
SizesFrom(isloop, ts, k, n) ==   \* sizes for dimensions k.., n numbers used so far
  IF k > Len(isloop) THEN <<>>
  ELSE IF isloop[k] THEN <<ts[n + 1]>> \o SizesFrom(isloop, ts, k + 1, n + 1)
       ELSE <<1>> \o SizesFrom(isloop, ts, k + 1, n)
BandSizes(b, ss, l2) ==
  LET isloop == [k \in 1..b.w |-> \E s \in b.S : ss[s].hyp[b.d + k - 1] # 3]
      nl == Cardinality({k \in 1..b.w : isloop[k]})
  IN IF ~Has(In, "tsn") \/ In.tsn = <<>> THEN [k \in 1..b.w |-> IF l2 = 1 THEN 8 ELSE 32]
     ELSE IF Len(In.tsn) < nl \/ (l2 = 1 /\ Len(In.tsn) < nl + b.w) THEN <<>>    \* not enough numbers: not prescribed
     ELSE IF l2 = 1 THEN [k \in 1..b.w |-> In.tsn[nl + k]]
     ELSE SizesFrom(isloop, In.tsn, 1, 0)
EvTile(e) ==
  IF ~Usable(e.before) \/ ~Usable(e.after) THEN UNCHANGED <<T, Q, res>>
  ELSE \E t \in {TLCEval(TimesOf(e.before))} : \E u \in {TLCEval(TimesOf(e.after))} :
    LET bs == [i \in DOMAIN e.bands |-> LET b == BandOf(e.bands[i]) IN
                 [d |-> b.d, w |-> b.w, S |-> b.S, sz |-> BandSizes(b, e.before, e.l2),
                  sc |-> [k \in 1..b.w |-> \A s \in b.S : e.before[s].hyp[b.d + k - 1] = 3]]]
    IN /\ T' = u /\ UNCHANGED Q
       /\ res' = res \cup (IF On("find_tile_sizes") \/ Has(In.opts, "ft") \/ \E i \in DOMAIN bs : bs[i].sz = <<>> THEN {}
                 ELSE {Ob("tile-exact", LET U == TileBands(t, bs)  n == Len(e.after[1].trans) IN Leveled(U, n) /\ Level(U, n) = u, Len(bs))})
                       \cup {Ob("tile-unique", \A s \in 1..NS : \A x \in I[s] : TileDet(e.after[s], x), Len(bs))}
                       \cup {Ob("tile-legal", Legal(t, P) => Legal(u, P), NPairs(P))}

\* a wavefront is there to expose parallelism: where one was made, and wherever one can be
\* made, some loop of the band carries nothing afterwards
WaveLoops(e, b) == {k \in (b.d + 1)..(b.d + b.w - 1) : \A s \in b.S : ~Const(e.before, s, k)}
WaveCan(e, t, b) == \E k \in WaveLoops(e, b) : \A s \in b.S : \A x \in b.S : \A pr \in P[s][x] : Delta(t, s, x, pr, k) >= 0
WaveGain(e, u, b) == \E k \in {b.d} \cup WaveLoops(e, b) : NoCarried(u, P, k, b.S)
WaveObs(e, t, u) ==
  LET bs == {BandOf(e.bands[i]) : i \in DOMAIN e.bands} IN
  {Ob("wave-gain", e.ret = 1 => \E b \in bs : \E k \in WaveLoops(e, b) : NoCarried(u, P, k, b.S), e.ret)}
  \cup (IF In.npar # 0 \/ On("innerpar") THEN {}
        ELSE LET can == {b \in bs : WaveCan(e, t, b)} IN {Ob("wave-all", \A b \in can : WaveGain(e, u, b), Cardinality(can))})
EvWave(e) ==
  IF ~Usable(e.before) \/ ~Usable(e.after) THEN UNCHANGED <<T, Q, res>>
  ELSE \E t \in {TLCEval(TimesOf(e.before))} : \E u \in {TLCEval(TimesOf(e.after))} :
    /\ T' = u /\ UNCHANGED Q
    /\ res' = res \cup {Ob("wave-shape", IsWave(t, u, [i \in DOMAIN e.bands |-> BandOf(e.bands[i])]), Len(e.bands)),
                        Ob("wave-legal", Legal(t, P) => Legal(u, P), NPairs(P)),
                        Ob("wave-parallel", WavePar(t, u, P, [i \in DOMAIN e.bands |-> BandOf(e.bands[i])]), Len(e.bands))}
                   \cup WaveObs(e, t, u)

EvIntra(e) ==
  IF ~Usable(e.before) \/ ~Usable(e.after) THEN UNCHANGED <<T, Q, res>>
  ELSE \E t \in {TLCEval(TimesOf(e.before))} : \E u \in {TLCEval(TimesOf(e.after))} :
    /\ T' = u /\ UNCHANGED Q
    /\ res' = res \cup {Ob("intra-perm", \A s \in 1..NS : SameRows(e.before[s].trans, e.after[s].trans), NS),
                        Ob("intra-legal", Legal(t, P) => Legal(u, P), NPairs(P))}

EvFinal(e) ==
  IF ~Usable(e.stmts) THEN UNCHANGED <<T, Q, res>>
  ELSE \E t \in {TLCEval(TimesOf(e.stmts))} :
    /\ T' = t /\ UNCHANGED <<Q, res>>

Step ==
  /\ pc = "events" /\ l <= Len(Ev) /\ l' = l + 1
  /\ LET e == Ev[l] IN
     CASE e.e = "input" -> EvInput(e)
       [] e.e = "iss"   -> EvIss(e)
       [] e.e = "auto"  -> EvAuto(e)
       [] e.e = "perm"  -> EvPerm(e)
       [] e.e = "dirs"  -> EvDirs(e)
       [] e.e = "sat"   -> EvSat(e)
       [] e.e = "bands" -> EvBands(e)
       [] e.e = "tsd"   -> EvTile(e)
       [] e.e = "wave"  -> EvWave(e)
       [] e.e = "intra" -> EvIntra(e)
       [] e.e = "final" -> EvFinal(e)
       [] e.e = "loops" -> EvLoops(e)
       [] OTHER -> UNCHANGED <<T, Q, res>>
  /\ (Ev[l].e # "iss" => UNCHANGED <<I, P>>) /\ UNCHANGED <<c, v, pc>>

-----------------------------------------------------------------------------
(* The returned schedule: an isl relation, given by its points                *)
Sched == Out.sched[v].stmts
SchedOf(s) == {i \in DOMAIN Sched : Sched[i].s = s}
Pts(s) == UNION {Range(Sched[i].pts) : i \in SchedOf(s)}
\* the remapping: iterators from dates.  inv[r].(date, parameters, 1) = div[r] * iterator r
FinalEvs == {i \in DOMAIN Ev : Ev[i].e = "final"}
RemapOk(m, st, s) ==
  /\ Len(m.inv) >= st.dim /\ Len(m.div) >= st.dim
  /\ \A x \in I[s] :
       LET f == FullIter(st, x)  y == T[s][x] \o PV \o <<1>> IN
       \A r \in 1..st.dim : m.div[r] # 0 /\ Len(m.inv[r]) = Len(y) /\ DotFrom(m.inv[r], 0, y, 0, Len(y)) = m.div[r] * f[r]
RemapObs ==
  IF ~Has(Out, "remap") \/ FinalEvs = {} \/ T = None THEN {}
  ELSE LET fin == Ev[CHOOSE i \in FinalEvs : TRUE] IN
       IF ~Usable(fin.stmts) THEN {}
       ELSE {Ob("remap-inverse", Len(Out.remap) = NS /\ \A s \in 1..NS : RemapOk(Out.remap[s], fin.stmts[s], s), NS)}
\* the parallel loops of the string interface: their number, then their positions
LoopEvs == {i \in DOMAIN Ev : Ev[i].e = "loops"}
StrObs ==
  IF In.api # "str" \/ Out.ret # "sched" \/ ~Has(Out, "pnums") \/ LoopEvs = {} THEN {}
  ELSE LET par == Ev[CHOOSE i \in LoopEvs : TRUE].par IN
       {Ob("str-parloops", IF Has(In.opts, "parallel") /\ In.opts.parallel = 0 THEN TRUE
                           ELSE Out.pnums = <<Len(par)>> \o [i \in DOMAIN par |-> par[i].depth + 1], 1)}
\* the same call made alone gives the same result
PtsIn(ss, s) == UNION {Range(ss[i].pts) : i \in {i \in DOMAIN ss : ss[i].s = s}}
SameResult(a, b) ==
  /\ (Has(a, "sched") = Has(b, "sched")) /\ ((Has(a, "remap") = Has(b, "remap")) \/ In.api = "str")
  /\ (Has(a, "sched") /\ Has(b, "sched")) => \A s \in 1..NS : PtsIn(a.sched[v].stmts, s) = PtsIn(b.sched[v].stmts, s)
  /\ (Has(a, "remap") /\ Has(b, "remap")) => a.remap = b.remap
RefObs == IF ~Has(Out, "ref") THEN {}
          ELSE {Ob(IF In.api = "str" /\ In.refapi = "transform" THEN "str-same" ELSE "history-same", SameResult(Out, Out.ref), 1)}
\* a program whose statements do not depend on each other in a circle gets a schedule
SuccIn(s) == {In.deps[d].t : d \in {d \in DOMAIN In.deps : In.deps[d].s = s}} \ {s}
RECURSIVE ReachIn(_, _)
ReachIn(seen, todo) == IF todo = {} THEN seen
                       ELSE LET nx == UNION {SuccIn(s) : s \in todo} \ seen IN ReachIn(seen \cup nx, nx)
Acyclic == \A s \in 1..NS : LET f == SuccIn(s) IN s \notin ReachIn(f, f)
\* dependence distances are bounded by non-negative combinations of the parameters: lower bounds do not grow with them
ParamsUp == \A s \in 1..NS : \A d \in DOMAIN In.stmts[s].dom : \A i \in DOMAIN In.stmts[s].dom[d] :
              LET w == In.stmts[s].dom[d][i] IN
              \A j \in (In.stmts[s].dim + 2)..(Len(w) - 1) : w[j] >= 0 /\ (w[1] = 1 => w[j] = 0)
FoundObs == IF In.api = "iss" \/ ~Acyclic \/ On("flic") \/ ~(On("nodepbound") \/ ParamsUp) THEN {} ELSE {Ob("sched-found", Out.ret # "null", 1)}
\* tiling as asked for: all bands found, one level, or two
TsdEvs == {i \in DOMAIN Ev : Ev[i].e = "tsd"}
TileObs ==
  IF Out.ret = "null" \/ Out.ret = "empty" \/ ~Has(In.opts, "tile") \/ ~\E i \in DOMAIN Ev : Ev[i].e = "bands" \/ Ev[i].e = "tsd" THEN {}
  ELSE LET n(k) == Cardinality({i \in TsdEvs : Ev[i].l2 = k})
           before(i) == {j \in 1..(i - 1) : Ev[j].e = "bands" /\ Ev[j].which = "outer"}
       IN {Ob("tile-levels", n(0) = (IF On("tile") THEN 1 ELSE 0) /\
                             n(1) = (IF On("tile") /\ On("second_level_tile") THEN 1 ELSE 0), 1),
           Ob("tile-all", \A i \in TsdEvs : before(i) # {} =>
              LET j == CHOOSE j \in before(i) : \A q \in before(i) : q <= j IN
              Range(Ev[j].bands) \subseteq Range(Ev[i].bands), Cardinality(TsdEvs))}
More == TileObs \cup FoundObs \cup RemapObs \cup StrObs \cup RefObs
Finish ==
  /\ pc = "events" /\ l > Len(Ev) /\ pc' = "done"
  /\ IF ~Has(Out, "sched") THEN res' = res \cup More
     ELSE
      LET pts == TLCEval([s \in 1..NS |-> Pts(s)])
          bounded == \A i \in DOMAIN Sched : ~Has(Sched[i], "unbounded")
          known == \A i \in DOMAIN Sched : Sched[i].s \in 1..NS /\ Sched[i].nin = In.stmts[Sched[i].s].dim
          samelen == \A i \in DOMAIN Sched : Sched[i].nout = Sched[1].nout
          single == \A s \in 1..NS : Cardinality({p[1] : p \in pts[s]}) = Cardinality(pts[s])
          total == \A s \in 1..NS : {p[1] : p \in pts[s]} = I[s]
          wf == bounded /\ known /\ samelen /\ single /\ total
          obs == {Ob("sched-defined", bounded /\ known, NS), Ob("sched-samelen", samelen, NS),
                  Ob("sched-single", single, NS), Ob("sched-total", total, SumSeq([s \in 1..NS |-> Cardinality(I[s])]))}
      IN IF ~wf THEN res' = res \cup obs \cup More
         ELSE \E U \in {TLCEval([s \in 1..NS |-> [x \in I[s] |-> (CHOOSE p \in pts[s] : p[1] = x)[2]]])} :
               res' = res \cup obs \cup
                 {Ob("sched-injective", \A s \in 1..NS : Injective(U, s), NS),
                  Ob("sched-legal", Legal(U, P), NPairs(P))} \cup {o \in StructObs(U, None) : o.n = "fst-kept"}
                 \cup (IF T = None THEN {} ELSE {Ob("sched-emitted", U = T, NS)}) \cup More
  /\ UNCHANGED <<c, v, l, I, P, Q, T>>

Report ==
  /\ pc = "done" /\ pc' = "reported"
  /\ PrintT("RES " \o ToJson([c |-> c, v |-> v, res |-> res]))
  /\ UNCHANGED <<c, v, l, I, P, Q, T, res>>

Next == LoadInst \/ LoadPairs \/ Step \/ Finish \/ Report
Spec == Init /\ [][Next]_vars
\* the verdict: every obligation met
Conforms == \A o \in res : o.ok
=============================================================================
