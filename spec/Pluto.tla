-------------------------------- MODULE Pluto -------------------------------
(* What each stage of the optimizer may do, on explicit instances.            *)
(*                                                                            *)
(* I  : I[s] = set of instances (iteration vectors) of statement s            *)
(* T  : T[s][x] = time stamp (a vector) of instance x of statement s          *)
(* P  : P[s][t] = set of pairs <<x, y>> such that instance x of s must run    *)
(*      before instance y of t                                                *)
EXTENDS Program, TLC

-----------------------------------------------------------------------------
(* Legality                                                                   *)
PairsBefore(T, P, s, t) == \A pr \in P[s][t] : LexLT(T[s][pr[1]], T[t][pr[2]])
Legal(T, P) == \A s \in DOMAIN P : \A t \in DOMAIN P[s] : PairsBefore(T, P, s, t)
NPairs(P) == SumSeq([s \in DOMAIN P |-> SumSeq([t \in DOMAIN P[s] |-> Cardinality(P[s][t])])])

\* one value per instance, no two instances of a statement at the same time
Injective(T, s) == Cardinality({T[s][x] : x \in DOMAIN T[s]}) = Cardinality(DOMAIN T[s])

Delta(T, s, t, pr, k) == T[t][pr[2]][k] - T[s][pr[1]][k]

-----------------------------------------------------------------------------
(* A loop (time dimension d, 1-based, statements S) carries no dependence:    *)
(* related instances that reach the loop together run in the same iteration.  *)
NoCarried(T, P, d, S) ==
  \A s \in S : \A t \in S : \A pr \in P[s][t] :
     PrefixEq(T[s][pr[1]], T[t][pr[2]], d - 1) => Delta(T, s, t, pr, d) = 0

\* a band (time dimensions d..d+w-1, statements S) can be tiled: related
\* instances that reach it together never go backwards along any of its loops,
\* unless a dimension of the band that is a constant for all its statements
\* (those in C) has already separated them
Tilable(T, P, d, w, S, C) ==
  \A s \in S : \A t \in S : \A pr \in P[s][t] :
     PrefixEq(T[s][pr[1]], T[t][pr[2]], d - 1) =>
        \A k \in d..(d + w - 1) :
           \/ Delta(T, s, t, pr, k) >= 0
           \/ \E j \in d..(k - 1) : j \in C /\ Delta(T, s, t, pr, j) >= 1

-----------------------------------------------------------------------------
(* Stages                                                                     *)
PadTo(v, n) == v \o Zeros(n - Len(v))
\* strip-mining dimensions d..d+w-1 with the given sizes; sc[k] = TRUE when the
\* dimension d+k-1 is a constant for all statements of the band (copied, not
\* divided: it orders the tiles of distributed statements)
TileVec(v, d, w, sz, sc) ==
  SubSeq(v, 1, d - 1)
  \o [k \in 1..w |-> IF sc[k] THEN v[d + k - 1] ELSE FloorDiv(v[d + k - 1], sz[k])]
  \o SubSeq(v, d, Len(v))
\* bands = sequence of [d, w, S, sz, sc]
RECURSIVE TileBands(_, _)
TileBands(T, bands) ==
  IF bands = <<>> THEN T
  ELSE LET b == Head(bands)
           U == [s \in DOMAIN T |-> IF s \notin b.S THEN T[s]
                   ELSE [x \in DOMAIN T[s] |->
                           TileVec(T[s][x], b.d, b.w, b.sz, b.sc)]]
       IN TileBands(TLCEval(U), Tail(bands))
\* every time stamp padded to length n (none is longer)
Leveled(T, n) == \A s \in DOMAIN T : \A x \in DOMAIN T[s] : Len(T[s][x]) <= n
Level(T, n) == [s \in DOMAIN T |-> [x \in DOMAIN T[s] |-> PadTo(T[s][x], n)]]

\* wavefront of band [d, w, S]: dimension d becomes itself plus the dimensions K
WaveVec(v, d, K) == [v EXCEPT ![d] = @ + SumSeq([k \in 1..Len(v) |-> IF k \in K THEN v[k] ELSE 0])]
Wave(T, d, K, S) == [s \in DOMAIN T |-> IF s \notin S THEN T[s]
                       ELSE [x \in DOMAIN T[s] |-> WaveVec(T[s][x], d, K)]]
RECURSIVE IsWave(_, _, _)
IsWave(T, U, bands) ==   \* U is T after a wavefront (or nothing) on each band
  IF bands = <<>> THEN T = U
  ELSE LET b == Head(bands) IN
       \E K \in SUBSET ((b.d + 1)..(b.d + b.w - 1)) :
          LET V == Wave(T, b.d, K, b.S) IN
          (\A s \in b.S : \A x \in DOMAIN T[s] : V[s][x][b.d] = U[s][x][b.d])
          /\ IsWave(V, U, Tail(bands))

\* the loops a wavefront sums up carry nothing inside it: they can run in parallel
WaveDims(T, U, b) == IF \E K \in SUBSET ((b.d + 1)..(b.d + b.w - 1)) : K # {} /\
                         \A s \in b.S : \A x \in DOMAIN T[s] : WaveVec(T[s][x], b.d, K)[b.d] = U[s][x][b.d]
                     THEN CHOOSE K \in SUBSET ((b.d + 1)..(b.d + b.w - 1)) : K # {} /\
                         \A s \in b.S : \A x \in DOMAIN T[s] : WaveVec(T[s][x], b.d, K)[b.d] = U[s][x][b.d]
                     ELSE {}
WavePar(T, U, P, bands) ==
  \A i \in DOMAIN bands : LET b == bands[i]  K == WaveDims(T, U, b) IN \A k \in K : NoCarried(U, P, k, b.S)

\* per statement, a reordering of time dimensions
Occ(seq, r) == Cardinality({i \in DOMAIN seq : seq[i] = r})
SameRows(A, B) == Len(A) = Len(B) /\ \A i \in DOMAIN A : Occ(A, A[i]) = Occ(B, A[i])

-----------------------------------------------------------------------------
(* Dependence directions and satisfaction, from the distances D along a       *)
(* dimension                                                                  *)
DirOf(D) == IF \A x \in D : x = 0 THEN "0"
            ELSE IF \A x \in D : x >= 0 THEN "+"
            ELSE IF \A x \in D : x <= 0 THEN "-" ELSE "*"
\* a claimed direction is sound for distances D
DirSound(c, D) == CASE c = "0" -> \A x \in D : x = 0
                    [] c = "+" -> \A x \in D : x >= 0
                    [] c = "-" -> \A x \in D : x <= 0
                    [] OTHER -> TRUE
=============================================================================
