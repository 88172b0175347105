------------------------------- MODULE ProgGen ------------------------------
(* Generates programs for replay into the implementation: every behaviour of  *)
(* this specification builds one program (statements, domains, accesses or    *)
(* dependences) and one option profile; its last step emits the case.         *)
(* Meant for -simulate: each step's choice is drawn with RandomElement.       *)
EXTENDS Program, Profiles, TLC, Json, CSV

CONSTANTS
  NStmts,        \* sequence of statement counts to draw from (repeats = weight)
  Dims,          \* sequence of dimensionalities to draw from
  ProfileNames,  \* sequence of option profiles (see Profiles.tla)
  Families,      \* sequence over "mem", "uniform", "affine", "cone", "chain", "cycle", "fork", "fold"
  NPars,         \* sequence of parameter counts to draw from
  MaxDeps,       \* dependences kept per program
  Plainness,     \* percentage of plain rectangular domains
  TileFiles,     \* sequence of tile.sizes contents (<<>> = no file)
  Apis,          \* sequence of interfaces: "transform", "acc" (transform with the accesses), "sched", "str", "remap"
  Histories,     \* sequence of numbers of earlier calls
  Structures,    \* sequence over "no", "fst", "precut": a fusion structure / partial transformation given by the user
  Modes,         \* sequence over "plain", "cmp" (compared with a lone isl call), "thr" (earlier calls run at the same time)
  OutFile

VARIABLES pc, fam, np, stmts, deps, prof, tsz, k,
          hist,     \* earlier calls of this history
          rnd       \* the random numbers the next step's choices are made with
vars == <<pc, fam, np, stmts, deps, prof, tsz, k, hist, rnd>>

NDraw == 24
\* (depends on the state so that TLC does not evaluate it once and for all)
Draw == [i \in 1..NDraw |-> RandomElement(0..(9999 + 0 * k))]
\* choices made from draw i
PickS(i, s) == s[1 + (rnd[i] % Len(s))]
PickN(i, lo, hi) == lo + (rnd[i] % (hi - lo + 1))
Chance(i, p) == (rnd[i] % 100) < p

Init == /\ pc = "draw" /\ fam = "" /\ np = 0 /\ stmts = <<>> /\ deps = <<>>
        /\ prof = "" /\ tsz = <<>> /\ k = 0 /\ rnd = Zeros(NDraw)
        /\ hist = [calls |-> <<>>, n |-> -1, mode |-> "", api |-> ""]

Shake == pc = "draw" /\ pc' = "start" /\ UNCHANGED <<fam, np, stmts, deps, prof, tsz, k>>

Start ==
  /\ pc = "start" /\ pc' = "shape"
  /\ fam' = PickS(1, Families) /\ np' = PickS(2, NPars) /\ prof' = PickS(3, ProfileNames)
  /\ tsz' = PickS(4, TileFiles)
  /\ k' = PickS(5, NStmts) /\ UNCHANGED <<stmts, deps>>
  /\ hist' = IF hist.n >= 0 THEN [hist EXCEPT !.api = PickS(8, Apis)]
             ELSE [calls |-> <<>>, n |-> PickS(6, Histories), mode |-> PickS(7, Modes), api |-> PickS(8, Apis)]

-----------------------------------------------------------------------------
(* Statements: each shares some loops with its textual predecessor.           *)
NextBeta(prev, d, f) ==     \* f = number of loops shared with prev
  [i \in 1..(d + 1) |-> IF i <= f THEN prev.beta[i]
                        ELSE IF i = f + 1 THEN prev.beta[i] + 1 ELSE 0]

AddStmt ==
  /\ pc = "shape" /\ Len(stmts) < k
  /\ LET d == PickS(1, Dims)
         base == [dim |-> d, dom |-> <<>>, beta |-> Zeros(d + 1), reads |-> <<>>, writes |-> <<>>]
     IN IF stmts = <<>> THEN stmts' = <<base>>
        ELSE LET prev == stmts[Len(stmts)] IN
             LET e == IF fam = "fold" \/ (fam \in {"chain", "fork"} /\ Chance(3, 75)) THEN prev.dim ELSE d
                 f == IF fam = "chain" THEN 0
                      ELSE IF fam = "fork" THEN Min2(prev.dim, e) - 1
                      ELSE IF fam = "fold" THEN e
                      ELSE PickN(2, IF fam = "cycle" THEN Min2(1, Min2(prev.dim, d)) ELSE 0, Min2(prev.dim, d)) IN
               stmts' = Append(stmts, [base EXCEPT !.dim = e, !.beta = NextBeta(prev, e, f)])
  /\ UNCHANGED <<pc, fam, np, deps, prof, tsz, k>>

ShapeDone ==
  /\ pc = "shape" /\ Len(stmts) = k /\ pc' = "domain" /\ k' = 1
  /\ UNCHANGED <<fam, np, stmts, deps, prof, tsz>>

-----------------------------------------------------------------------------
(* Domains: a lower and an upper bound per iterator.                          *)
\* i_j <= N + c : parameter 1 for j = 1, the last one for j > 1
UpRow(d, j, c) ==
  LET p == IF np = 0 THEN 0 ELSE IF j = 1 THEN 1 ELSE np IN
  <<0>> \o [i \in 1..d |-> IF i = j THEN -1 ELSE 0]
        \o [i \in 1..np |-> IF i = p THEN 1 ELSE 0] \o <<IF np = 0 THEN 4 + c ELSE c>>
UpConst(d, j, c) == <<0>> \o [i \in 1..d |-> IF i = j THEN -1 ELSE 0] \o Zeros(np) \o <<c>>
LoConst(d, j, c) == <<0>> \o Unit(d, j) \o Zeros(np) \o <<-c>>
LoIter(d, j, c)  == <<0>> \o [i \in 1..d |-> IF i = j THEN 1 ELSE IF i = j - 1 THEN -1 ELSE 0]
                          \o Zeros(np) \o <<-c>>          \* i_j >= i_{j-1} + c
UpIter(d, j, c)  == <<0>> \o [i \in 1..d |-> IF i = j THEN -1 ELSE IF i = j - 1 THEN 1 ELSE 0]
                          \o Zeros(np) \o <<c>>           \* i_j <= i_{j-1} + c
FixDim(d, j, c)  == <<1>> \o Unit(d, j) \o Zeros(np) \o <<-c>>
UpAnti(d, j) ==                                           \* i_{j-1} + i_j <= N - 1
  LET r == UpRow(d, j, -1) IN [r EXCEPT ![j] = -1]        \* [j] is i_{j-1}: flag comes first

Twice(r, j, c) == [r EXCEPT ![1 + j] = c]                  \* coefficient of i_j becomes c
LoPar(d, j) ==                                            \* i_j >= N - 3
  <<0>> \o Unit(d, j) \o [i \in 1..np |-> IF i = 1 THEN -1 ELSE 0] \o <<IF np = 0 THEN -1 ELSE 3>>

Plain(d, j) == <<LoConst(d, j, 0), UpRow(d, j, -1)>>
Bound(d, j, n) == CASE
     n = 1 -> Plain(d, j)
  [] n = 2 -> <<LoConst(d, j, 1), UpRow(d, j, -2)>>
  [] n = 3 -> <<LoConst(d, j, 1), UpRow(d, j, -1)>>
  [] n = 4 -> <<LoConst(d, j, 0), UpRow(d, j, 0)>>
  [] n = 5 -> <<LoConst(d, j, -1), UpRow(d, j, -2)>>
  [] n = 6 -> <<LoConst(d, j, 0), UpConst(d, j, 3)>>
  [] n = 7 -> <<FixDim(d, j, 2)>>
  [] n = 8 -> <<LoConst(d, j, 0), Twice(UpRow(d, j, -1), j, -2)>>            \* 2 i_j <= N - 1
  [] n = 9 -> <<LoPar(d, j), UpRow(d, j, 0)>>
  [] n = 10 -> <<LoConst(d, j, 0), UpIter(d, j, 0)>>
  [] n = 11 -> <<LoIter(d, j, 0), UpRow(d, j, -1)>>
  [] n = 12 -> <<LoIter(d, j, 1), UpRow(d, j, -1)>>
  [] n = 13 -> <<LoConst(d, j, 0), UpIter(d, j, -1)>>
  [] n = 14 -> <<LoConst(d, j, 0), UpAnti(d, j)>>
  [] n = 15 -> <<LoConst(d, j, 0), UpRow(d, j, -1), Twice(UpIter(d, j, 1), j - 1, 2)>>   \* i_j <= 2 i_{j-1} + 1
  [] n = 16 -> <<LoIter(d, j, -1), UpIter(d, j, 1), LoConst(d, j, 0), UpRow(d, j, -1)>>  \* a band around the diagonal
  [] n = 17 -> <<LoConst(d, j, 0), UpRow(d, j, -1), [LoConst(d, j, 2) EXCEPT ![j] = 1]>> \* i_{j-1} + i_j >= 2
  [] n = 18 -> <<[LoIter(d, j, 0) EXCEPT ![1] = 1]>>                                     \* i_j = i_{j-1}
RandBound(d, j) == IF Chance(2 * j, Plainness) THEN Plain(d, j)
                   ELSE Bound(d, j, PickN(2 * j + 1, 1, IF j = 1 THEN 9 ELSE 18))
SplitDom(rows, d) ==
  CASE rnd[22] % 4 \in {0, 1} -> << Append(rows, UpConst(d, 1, 1)), Append(rows, LoConst(d, 1, 3)) >>
    [] rnd[22] % 4 = 2 -> << Append(rows, UpConst(d, d, 2)), Append(rows, LoConst(d, d, 1)) >>
    [] OTHER -> << Append(rows, UpConst(d, 1, 0)), Append(rows, FixDim(d, 1, 2)), Append(rows, LoConst(d, 1, 4)) >>

SetDomain ==
  /\ pc = "domain"
  /\ IF k > Len(stmts) THEN pc' = "body" /\ k' = 1 /\ UNCHANGED stmts
     ELSE LET d == stmts[k].dim IN
       /\ pc' = "domain" /\ k' = k + 1
       /\ LET rows == Concat([j \in 1..d |-> RandBound(d, j)])
              u == d > 0 /\ Chance(1, 6) IN
             stmts' = [stmts EXCEPT ![k].dom = IF u THEN SplitDom(rows, d) ELSE <<rows>>]
  /\ UNCHANGED <<fam, np, deps, prof, tsz>>

-----------------------------------------------------------------------------
(* Bodies.  "mem": one write and up to two reads of shared arrays, and the    *)
(* dependences are the memory-based ones.                                     *)
\* subscript <<iters, params, const>> : +-i_j + c, or N-1-i_j, or a constant
RandSub(i, d) ==      \* uses draws i .. i+2
  IF d = 0 THEN Zeros(np) \o <<rnd[i] % 3>>
  ELSE LET j == PickN(i, 1, d)  c == PickS(i + 1, <<0, 0, 0, -1, 1, 2, -2>>)  m == PickN(i + 2, 1, 20) IN
  IF m <= 13 THEN Unit(d, j) \o Zeros(np) \o <<c>>
  ELSE IF m = 14 THEN [x \in 1..d |-> IF x = j THEN 2 ELSE 0] \o Zeros(np) \o <<c>>
  ELSE IF m <= 16 /\ np > 0
       THEN [x \in 1..d |-> IF x = j THEN -1 ELSE 0] \o Unit(np, 1) \o <<-1>>
  ELSE IF m = 17 /\ d > 1
       THEN [x \in 1..d |-> 1] \o Zeros(np) \o <<c>>
  ELSE IF m = 18 THEN Unit(d, j) \o [x \in 1..np |-> IF x = np THEN PickS(i + 1, <<1, -1>>) ELSE 0] \o <<PickS(i, <<-2, -1, 1, 2>>)>>
  ELSE Zeros(d) \o Zeros(np) \o <<0>>
\* array a has rank 1 (a = 1), 2 (a = 2) or 0 (a = 3)
Rank(a) == IF a = 1 THEN 1 ELSE IF a = 2 THEN 2 ELSE 0
IdSub(d, j, c) == IF j <= d THEN Unit(d, j) \o Zeros(np) \o <<c>> ELSE Zeros(d + np) \o <<0>>
RandAcc(d) ==
  LET a == PickS(1, <<1, 2, 2, 2, 1, 2, 3>>)  stencil == Chance(2, 55) IN
  [arr |-> a, f |-> [r \in 1..Rank(a) |->
      IF stencil THEN IdSub(d, IF d > 2 THEN r + 1 ELSE r, PickS(2 + r, <<0, 0, 1, -1>>))
      ELSE RandSub(2 + 3 * r, d)]]

RandMat(d, e) ==   \* an affine map of d iterators to e: used by family "affine"
  [r \in 1..e |-> RandSub(9 + 3 * r, d)]

\* one access per step: a write first, then one to three reads
SetBody ==
  /\ pc = "body" /\ fam = "mem"
  /\ IF k > Len(stmts) THEN pc' = "deps" /\ k' = 1 /\ UNCHANGED stmts
     ELSE LET st == stmts[k]  acc == RandAcc(st.dim) IN
          /\ pc' = "body"
          /\ IF st.writes = <<>>
             THEN stmts' = [stmts EXCEPT ![k].writes = <<acc>>] /\ k' = k
             ELSE /\ stmts' = [stmts EXCEPT ![k].reads = Append(@, acc)]
                  /\ k' = IF Len(st.reads) < 2 /\ Chance(20, 50) THEN k ELSE k + 1
  /\ UNCHANGED <<fam, np, deps, prof, tsz>>

Prog == [npar |-> np, stmts |-> stmts]
Truncate(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)

MemDone ==
  /\ pc = "deps" /\ fam = "mem"
  /\ deps' = Truncate(MemDeps(Prog), MaxDeps)
  /\ pc' = "emit" /\ UNCHANGED <<fam, np, stmts, prof, tsz, k>>

(* "uniform": distance vectors; "affine": y = F(x), both restricted to pairs  *)
(* ordered by the original program (precedence at a random common level).     *)
\* y - x = v on the common dimensions
\* (now and then, on one dimension, +-(N + v) instead)
UniformRows(s, t, v) ==
  LET ds == stmts[s].dim  dt == stmts[t].dim
      far == IF np > 0 /\ Len(v) > 0 /\ rnd[24] % 16 = 0 THEN 1 + (rnd[23] % Len(v)) ELSE 0
      sg == IF rnd[24] % 32 = 0 THEN 1 ELSE -1 IN
  [i \in 1..Len(v) |-> <<1>> \o [j \in 1..ds |-> IF j = i THEN 1 ELSE 0]
       \o [j \in 1..dt |-> IF j = i THEN -1 ELSE 0]
       \o [j \in 1..np |-> IF i = far /\ j = np THEN sg ELSE 0] \o <<IF i = far THEN -sg * 2 ELSE v[i]>>]
AffineRows(s, t, F) ==   \* y_r = F_r(x)
  LET ds == stmts[s].dim  dt == stmts[t].dim IN
  [r \in DOMAIN F |-> <<1>> \o [j \in 1..ds |-> F[r][j]] \o [j \in 1..dt |-> IF j = r THEN -1 ELSE 0]
        \o [j \in 1..np |-> F[r][ds + j]] \o <<F[r][ds + np + 1]>>]
LevelRows(s, t, l, c) ==
  LET ds == stmts[s].dim  dt == stmts[t].dim IN
  [i \in 1..(IF l > c THEN c ELSE l - 1) |-> EqIterRow(i, ds, dt, np)] \o
  (IF l > c THEN <<>> ELSE <<LtIterRow(l, ds, dt, np)>>)
\* "cone": y - x = v + something, per dimension: equal, at least, at most or free
GeRow(s, t, i, c) ==     \* y_i - x_i - c >= 0
  LET ds == stmts[s].dim  dt == stmts[t].dim IN
  <<0>> \o [j \in 1..ds |-> IF j = i THEN -1 ELSE 0] \o Unit(dt, i) \o Zeros(np) \o <<-c>>
LeRow(s, t, i, c) ==     \* x_i - y_i + c >= 0
  LET ds == stmts[s].dim  dt == stmts[t].dim IN
  <<0>> \o Unit(ds, i) \o [j \in 1..dt |-> IF j = i THEN -1 ELSE 0] \o Zeros(np) \o <<c>>
SumRow(s, t, n, c) ==    \* sum of y - x over n dimensions, minus c, >= 0
  LET ds == stmts[s].dim  dt == stmts[t].dim IN
  <<0>> \o [j \in 1..ds |-> IF j <= n THEN -1 ELSE 0] \o [j \in 1..dt |-> IF j <= n THEN 1 ELSE 0]
        \o Zeros(np) \o <<-c>>
ConeRows(s, t, v) ==
  Concat([i \in 1..Len(v) |->
    CASE rnd[12 + i] % 6 \in {0, 1} -> <<GeRow(s, t, i, v[i])>>
      [] rnd[12 + i] % 6 = 2 -> <<LeRow(s, t, i, v[i])>>
      [] rnd[12 + i] % 6 = 3 -> <<GeRow(s, t, i, v[i]), LeRow(s, t, i, v[i] + 1)>>
      [] rnd[12 + i] % 6 = 4 -> <<GeRow(s, t, i, v[i]), LeRow(s, t, i, v[i])>>
      [] OTHER -> <<>>])
Orthant(s, t, n) == [i \in 1..n |-> GeRow(s, t, i, 0)] \o <<SumRow(s, t, n, 1)>>
RandVec(n) == [i \in 1..n |-> PickS(5 + i, <<0, 0, 1, 1, -1, 2, -2>>)]

\* "chain": nests one after the other, each using results of earlier ones in
\* ways that often do not allow fusing them
RevRows(s, t) ==         \* y_1 = N - 1 - x_1, other common dimensions equal
  [i \in 1..Min2(stmts[s].dim, stmts[t].dim) |->
     <<1>> \o [j \in 1..stmts[s].dim |-> IF j = i THEN (IF i = 1 THEN 1 ELSE -1) ELSE 0]
           \o [j \in 1..stmts[t].dim |-> IF j = i THEN 1 ELSE 0]
           \o [j \in 1..np |-> IF i = 1 /\ j = 1 THEN -1 ELSE 0]
           \o <<IF i > 1 THEN 0 ELSE IF np = 0 THEN -3 ELSE 1>>]
ChainRows(s, t) ==
  LET v == RandVec(Min2(stmts[s].dim, stmts[t].dim)) IN
  CASE rnd[20] % 10 \in 0..3 -> UniformRows(s, t, v)
    [] rnd[20] % 10 \in 4..6 -> RevRows(s, t)
    [] rnd[20] % 10 = 7 -> AffineRows(s, t, RandMat(stmts[s].dim, stmts[t].dim))
    [] rnd[20] % 10 = 8 -> ConeRows(s, t, v)
    [] OTHER -> <<>>
AddChainDep ==
  /\ pc \in {"body", "deps"} /\ fam = "chain"
  /\ IF pc = "deps" /\ k <= 1 THEN pc' = "emit" /\ UNCHANGED <<deps, k>>
     ELSE
       /\ pc' = "deps"
       /\ k' = IF pc = "body" THEN Len(stmts) + PickN(1, 0, 3) ELSE k - 1
       /\ LET n == Len(stmts)
              t == IF Chance(5, 70) THEN 2 + (k' % (n - 1)) ELSE PickN(2, 2, n)
              s == IF Chance(3, 70) THEN t - 1 ELSE PickN(4, 1, t - 1)
              c == stmts[s].dim IN
          IF c > 0 /\ Chance(23, 15)       \* carried by a loop of the nest itself
          THEN LET l == PickN(4, 1, c) IN
               deps' = Append(deps, [s |-> s, t |-> s,
                         rows |-> UniformRows(s, s, RandVec(c)) \o LevelRows(s, s, l, c)])
          ELSE deps' = Append(deps, [s |-> s, t |-> t, rows |-> ChainRows(s, t)])
  /\ UNCHANGED <<fam, np, stmts, prof, tsz>>

\* "cycle": statements of one nest that depend on each other in a circle
SwapRows(s, t) ==        \* y = x reversed, on the common dimensions
  LET n == Min2(stmts[s].dim, stmts[t].dim) IN
  [i \in 1..n |-> <<1>> \o [j \in 1..stmts[s].dim |-> IF j = n + 1 - i THEN 1 ELSE 0]
                        \o [j \in 1..stmts[t].dim |-> IF j = i THEN -1 ELSE 0] \o Zeros(np)
                        \o <<PickS(5 + i, <<0, 0, 1, -1>>)>>]
CycleRows(s, t) ==
  CASE rnd[20] % 10 \in 0..2 -> SwapRows(s, t)
    [] rnd[20] % 10 = 3 -> RevRows(s, t)
    [] OTHER -> ChainRows(s, t)
AddCycleDep ==
  /\ pc \in {"body", "deps"} /\ fam = "cycle"
  /\ IF pc = "deps" /\ k <= 1 THEN pc' = "emit" /\ UNCHANGED <<deps, k>>
     ELSE
       /\ pc' = "deps"
       /\ k' = IF pc = "body" THEN Len(stmts) + PickN(1, 1, 3) ELSE k - 1
       /\ LET n == Len(stmts)
              s == IF k' <= n THEN k' ELSE PickN(2, 1, n)
              t == IF k' <= n THEN 1 + (s % n) ELSE PickN(3, 1, n)
              c == CommonLoops(stmts[s], stmts[t])
              before == s # t /\ stmts[s].beta[c + 1] < stmts[t].beta[c + 1]
              l == IF before THEN PickN(4, 1, c + 1) ELSE PickN(4, 1, c)
          IN deps' = Append(deps, [s |-> s, t |-> t, rows |-> CycleRows(s, t) \o LevelRows(s, t, l, c)])
  /\ UNCHANGED <<fam, np, stmts, prof, tsz>>

\* "fork": nests that share their outer loops, use each other's results in an
\* order that keeps the inner loops apart, and have dependences of their own
RevInner(s, t) ==        \* the last common dimension reversed, the others equal
  LET n == Min2(stmts[s].dim, stmts[t].dim) IN
  [i \in 1..n |-> <<1>> \o [j \in 1..stmts[s].dim |-> IF j = i THEN (IF i = n THEN 1 ELSE -1) ELSE 0]
                        \o [j \in 1..stmts[t].dim |-> IF j = i THEN 1 ELSE 0]
                        \o [j \in 1..np |-> IF i = n /\ j = np THEN -1 ELSE 0]
                        \o <<IF i < n THEN 0 ELSE IF np = 0 THEN -3 ELSE 1>>]
AddForkDep ==
  /\ pc \in {"body", "deps"} /\ fam = "fork"
  /\ IF pc = "deps" /\ k <= 1 THEN pc' = "emit" /\ UNCHANGED <<deps, k>>
     ELSE
       /\ pc' = "deps"
       /\ k' = IF pc = "body" THEN 3 * Len(stmts) + PickN(1, 0, 1) ELSE k - 1
       /\ LET n == Len(stmts)
              s == 1 + (k' % n)  t == s + 1  d == stmts[s].dim IN
          IF k' <= 2 * n \/ t > n          \* carried by its own loops, the outermost first
          THEN LET l == IF k' > n THEN 1 ELSE IF Chance(3, 60) THEN d ELSE PickN(4, 1, d) IN
               deps' = IF d = 0 THEN deps ELSE Append(deps, [s |-> s, t |-> s,
                  rows |-> UniformRows(s, s, IF Chance(2, 60) THEN Unit(d, l) ELSE [i \in 1..d |-> IF i < l THEN 0 ELSE IF i = l THEN 1 ELSE PickS(5 + i, <<0, 0, 0, 1, 1, 1, 1, -1>>)])
                            \o LevelRows(s, s, l, d)])
          ELSE LET c == CommonLoops(stmts[s], stmts[t]) IN
               deps' = Append(deps, [s |-> s, t |-> t,
                  rows |-> IF Chance(2, 60) THEN RevInner(s, t) \o LevelRows(s, t, c + 1, c)
                           ELSE UniformRows(s, t, RandVec(Min2(d, stmts[t].dim))) \o LevelRows(s, t, PickN(4, 1, c + 1), c)])
  /\ UNCHANGED <<fam, np, stmts, prof, tsz>>

\* "fold": statements of one nest; instances depend on their mirror images (or, at
\* the boundaries, on the far end), which index set splitting is for
MirrorRow(s, t, i, c) ==    \* x_i + y_i = N - 1 + c
  <<1>> \o Unit(stmts[s].dim, i) \o Unit(stmts[t].dim, i)
        \o [j \in 1..np |-> IF j = (IF i = 1 THEN 1 ELSE np) THEN -1 ELSE 0] \o <<(IF np = 0 THEN -3 ELSE 1) - c>>
NearRow(s, t, i, c) ==      \* y_i = x_i + c
  <<1>> \o Unit(stmts[s].dim, i) \o [j \in 1..stmts[t].dim |-> IF j = i THEN -1 ELSE 0] \o Zeros(np) \o <<c>>
FirstRow(s, t, i) ==        \* x_i = 0
  <<1>> \o Unit(stmts[s].dim, i) \o Zeros(stmts[t].dim + np + 1)
FoldRow(s, t, i) ==
  CASE rnd[12 + i] % 8 \in 0..3 -> <<MirrorRow(s, t, i, PickS(5 + i, <<0, 0, 0, 1, -1, 2>>))>>
    [] rnd[12 + i] % 8 \in 4..5 -> <<NearRow(s, t, i, PickS(5 + i, <<0, 0, 1, -1>>))>>
    [] rnd[12 + i] % 8 = 6 -> <<FirstRow(s, t, i), MirrorRow(s, t, i, 0)>>
    [] OTHER -> <<>>
AddFoldDep ==
  /\ pc \in {"body", "deps"} /\ fam = "fold"
  /\ IF pc = "deps" /\ k <= 1 THEN pc' = "emit" /\ UNCHANGED <<deps, k>>
     ELSE
       /\ pc' = "deps"
       /\ k' = IF pc = "body" THEN 1 + PickN(1, 1, 3) ELSE k - 1
       /\ LET n == Len(stmts)
              s == PickN(2, 1, n)
              t == IF Chance(3, 70) THEN s ELSE PickN(20, 1, n)
              d == stmts[s].dim
              l == IF Chance(4, 60) THEN 1 ELSE PickN(4, 1, IF s < t THEN d + 1 ELSE d)
              body == Concat([i \in 1..d |-> IF i < l THEN <<>> ELSE IF i = l /\ d > 1 /\ Chance(21, 70) THEN <<NearRow(s, t, i, 1)>> ELSE FoldRow(s, t, i)])
          IN deps' = IF d = 0 THEN deps ELSE Append(deps, [s |-> s, t |-> t, rows |-> body \o LevelRows(s, t, l, d)])
  /\ UNCHANGED <<fam, np, stmts, prof, tsz>>

AddDep ==
  /\ pc \in {"body", "deps"} /\ fam \notin {"mem", "chain", "cycle", "fork", "fold"}
  /\ IF pc = "deps" /\ k <= 1 THEN pc' = "emit" /\ UNCHANGED <<deps, k>>
     ELSE
       /\ pc' = "deps"
       /\ k' = IF pc = "body" THEN 1 + PickN(1, 1, MaxDeps) ELSE k - 1
       /\ LET s == PickN(2, 1, Len(stmts))
              t == PickN(3, 1, Len(stmts))
              c == CommonLoops(stmts[s], stmts[t])
              before == s # t /\ stmts[s].beta[c + 1] < stmts[t].beta[c + 1]
              top == IF before THEN c + 1 ELSE c     \* loop-independent possible?
          IN IF top = 0 THEN UNCHANGED deps
             ELSE LET l == PickN(4, 1, top)
                      v == RandVec(Min2(stmts[s].dim, stmts[t].dim))
                      a == AffineRows(s, t, RandMat(stmts[s].dim, stmts[t].dim))
                      body == IF fam = "uniform" THEN UniformRows(s, t, v)
                              ELSE IF fam = "cone" THEN ConeRows(s, t, v)
                              ELSE IF Chance(5, 30) THEN SubSeq(a, 1, Len(a) - 1) ELSE a
                   IN deps' = Append(deps, [s |-> s, t |-> t, rows |->
                        IF fam = "cone" /\ c = Len(v) /\ Chance(21, 40)
                        THEN Orthant(s, t, c) \o (IF Chance(22, 50) THEN <<SumRow(s, t, c, 1)>> ELSE
                              <<[SumRow(s, t, c, 1) EXCEPT ![1] = 1]>>)
                        ELSE body \o LevelRows(s, t, l, c)])
  /\ UNCHANGED <<fam, np, stmts, prof, tsz>>

-----------------------------------------------------------------------------
PVals == LET big == \E s \in DOMAIN stmts : stmts[s].dim >= 3 IN
  CASE np = 0 -> << <<>> >>
    [] fam \in {"chain", "fork"} /\ np = 1 -> << <<3>>, <<4>> >>
    [] np = 1 /\ \E s \in DOMAIN stmts : stmts[s].dim >= 4 -> << <<3>> >>
    [] np = 1 -> IF big THEN << <<3>>, <<4>> >> ELSE << <<3>>, <<5>> >>
    [] np = 2  -> IF big THEN << <<3, 4>> >> ELSE << <<3, 5>>, <<5, 3>> >>
    [] OTHER -> << [i \in 1..np |-> IF i % 2 = 1 THEN 4 ELSE 3] >>

\* a fusion structure: the statements, in textual order, cut into components where no
\* loop is shared; every component with a flag "tile it"
RECURSIVE Cuts(_)
Cuts(i) ==     \* components from statement i on
  IF i > Len(stmts) THEN <<>>
  ELSE LET ends == {j \in i..Len(stmts) : j = Len(stmts) \/ CommonLoops(stmts[j], stmts[j + 1]) = 0}
           e == CHOOSE j \in ends : \A j2 \in ends : j <= j2
           e2 == IF rnd[1 + (i % NDraw)] % 3 = 0 /\ e < Len(stmts)
                 THEN CHOOSE j \in ends \ {e} : \A j2 \in ends \ {e} : j <= j2 ELSE e
       IN <<[ss |-> [j \in 1..(e2 - i + 1) |-> i + j - 2], tile |-> rnd[2 + (i % 20)] % 2]>> \o Cuts(e2 + 1)
\* the first n rows of the original schedule, as <<iterators, parameters, constant>>
OrigRow(st, r) == IF r % 2 = 1 THEN Zeros(st.dim + np) \o <<IF (r + 1) \div 2 <= Len(st.beta) THEN st.beta[(r + 1) \div 2] ELSE 0>>
                  ELSE IF r \div 2 <= st.dim THEN Unit(st.dim, r \div 2) \o Zeros(np + 1) ELSE Zeros(st.dim + np + 1)
Files == CASE PickS(20, Structures) = "fst" -> [fst |-> Cuts(1)]
           [] PickS(20, Structures) = "precut" ->
                LET n == PickN(21, 1, 4) IN [precut |-> [s \in DOMAIN stmts |-> [r \in 1..n |-> OrigRow(stmts[s], r)]]]
           [] OTHER -> [nofile |-> 1]
\* any combination of the options
OneIn(i, n, w) == IF rnd[i] % n = 0 THEN w ELSE 1 - w
MixOpts == [tile |-> OneIn(2, 3, 0), parallel |-> OneIn(3, 3, 0), innerpar |-> OneIn(4, 5, 1), multipar |-> OneIn(5, 4, 1),
            second_level_tile |-> OneIn(6, 4, 1), diamondtile |-> OneIn(7, 2, 1), fulldiamondtile |-> OneIn(8, 4, 1),
            intratileopt |-> OneIn(9, 3, 0), prevector |-> OneIn(10, 3, 0), fuse |-> rnd[11] % 3,
            nodepbound |-> OneIn(12, 8, 1), rar |-> OneIn(13, 6, 1), lastwriter |-> OneIn(14, 4, 1),
            isldepcoalesce |-> OneIn(15, 4, 1), debug |-> OneIn(16, 8, 1), moredebug |-> OneIn(17, 12, 1),
            silent |-> OneIn(18, 6, 1), find_tile_sizes |-> OneIn(19, 8, 1), time |-> OneIn(22, 8, 1)]
           @@ (IF rnd[23] % 6 = 0 THEN [coeff_bound |-> 1 + (rnd[24] % 3)] ELSE [coeff_bound |-> -1])
\* a dimension to be tiled can only be named if there is one
Options == IF prof = "mix" THEN MixOpts
           ELSE IF prof = "ft0" /\ \A s \in DOMAIN stmts : stmts[s].dim = 0 THEN Opt("default") ELSE Opt(prof)
Api == IF fam = "mem" \/ hist.api = "iss" THEN hist.api ELSE IF hist.api \in {"acc", "sched"} THEN "transform" ELSE hist.api
\* pluto_schedule computes the dependences itself: they are all of the program's
Case1 == [kind |-> "pipe", api |-> IF Api = "acc" THEN "transform" ELSE Api,
          acc |-> IF Api = "acc" THEN 1 ELSE 0, npar |-> np, pvals |-> PVals,
          lo |-> -1, hi |-> 6, fam |-> fam, stmts |-> stmts,
          deps |-> IF Api = "sched" THEN MemDeps(Prog) ELSE deps,
          prof |-> prof, opts |-> Options, tsn |-> tsz, own |-> PickN(1, 0, 2)] @@ Files
TheCase ==
  CASE hist.mode = "plain" -> Case1 @@ [before |-> hist.calls]
    [] hist.mode = "cmp" -> Case1 @@ [before |-> hist.calls, cmp |-> 1,
                                     refapi |-> IF Api = "str" THEN "transform" ELSE Case1.api]
    [] hist.mode = "thr" -> Case1 @@ [with |-> hist.calls, cmp |-> 1, thr |-> 1, refapi |-> Case1.api]

Emit ==
  /\ pc = "emit"
  /\ IF Len(hist.calls) < hist.n
     THEN /\ hist' = [hist EXCEPT !.calls = Append(@, Case1)]
          /\ pc' = "draw" /\ fam' = "" /\ np' = 0 /\ stmts' = <<>> /\ deps' = <<>> /\ prof' = "" /\ tsz' = <<>> /\ k' = 0
     ELSE /\ CSVWrite("%1$s", <<ToJson(TheCase)>>, OutFile)
          /\ pc' = "done" /\ UNCHANGED <<fam, np, stmts, deps, prof, tsz, k, hist>>

Work == Shake \/ AddStmt \/ ShapeDone \/ SetDomain \/ SetBody \/ MemDone \/ AddDep \/ AddChainDep \/ AddCycleDep \/ AddForkDep \/ AddFoldDep
Next == /\ (Work /\ UNCHANGED hist) \/ Start \/ Emit
        /\ rnd' = Draw
Spec == Init /\ [][Next]_vars
=============================================================================
