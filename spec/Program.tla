------------------------------- MODULE Program ------------------------------
(* The static programs Pluto works on.                                        *)
(*                                                                            *)
(* stmt  = [dim, dom, beta, reads, writes]                                    *)
(*   dom  : set over (iterators, parameters)                                  *)
(*   beta : textual position, the 2d+1 form's constants (length dim+1)        *)
(*   reads/writes : sequence of [arr, f]; f = rows <<iters, params, const>>   *)
(* prog  = [npar, stmts, deps]                                                *)
(* dep   = [s, t, rows] : instance x of stmt s must run before instance y of  *)
(*   stmt t whenever x, y are in their domains and rows hold of (x, y, p).    *)
EXTENDS Affine

Inst(st, pv, lo, hi) == {x \in Box(st.dim, lo, hi) : SetSat(st.dom, x \o pv)}

\* the pairs of instances related by dependence d under parameter values pv;
\* I[s] are the instances of statement s
DepPairs(d, I, pv) ==
  {pr \in I[d.s] \X I[d.t] : ConjSat(d.rows, pr[1] \o pr[2] \o pv)}

-----------------------------------------------------------------------------
(* Original execution order (2d+1 timestamps, padded with 0)                  *)
OrigTime(st, x, maxd) ==
  [k \in 1..(2 * maxd + 1) |->
     IF k % 2 = 1
     THEN LET j == (k + 1) \div 2 IN IF j <= Len(st.beta) THEN st.beta[j] ELSE 0
     ELSE LET j == k \div 2 IN IF j <= st.dim THEN x[j] ELSE 0]

\* number of loops the two statements share
RECURSIVE CommonFrom(_, _, _)
CommonFrom(a, b, k) ==
  IF k > a.dim \/ k > b.dim THEN k - 1
  ELSE IF a.beta[k] # b.beta[k] THEN k - 1
  ELSE CommonFrom(a, b, k + 1)
CommonLoops(a, b) == CommonFrom(a, b, 1)

(* Memory-based dependences: accesses fa of stmt s (earlier) and fb of stmt t *)
(* (later) touch the same cell, at a given precedence level.                  *)
EqAccessRow(ra, rb, ds, dt, np) ==
  <<1>> \o [i \in 1..ds |-> ra[i]] \o [i \in 1..dt |-> -rb[i]]
        \o [i \in 1..np |-> ra[ds + i] - rb[dt + i]]
        \o <<ra[ds + np + 1] - rb[dt + np + 1]>>
EqIterRow(k, ds, dt, np) ==
  <<1>> \o Unit(ds, k) \o [i \in 1..dt |-> IF i = k THEN -1 ELSE 0] \o Zeros(np + 1)
LtIterRow(k, ds, dt, np) ==       \* y_k - x_k - 1 >= 0
  <<0>> \o [i \in 1..ds |-> IF i = k THEN -1 ELSE 0] \o Unit(dt, k) \o Zeros(np) \o <<-1>>

AccessDeps(prog, s, t, fa, fb) ==
  LET a == prog.stmts[s]  b == prog.stmts[t]
      np == prog.npar
      same == [r \in DOMAIN fa.f |-> EqAccessRow(fa.f[r], fb.f[r], a.dim, b.dim, np)]
      c == CommonLoops(a, b)
      carried(l) == [s |-> s, t |-> t,
                     rows |-> same \o [k \in 1..(l - 1) |-> EqIterRow(k, a.dim, b.dim, np)]
                                   \o <<LtIterRow(l, a.dim, b.dim, np)>>]
      indep == [s |-> s, t |-> t,
                rows |-> same \o [k \in 1..c |-> EqIterRow(k, a.dim, b.dim, np)]]
      before == s # t /\ a.beta[c + 1] < b.beta[c + 1]
  IN IF fa.arr # fb.arr THEN <<>>
     ELSE [l \in 1..c |-> carried(l)] \o (IF before THEN <<indep>> ELSE <<>>)

\* all pairs (source access, target access) with at least one write
MemDeps(prog) ==
  LET S == prog.stmts
      one(s, t) ==
        Concat([i \in DOMAIN S[s].writes |->
           Concat([j \in DOMAIN S[t].reads |->
               AccessDeps(prog, s, t, S[s].writes[i], S[t].reads[j])]) \o
           Concat([j \in DOMAIN S[t].writes |->
               AccessDeps(prog, s, t, S[s].writes[i], S[t].writes[j])])]) \o
        Concat([i \in DOMAIN S[s].reads |->
           Concat([j \in DOMAIN S[t].writes |->
               AccessDeps(prog, s, t, S[s].reads[i], S[t].writes[j])])])
  IN Concat([s \in DOMAIN S |-> Concat([t \in DOMAIN S |-> one(s, t)])])
=============================================================================
