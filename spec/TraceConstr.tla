---------------------------- MODULE TraceConstr -----------------------------
(* Checks recorded histories of constraint-system operations against their    *)
(* meaning as sets of integer points.  Step k is judged from the recorded     *)
(* registers before it, so one wrong step is reported once.                   *)
EXTENDS Affine, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r
Ob(n, ok, w) == [n |-> n, ok |-> ok, w |-> w]

VARIABLES c, k, res, pc
vars == <<c, k, res, pc>>
In == Trace[c].in
Steps == Trace[c].out.steps

Pre(r) == Steps[k].regs[r]
Post(r) == Steps[k + 1].regs[r]
Op == In.ops[k]
X == Steps[k + 1].x
Ret == Steps[k + 1].ret

\* --------------------------------------------------------------- meaning
Sat(reg, x) == SetSat(reg.d, x)
Pts(nn) == Box(nn, In.lo, In.hi)
SameSet(f(_), reg) == \A x \in Pts(reg.n) : f(x) <=> Sat(reg, x)
\* x without position p / with t inserted at position p (1-based)
Drop(x, p) == [i \in 1..(Len(x) - 1) |-> IF i < p THEN x[i] ELSE x[i + 1]]
Ins(x, p, t) == [i \in 1..(Len(x) + 1) |-> IF i < p THEN x[i] ELSE IF i = p THEN t ELSE x[i - 1]]

\* the values t can take at position p over y: a*t + b >= 0 / = 0, for every row
Coef(row, p) == row[1 + p]
Rest(row, y, p) == RowVal(row, Ins(y, p, 0))
CeilDiv(a, b) == -((-a) \div b)
\* rows as pairs (a, b), equalities split
Halves(rows, y, p) ==
  LET ab(r) == <<Coef(r, p), Rest(r, y, p)>>  neg(r) == <<-Coef(r, p), -Rest(r, y, p)>>
  IN {ab(rows[i]) : i \in DOMAIN rows} \cup {neg(rows[i]) : i \in {i \in DOMAIN rows : rows[i][1] = 1}}
RatProj(rows, y, p) ==
  LET h == Halves(rows, y, p) IN
  /\ \A z \in h : z[1] = 0 => z[2] >= 0
  /\ \A z \in h : z[1] > 0 => \A w \in h : w[1] < 0 => z[1] * w[2] - w[1] * z[2] >= 0
IntProj(rows, y, p) ==
  LET h == Halves(rows, y, p)
      lbs == {CeilDiv(-z[2], z[1]) : z \in {z \in h : z[1] > 0}}
      ubs == {w[2] \div (-w[1]) : w \in {w \in h : w[1] < 0}}
  IN /\ \A z \in h : z[1] = 0 => z[2] >= 0
     /\ \A l \in lbs, u \in ubs : l <= u
\* eliminating position p: no point lost, none added beyond the rational shadow
Eliminates(pre, post, p) ==
  /\ post.n = pre.n - 1
  /\ \A y \in Pts(post.n) :
       /\ (\E d \in DOMAIN pre.d : IntProj(pre.d[d], y, p)) => Sat(post, y)
       /\ Sat(post, y) => \E d \in DOMAIN pre.d : RatProj(pre.d[d], y, p)

BoxedPts(reg) == {x \in Pts(reg.n) : Sat(reg, x)}
LexMost(S) == CHOOSE x \in S : \A y \in S : LexLE(y, x)
LexLeast(S) == CHOOSE x \in S : \A y \in S : LexLE(x, y)

\* ------------------------------------------------------- one operation
A == Op.a
B == Op.b
P == X.pos + 1
\* value added by an extra constraint
RowOf(nn) == [j \in 1..(nn + 2) |-> IF j = 1 THEN Op.i % 2 ELSE IF j = nn + 2 THEN Op.row[4] ELSE Op.row[j - 1]]
And(f(_)) == Post(A).n = Pre(A).n /\ SameSet(LAMBDA x : Sat(Pre(A), x) /\ f(x), Post(A))
KeepsSet == Post(A).n = Pre(A).n /\ SameSet(LAMBDA x : Sat(Pre(A), x), Post(A))
OneEq(a, b) == a.n = b.n /\ a.d = b.d
NegRow(r) == [j \in DOMAIN r |-> IF j = 1 THEN r[1] ELSE -r[j]]
RmAt(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
SwapCols(r, p, q) == [j \in DOMAIN r |-> IF j = 1 + p THEN r[1 + q] ELSE IF j = 1 + q THEN r[1 + p] ELSE r[j]]
Count(S) == Cardinality(S)
ShiftVal(row, x) == DotFrom(row, 0, x, 0, Len(x)) + row[Len(x) + 1]

PhiRow(ph, x, nn) ==   \* coefficients of the unknowns (and the constant) in the form at x
  [q \in 1..3 |-> DotFrom([r \in 1..nn |-> ph[r][q]], 0, x, 0, nn) + ph[nn + 1][q]]
TUSystem(rows, nn) ==
  \A i \in DOMAIN rows : /\ \A j \in 1..nn : rows[i][1 + j] \in {-1, 0, 1}
                         /\ Cardinality({j \in 1..nn : rows[i][1 + j] = 1}) <= 1
                         /\ Cardinality({j \in 1..nn : rows[i][1 + j] = -1}) <= 1
FarkasOk ==
  LET S == BoxedPts(Pre(A))  nn == Pre(A).n
      holds(u) == \A x \in S : LET f == PhiRow(Op.phi, x, nn) IN f[1] * u[1] + f[2] * u[2] + f[3] >= 0
  IN \A u \in Box(2, -3, 3) :
       /\ SetSat(Ret, u) => holds(u)
       \* complete when the rational and the integer set have the same hull
       /\ (S # {} /\ TUSystem(Pre(A).d[1], nn) /\ holds(u)) => SetSat(Ret, u)

ElimCols == {"fm", "fmsmart", "gauss", "proj", "projout"}
Unchanged(r) == OneEq(Pre(r), Post(r))
ReadOnly == {"clb", "cub", "empty", "lexmin", "best", "nnz", "farkas"}

Meets ==
  CASE Op.op \in {"add", "inter", "each"} -> And(LAMBDA x : Sat(Pre(B), x))
    [] Op.op = "union" -> /\ Post(A).n = Pre(A).n
                          /\ SameSet(LAMBDA x : Sat(Pre(A), x) \/ Sat(Pre(B), x), Post(A))
    [] Op.op \in {"copy", "dup"} -> OneEq(Post(A), Pre(B))
    [] Op.op = "lb" -> And(LAMBDA x : x[P] >= X.v)
    [] Op.op = "ub" -> And(LAMBDA x : x[P] <= X.v)
    [] Op.op = "setv" -> And(LAMBDA x : x[P] = X.v)
    [] Op.op = "cst" -> And(LAMBDA x : RowSat(RowOf(Pre(A).n), x))
    [] Op.op \in {"simplify", "isl", "islmap", "pure", "norm"} ->
         /\ KeepsSet
         /\ Op.op = "pure" => \A i \in DOMAIN Post(A).d[1] : Post(A).d[1][i][1] = 0
    [] Op.op \in {"mat", "file"} -> OneEq(Post(A), Pre(A))
    [] Op.op \in {"adddim", "addlead"} ->
         /\ Post(A).n = Pre(A).n + 1
         /\ SameSet(LAMBDA x : Sat(Pre(A), Drop(x, P)), Post(A))
    [] Op.op = "remdim" -> /\ Post(A).n = Pre(A).n - 1
                           /\ Post(A).d = [d \in DOMAIN Pre(A).d |->
                                [i \in DOMAIN Pre(A).d[d] |-> RmAt(Pre(A).d[d][i], P + 1)]]
    [] Op.op = "swap" -> /\ Post(A).n = Pre(A).n
                         /\ SameSet(LAMBDA x : Sat(Pre(A), [x EXCEPT ![P] = x[X.v + 1], ![X.v + 1] = x[P]]), Post(A))
    [] Op.op \in ElimCols -> Eliminates(Pre(A), Post(A), P)
    [] Op.op = "shift" -> /\ Post(A).n = Pre(A).n
                          /\ SameSet(LAMBDA x : Sat(Pre(A), [x EXCEPT ![P] = @ - ShiftVal(Ret, x)]), Post(A))
    [] Op.op = "rmrow" -> Post(A).d = <<RmAt(Pre(A).d[1], P)>> \o Tail(Pre(A).d)
    [] Op.op = "negrow" -> OneEq(Post(A), [Pre(A) EXCEPT !.d = <<[@[1] EXCEPT ![P] = NegRow(@)]>>])
    [] Op.op = "negcst" ->
         /\ Len(Post(A).d) = 1 /\ Len(Post(A).d[1]) = Len(Pre(A).d[1])
         /\ SameSet(LAMBDA x : /\ \A i \in DOMAIN Pre(A).d[1] : i # P => RowSat(Pre(A).d[1][i], x)
                               /\ ~RowSat(Pre(A).d[1][P], x), Post(A))
    [] Op.op = "selrow" -> OneEq(Post(A), [n |-> Pre(B).n, d |-> << <<Pre(B).d[1][P]>> >>])
    [] Op.op = "neghalf" -> Post(A).n = Pre(A).n /\ SameSet(LAMBDA x : RowVal(Pre(A).d[1][1], x) < 0, Post(A))
    [] Op.op = "poshalf" -> Post(A).n = Pre(A).n /\ SameSet(LAMBDA x : RowVal(Pre(A).d[1][1], x) >= 0, Post(A))
    [] Op.op = "zero" -> OneEq(Post(A), [Pre(A) EXCEPT !.d = <<[@[1] EXCEPT ![P] = [j \in DOMAIN @ |-> IF j = 1 THEN @[1] ELSE 0]]>>])
    [] Op.op = "univ" -> Post(A).n = Pre(A).n /\ SameSet(LAMBDA x : TRUE, Post(A))
    [] Op.op = "void" -> Post(A).n = Pre(A).n /\ SameSet(LAMBDA x : FALSE, Post(A))
    [] Op.op = "mixed" -> OneEq(Post(A), Pre(B))
    [] Op.op = "ineqs" -> OneEq(Post(A), [n |-> Pre(B).n, d |-> <<[i \in DOMAIN Pre(B).d[1] |-> [Pre(B).d[1][i] EXCEPT ![1] = 0]]>>])
    [] Op.op = "clb" -> Ret[1] = 1 => /\ \A x \in BoxedPts(Pre(A)) : x[P] >= Ret[2]
                                      /\ Pre(A).n = 1 /\ BoxedPts(Pre(A)) # {} => LexLeast(BoxedPts(Pre(A)))[1] = Max2(Ret[2], In.lo)
    [] Op.op = "cub" -> Ret[1] = 1 => /\ \A x \in BoxedPts(Pre(A)) : x[P] <= Ret[2]
                                      /\ Pre(A).n = 1 /\ BoxedPts(Pre(A)) # {} => LexMost(BoxedPts(Pre(A)))[1] = Min2(Ret[2], In.hi)
    [] Op.op = "eqs" -> OneEq(Post(A), [n |-> Pre(B).n, d |-> <<SelectSeq(Pre(B).d[1], LAMBDA r : r[1] = 1)>>])
    [] Op.op = "empty" -> Ret = <<IF BoxedPts(Pre(A)) = {} THEN 1 ELSE 0>>
    [] Op.op = "lexmin" ->
         LET S == {x \in BoxedPts(Pre(A)) : X.v = 1 \/ \A i \in DOMAIN x : x[i] >= 0}
         IN IF S = {} THEN Ret = <<>> ELSE Ret = LexLeast(S)
    [] Op.op = "nnz" -> Ret = <<SumSeq([i \in DOMAIN Pre(A).d[1] |->
                          Cardinality({j \in 2..(Pre(A).n + 1) : Pre(A).d[1][i][j] # 0})])>>
    [] Op.op = "best" -> Ret[1] \in (Pre(A).n - X.pos)..(Pre(A).n - 1)
    [] Op.op = "farkas" -> FarkasOk
    [] OTHER -> FALSE

Group == CASE Op.op \in ElimCols -> "elim"
           [] Op.op = "farkas" -> "farkas"
           [] Op.op \in {"empty", "lexmin"} -> "solve"
           [] OTHER -> "set"
\* how much the step says: points on either side
Weight == IF Op.op \in ReadOnly THEN 1 ELSE 1

Init == c \in DOMAIN Trace /\ k = 1 /\ res = {} /\ pc = "run"
Step ==
  /\ pc = "run" /\ k < Len(Steps) /\ k' = k + 1 /\ UNCHANGED <<c, pc>>
  /\ IF Steps[k + 1].skip = 1 THEN res' = res
     ELSE res' = res \cup {Ob("cst-" \o Group \o ":" \o Op.op, Meets, Weight),
                           Ob("cst-frame", \A r \in 1..3 : r = A \/ Unchanged(r), 1)}
                     \cup (IF Op.op \in ReadOnly THEN {Ob("cst-frame", Unchanged(A), 1)} ELSE {})
Report ==
  /\ pc = "run" /\ k = Len(Steps) /\ pc' = "done" /\ UNCHANGED <<c, k, res>>
  /\ PrintT("RES " \o ToJson([c |-> c, v |-> 1, res |-> res]))
Next == Step \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
