------------------------------ MODULE TraceMat ------------------------------
(* Recorded histories of matrix operations against linear algebra.            *)
EXTENDS Affine, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ob(n, ok, w) == [n |-> n, ok |-> ok, w |-> w]
VARIABLES c, k, res, pc
vars == <<c, k, res, pc>>
In == Trace[c].in
Steps == Trace[c].out.steps
Pre(r) == Steps[k].regs[r]
Post(r) == Steps[k + 1].regs[r]
Op == In.ops[k]
X == Steps[k + 1].x
Ret == Steps[k + 1].ret
A == Op.a
B == Op.b
I == X.i + 1
J == X.j + 1

M(reg) == reg.d
NR(reg) == Len(reg.d)
NC(reg) == reg.n
Is(reg, m, nc) == reg.n = nc /\ reg.d = m
RmAt(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
InsAt(s, i, e) == [j \in 1..(Len(s) + 1) |-> IF j < i THEN s[j] ELSE IF j = i THEN e ELSE s[j - 1]]
Swap(s, i, j) == [q \in DOMAIN s |-> IF q = i THEN s[j] ELSE IF q = j THEN s[i] ELSE s[q]]
Move(s, i, j) == InsAt(RmAt(s, i), j, s[i])
EachRow(m, f(_)) == [r \in DOMAIN m |-> f(m[r])]
Neg(v) == [j \in DOMAIN v |-> -v[j]]

\* determinant by expansion along the first row
RECURSIVE Det(_)
Det(m) == IF Len(m) = 0 THEN 1
          ELSE SumSeq([j \in 1..Len(m) |->
                 (IF j % 2 = 1 THEN 1 ELSE -1) * m[1][j] *
                 (IF m[1][j] = 0 THEN 0 ELSE Det([r \in 1..(Len(m) - 1) |-> RmAt(m[r + 1], j)]))])
\* the elements of S in increasing order
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted(S \ {x})
Minor(m, R, C) == LET r == Sorted(R)  q == Sorted(C) IN [i \in DOMAIN r |-> [j \in DOMAIN q |-> m[r[i]][q[j]]]]
RankOf(m, nc) ==
  LET full(t) == \E R \in {R \in SUBSET DOMAIN m : Cardinality(R) = t}, C \in {C \in SUBSET (1..nc) : Cardinality(C) = t} :
                   Det(Minor(m, R, C)) # 0
  IN Cardinality({t \in 1..Min2(Len(m), nc) : full(t)})
SameRowSpace(m, p, nc) == RankOf(m, nc) = RankOf(p, nc) /\ RankOf(m \o p, nc) = RankOf(m, nc)
Lead(v) == IF \A j \in DOMAIN v : v[j] = 0 THEN Len(v) + 1 ELSE CHOOSE j \in DOMAIN v : v[j] # 0 /\ \A q \in 1..(j - 1) : v[q] = 0
IsEchelon(m) == \A i \in 1..(Len(m) - 1) : Lead(m[i]) < Lead(m[i + 1]) \/ (Lead(m[i]) = Lead(m[i + 1]) /\ Lead(m[i]) = Len(m[i]) + 1)
\* eliminating column p of an equality system: the span of the rows with zero in p, that column dropped
ZeroIn(m, p) == \A i \in DOMAIN m : m[i][p] = 0
Eliminated(m, p, nc, post) ==
  LET back == [i \in DOMAIN post |-> InsAt(post[i], p, 0)] IN
  /\ RankOf(m \o back, nc) = RankOf(m, nc)
  /\ RankOf(back, nc) = RankOf(m, nc) - (IF ZeroIn(m, p) THEN 0 ELSE 1)
Parallel(u, v) == \A i, j \in DOMAIN u : u[i] * v[j] = u[j] * v[i]
ZeroV(v) == \A j \in DOMAIN v : v[j] = 0
Dot(u, v) == DotFrom(u, 0, v, 0, Len(u))
Col(m, j) == [i \in DOMAIN m |-> m[i][j]]
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

a0 == M(Pre(A))
b0 == M(Pre(B))
an == NC(Pre(A))
bn == NC(Pre(B))
Meets ==
  CASE Op.op = "dup" -> Is(Post(A), b0, bn)
    [] Op.op = "ident" -> Is(Post(A), [i \in 1..X.i |-> Unit(X.i, i)], X.i)
    [] Op.op = "prod" -> Is(Post(A), [i \in DOMAIN a0 |-> [j \in 1..bn |-> Dot(a0[i], Col(b0, j))]], bn)
    [] Op.op = "addrows" -> Is(Post(A), a0 \o b0, an)
    [] Op.op = "addrow" -> Is(Post(A), InsAt(a0, I, Zeros(an)), an)
    [] Op.op = "addcol" -> Is(Post(A), EachRow(a0, LAMBDA r : InsAt(r, I, 0)), an + 1)
    [] Op.op = "remrow" -> Is(Post(A), RmAt(a0, I), an)
    [] Op.op = "remcol" -> Is(Post(A), EachRow(a0, LAMBDA r : RmAt(r, I)), an - 1)
    [] Op.op = "zerorow" -> Is(Post(A), [a0 EXCEPT ![I] = Zeros(an)], an)
    [] Op.op = "zerocol" -> Is(Post(A), EachRow(a0, LAMBDA r : [r EXCEPT ![I] = 0]), an)
    [] Op.op = "swaprows" -> Is(Post(A), Swap(a0, I, J), an)
    [] Op.op = "swapcols" -> Is(Post(A), EachRow(a0, LAMBDA r : Swap(r, I, J)), an)
    [] Op.op = "movecol" -> Is(Post(A), EachRow(a0, LAMBDA r : Move(r, I, J)), an)
    [] Op.op = "negrow" -> Is(Post(A), [a0 EXCEPT ![I] = Neg(@)], an)
    [] Op.op = "neg" -> Is(Post(A), EachRow(a0, Neg), an)
    [] Op.op = "rev" -> Is(Post(A), [i \in DOMAIN a0 |-> a0[Len(a0) + 1 - i]], an)
    [] Op.op = "fill" -> Is(Post(A), EachRow(a0, LAMBDA r : [j \in DOMAIN r |-> X.j]), an)
    [] Op.op = "norm" -> /\ NC(Post(A)) = an /\ NR(Post(A)) = Len(a0)
                         /\ \A i \in DOMAIN a0 : Parallel(M(Post(A))[i], a0[i]) /\ Dot(M(Post(A))[i], a0[i]) >= 0
                                                 /\ (ZeroV(a0[i]) <=> ZeroV(M(Post(A))[i]))
    [] Op.op = "gauss" -> NC(Post(A)) = an - 1 /\ Eliminated(a0, I, an, M(Post(A)))
    [] Op.op = "rank" -> Ret = <<RankOf(a0, an)>>
    [] Op.op = "echelon" -> /\ NC(Post(A)) = an /\ NR(Post(A)) = Len(a0)
                            /\ IsEchelon(M(Post(A))) /\ SameRowSpace(a0, M(Post(A)), an)
    [] Op.op = "eq" -> Ret = <<IF a0 = b0 /\ an = bn THEN 1 ELSE 0>>
    [] Op.op = "par" -> Ret = <<IF (ZeroV(a0[I]) <=> ZeroV(b0[J])) /\ Parallel(a0[I], b0[J]) THEN 1 ELSE 0>>
    [] Op.op = "normal" -> Ret = <<IF Dot(a0[I], b0[J]) = 0 THEN 1 ELSE 0>>
    [] Op.op = "gcd" -> /\ Ret[1] = GCD(X.i, X.j)
                        /\ Ret[2] = IF X.i = 0 \/ X.j = 0 THEN 0 ELSE (X.i * X.j) \div GCD(X.i, X.j)
    [] OTHER -> FALSE
ReadOnly == {"rank", "eq", "par", "normal", "gcd"}
Unchanged(r) == Pre(r) = Post(r)
Init == c \in DOMAIN Trace /\ k = 1 /\ res = {} /\ pc = "run"
Step ==
  /\ pc = "run" /\ k < Len(Steps) /\ k' = k + 1 /\ UNCHANGED <<c, pc>>
  /\ IF Steps[k + 1].skip = 1 THEN res' = res
     ELSE res' = res \cup {Ob("mat-" \o Op.op, Meets, 1),
                           Ob("mat-frame", \A r \in 1..3 : (r = A /\ Op.op \notin ReadOnly) \/ Unchanged(r), 1)}
Report ==
  /\ pc = "run" /\ k = Len(Steps) /\ pc' = "done" /\ UNCHANGED <<c, k, res>>
  /\ PrintT("RES " \o ToJson([c |-> c, v |-> 1, res |-> res]))
Next == Step \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
