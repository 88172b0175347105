------------------------------- MODULE Affine -------------------------------
(* Integer affine objects over concrete, small parameter values.             *)
(*                                                                            *)
(*   row  = <<eq, c1, ..., cn, c0>>   c.x + c0 = 0 (eq = 1) or >= 0 (eq = 0)  *)
(*   set  = sequence of disjuncts, each a sequence of rows                    *)
(* Vectors are sequences of integers.                                         *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

\* floor division (divisor > 0), as in loop tiling
FloorDiv(a, b) == a \div b            \* TLA+'s \div is floor division for b > 0

\* sum of v[i]*x[j+i], i = 1..n
RECURSIVE DotFrom(_, _, _, _, _)
DotFrom(v, vo, x, xo, n) ==
  IF n = 0 THEN 0 ELSE v[vo + n] * x[xo + n] + DotFrom(v, vo, x, xo, n - 1)

\* value of affine row <<c1..cn, c0>> (no eq flag) at x (length n)
AffVal(row, x) == DotFrom(row, 0, x, 0, Len(x)) + row[Len(x) + 1]

\* value of a constraint row <<eq, c.., c0>> at x
RowVal(row, x) == DotFrom(row, 1, x, 0, Len(x)) + row[Len(x) + 2]
RowSat(row, x) == IF row[1] = 1 THEN RowVal(row, x) = 0 ELSE RowVal(row, x) >= 0
ConjSat(rows, x) == \A i \in DOMAIN rows : RowSat(rows[i], x)
SetSat(disj, x) == \E k \in DOMAIN disj : ConjSat(disj[k], x)

\* all integer vectors of length n with entries in lo..hi, as sequences
Box(n, lo, hi) == [1..n -> lo..hi]

\* lexicographic order on equal-length vectors
RECURSIVE LexLTFrom(_, _, _)
LexLTFrom(a, b, k) ==
  IF k > Len(a) THEN FALSE
  ELSE IF a[k] < b[k] THEN TRUE
  ELSE IF a[k] > b[k] THEN FALSE
  ELSE LexLTFrom(a, b, k + 1)
LexLT(a, b) == LexLTFrom(a, b, 1)
LexLE(a, b) == a = b \/ LexLT(a, b)

\* do a and b agree on their first k components?
PrefixEq(a, b, k) == \A i \in 1..k : a[i] = b[i]

IsPermOfSeq(s) == {s[i] : i \in DOMAIN s} = DOMAIN s

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

Zeros(n) == [i \in 1..n |-> 0]
Unit(n, k) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
=============================================================================
