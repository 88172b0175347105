------------------------------ MODULE InscopGen ------------------------------
(* Random programs and kernels for the splicing script.                       *)
EXTENDS Integers, Sequences, TLC, Json, CSV, Randomization
CONSTANTS MaxLines, OutFile
VARIABLES orig, kern, pc, left, rnd
vars == <<orig, kern, pc, left, rnd>>
Draw == [i \in 1..4 |-> RandomElement(0..(999 + 0 * left))]
Pick(i, s) == s[1 + (rnd[i] % Len(s))]
Line(k, t) == [k |-> k, t |-> t]
Id(f) == ToString(Len(f) + 1)
Pragmas(w) == <<"#pragma " \o w, "#pragma " \o w, "  #pragma " \o w, "#pragma  " \o w, "#pragma\t" \o w, "#pragma " \o w \o " "
               , "\t#pragma " \o w \o "  // here">>
CodeLine(p, f) == Pick(3, <<
   Line("code", p \o Id(f) \o "();"), Line("code", "\t" \o p \o Id(f) \o "(1, 2 % 3);"),
   Line("code", "for (i = 0; i < N; i++) " \o p \o Id(f) \o "(i);"),
   Line("code", "/* scop " \o p \o Id(f) \o " endscop */"), Line("code", "/* " \o p \o Id(f) \o ": see omp.h */"), Line("code", "int " \o p \o Id(f) \o " = 'x' & 3 | 4;"),
   Line("blank", ""), Line("inc", "#include <stdio.h>"), Line("inc", "#include \"util.h\""), Line("inc", "#include <omp.h>"),
   Line("code", "/* " \o p \o Id(f) \o ": ceild, floord, max, min */"), Line("code", p \o Id(f) \o "(ceild(N, 4), max(x, y));"),
   Line("code", "#define min_" \o p \o Id(f) \o " 3"),
   Line("inc", "#include <math.h>"), Line("code", "#define " \o p \o Id(f) \o "(x) ((x) * 2)")>>)
KernLine == Pick(3, <<
   Line("code", "k" \o Id(kern) \o "(t1, t2);"), Line("code", "  for (t1=0;t1<=floord(N,32);t1++) k" \o Id(kern) \o "(t1);"),
   Line("code", "#pragma omp parallel for private(k" \o Id(kern) \o ")"), Line("blank", ""), Line("inc", "#include <omp.h>"),
   Line("code", "int k" \o Id(kern) \o ";")>>)

Shake == pc = "shake" /\ pc' = "draw" /\ UNCHANGED <<orig, kern, left>>
Init == orig = <<>> /\ kern = <<>> /\ pc = "shake" /\ left = 0 /\ rnd = [i \in 1..4 |-> 0]
Block == << Line("inc", "#include <math.h>"),
  Line("hdr", "#define ceild(n,d)  (((n)<0) ? -((-(n))/(d)) : ((n)+(d)-1)/(d))"),
  Line("hdr", "#define floord(n,d) (((n)<0) ? -((-(n)+(d)-1)/(d)) : (n)/(d))"),
  Line("hdr", "#define max(x,y)    ((x) > (y)? (x) : (y))"), Line("hdr", "#define min(x,y)    ((x) < (y)? (x) : (y))") >>
\* a program that has been through the script before begins with the helpers
Begin == /\ pc = "draw" /\ pc' = "pre" /\ left' = 1 + (rnd[1] % MaxLines) /\ UNCHANGED kern
         /\ orig' = IF rnd[2] % 4 = 0 THEN Block ELSE <<>>
Go(a, b, n) == pc = a /\ pc' = b /\ left' = n /\ UNCHANGED <<orig, kern>>
Lines(p, w, next) ==       \* a number of lines in state w, then on to next
  /\ pc = w /\ UNCHANGED kern
  /\ IF left = 0 THEN pc' = next /\ UNCHANGED <<orig, left>>
     ELSE /\ orig' = Append(orig, CodeLine(p, orig)) /\ left' = left - 1 /\ UNCHANGED pc
Mark(w, what, next) ==
  /\ pc = w /\ pc' = next /\ orig' = Append(orig, Line(what, Pick(1, Pragmas(what)))) /\ left' = rnd[2] % (MaxLines + 1)
  /\ UNCHANGED kern
Again == /\ pc = "again" /\ UNCHANGED <<orig, kern>>
         /\ IF rnd[1] % 3 = 0 THEN pc' = "open2" /\ UNCHANGED left ELSE pc' = "kern" /\ left' = 1 + (rnd[2] % MaxLines)
KLines == /\ pc = "kern" /\ UNCHANGED orig
          /\ IF left = 0 THEN pc' = "emit" /\ UNCHANGED <<kern, left>>
             ELSE /\ kern' = IF rnd[4] % 4 = 0
                           THEN kern \o <<Line("def", "#define M" \o Id(kern) \o "(x) k" \o Id(kern) \o "(x);"),
                                          [k |-> "code", t |-> "k" \o Id(kern) \o "(t1);", w |-> "M" \o Id(kern) \o "(t1)"]>>   \* a statement macro and its use
                           ELSE Append(kern, KernLine)
                  /\ left' = left - 1 /\ UNCHANGED pc
Emit == /\ pc = "emit" /\ pc' = "done" /\ UNCHANGED <<orig, kern, left>>
        /\ CSVWrite("%1$s", <<ToJson([kind |-> "inscop", orig |-> orig, kern |-> kern, same |-> rnd[1] % 2])>>, OutFile)
Next == /\ \/ Shake \/ Begin \/ Lines("a", "pre", "open") \/ Mark("open", "scop", "in")
           \/ Lines("s", "in", "close") \/ Mark("close", "endscop", "post") \/ Lines("b", "post", "again") \/ Again
           \/ Mark("open2", "scop", "in2") \/ Lines("u", "in2", "close2") \/ Mark("close2", "endscop", "post2")
           \/ Lines("c", "post2", "kern0") \/ Go("kern0", "kern", 1 + (rnd[1] % MaxLines)) \/ KLines \/ Emit
        /\ rnd' = Draw
Spec == Init /\ [][Next]_vars
=============================================================================
