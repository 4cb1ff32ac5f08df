------------------------------ MODULE WlaUtil ------------------------------
(* Small helpers shared by all WLA DX specifications.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

AlignUp(a, n) == IF a % n = 0 THEN a ELSE a + n - (a % n)

\* TLC's \div and % floor; C truncates towards zero.
CDiv(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b)
              IN  IF (a < 0) = (b < 0) THEN q ELSE -q
CMod(a, b) == a - b * CDiv(a, b)

Byte(v, i) ==  \* i-th byte (0 = least significant) of v as two's complement
  CASE i = 0 -> v % 256
    [] i = 1 -> (v \div 256) % 256
    [] i = 2 -> (v \div 65536) % 256
    [] i = 3 -> (v \div 16777216) % 256

LEBytes(v, n) == [i \in 1..n |-> Byte(v, i - 1)]
BEBytes(v, n) == [i \in 1..n |-> Byte(v, n - i)]

RepeatV(v, n) == [i \in 1..n |-> v]
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
ConcatAll(ss) == FoldLeft(LAMBDA a, b : a \o b, << >>, ss)
SeqIndices(s) == 1..Len(s)
SetToSortedSeq(S, Op(_, _)) == SortSeq(SetToSeq(S), Op)
MapSeq(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
Take(s, n) == IF n <= 0 THEN << >> ELSE SubSeq(s, 1, Min2(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
=============================================================================
