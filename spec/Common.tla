------------------------------- MODULE Common -------------------------------
(* Operators shared by the refellips specifications.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

MapSeq(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]

\* elements of s at the positions where m is TRUE
Masked(s, m) ==
  FoldLeft(LAMBDA acc, i : IF m[i] THEN Append(acc, s[i]) ELSE acc, <<>>, [i \in 1..Len(s) |-> i])

\* elements of s that satisfy Test, in order
Keep(s, Test(_)) == SelectSeq(s, Test)

\* every n-th element of s, starting with the first
EveryNth(s, n) ==
  LET k == (Len(s) + n - 1) \div n
  IN [i \in 1..k |-> s[(i - 1) * n + 1]]

\* the distinct elements of s in order of first appearance
Distinct(s) ==
  FoldLeft(LAMBDA acc, x : IF \E j \in 1..Len(acc) : acc[j] = x THEN acc ELSE Append(acc, x), <<>>, s)

\* a set of integers as an ascending sequence
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                     IN <<m>> \o Ascending(S \ {m})
=============================================================================
