-------------------------------- MODULE Seqs ---------------------------------
(* Finite sequences: matching, searching, transforming, aggregating.         *)
(* Positions are counted from 0; "not found" is the length.  P is the        *)
(* predicate used, given the left element and then the right one: 0 is       *)
(* equality, P > 0 equality modulo P, -1 is <=, -2 is <, -3 "one more than". *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Same(P, x, y) == CASE P = 0 -> x = y [] P > 0 -> x % P = y % P [] P = -1 -> x <= y [] P = -2 -> x < y [] P = -3 -> x = y + 1
Min2(x, y) == IF x < y THEN x ELSE y
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

\* b is found in a at position i
At(P, a, b, i) == i + Len(b) <= Len(a) /\ \A k \in 1..Len(b) : Same(P, a[i + k], b[k])
Occ(P, a, b) == {i \in 0..Len(a) : At(P, a, b, i)}

Equals(P, a, b) == Len(a) = Len(b) /\ At(P, a, b, 0)
StartsWith(P, a, b) == At(P, a, b, 0)
EndsWith(P, a, b) == Len(b) <= Len(a) /\ At(P, a, b, Len(a) - Len(b))
Find(P, a, b) == LET o == Occ(P, a, b) IN IF o = {} THEN Len(a) ELSE SetMin(o)
RFind(P, a, b) == LET o == Occ(P, a, b) IN IF o = {} THEN Len(a) ELSE SetMax(o)
Contains(P, a, b) == Occ(P, a, b) # {}

\* first and last position whose element is in the set
Where(a, Q(_)) == {i \in 0..(Len(a) - 1) : Q(a[i + 1])}
FirstOf(a, S) == IF S = {} THEN Len(a) ELSE SetMin(S)
LastOf(a, S) == IF S = {} THEN Len(a) ELSE SetMax(S)

Rev(a) == [i \in 1..Len(a) |-> a[Len(a) + 1 - i]]
Slice(a, start, stop) ==
    LET n == Len(a)
        Clamp(x) == IF x < 0 THEN (IF x + n < 0 THEN 0 ELSE x + n) ELSE Min2(x, n)
    IN SubSeq(a, Clamp(start) + 1, Clamp(stop))
Keep(a, Q(_)) == SelectSeq(a, Q)
Map(a, F(_)) == [i \in DOMAIN a |-> F(a[i])]

RECURSIVE SumSeq(_)
SumSeq(a) == IF a = <<>> THEN 0 ELSE Head(a) + SumSeq(Tail(a))
Count(a, Q(_)) == Cardinality(Where(a, Q))
\* the first element that no other one precedes / that precedes no other one
MinAt(a, Lt(_, _)) == SetMin({i \in 0..(Len(a) - 1) : \A j \in DOMAIN a : ~Lt(a[j], a[i + 1])})
MaxAt(a, Lt(_, _)) == SetMin({i \in 0..(Len(a) - 1) : \A j \in DOMAIN a : ~Lt(a[i + 1], a[j])})

Times(a, x) == Cardinality({i \in DOMAIN a : a[i] = x})
Range(a) == {a[i] : i \in DOMAIN a}
IsPermutation(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) \cup Range(b) : Times(a, x) = Times(b, x)
IsSorted(a, Lt(_, _)) == \A i \in 1..(Len(a) - 1) : ~Lt(a[i + 1], a[i])
=============================================================================
