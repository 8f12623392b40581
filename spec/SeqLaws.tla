------------------------------- MODULE SeqLaws -------------------------------
(* The definitions of Seqs.tla mean what the property texts say: checked for *)
(* every pair of short sequences.                                            *)
EXTENDS Seqs
CONSTANTS N, M, K           \* lengths of the two sequences, alphabet 0..K
VARIABLES a, b, p
All(n) == UNION {[1..k -> 0..K] : k \in 0..n}
Init == a \in All(N) /\ b \in All(M) /\ p \in {0, 2, -1, -2, -3}
Next == UNCHANGED <<a, b, p>>
Spec == Init /\ [][Next]_<<a, b, p>>

Match ==
    /\ p = 0 => (StartsWith(p, a, b) <=> \E k \in 0..Len(a) : SubSeq(a, 1, k) = b)
    /\ p = 0 => (EndsWith(p, a, b) <=> \E k \in 0..Len(a) : SubSeq(a, k + 1, Len(a)) = b)
    /\ p = 0 => (Contains(p, a, b) <=> \E i \in 0..Len(a) : \E j \in i..Len(a) : SubSeq(a, i + 1, j) = b)
    /\ Equals(p, a, b) <=> StartsWith(p, a, b) /\ EndsWith(p, a, b) /\ Len(a) = Len(b)
    /\ EndsWith(p, a, b) = StartsWith(p, Rev(a), Rev(b))
    /\ Contains(p, a, b) => RFind(p, a, b) = Len(a) - Len(b) - Find(p, Rev(a), Rev(b))
    /\ Contains(p, a, b) => At(p, a, b, Find(p, a, b)) /\ At(p, a, b, RFind(p, a, b)) /\ Find(p, a, b) <= RFind(p, a, b)
    /\ StartsWith(p, a, b) => Find(p, a, b) = 0
    /\ EndsWith(p, a, b) => RFind(p, a, b) = Len(a) - Len(b)
    /\ b = <<>> => Contains(p, a, b)
Slices ==
    \A s \in -(N + 1)..(N + 1), t \in -(N + 1)..(N + 1) :
        LET r == Slice(a, s, t) IN
        /\ Len(r) <= Len(a)
        /\ (0 <= s /\ s <= t /\ t <= Len(a)) => Len(r) = t - s /\ \A i \in 1..(t - s) : r[i] = a[s + i]
        /\ (s < 0 /\ s + Len(a) >= 0) => r = Slice(a, s + Len(a), t)
        /\ (t < 0 /\ t + Len(a) >= 0) => r = Slice(a, s, t + Len(a))
        /\ s < -Len(a) => r = Slice(a, 0, t)
        /\ t > Len(a) => r = Slice(a, s, Len(a))
        /\ Slice(a, 0, s) \o Slice(a, IF s < -Len(a) THEN 0 ELSE s, Len(a)) = a
Lt(x, y) == x < y
Aggregates ==
    /\ Rev(Rev(a)) = a /\ IsPermutation(a, Rev(a))
    /\ a # <<>> => /\ \A i \in DOMAIN a : a[MinAt(a, Lt) + 1] <= a[i] /\ (a[i] = a[MinAt(a, Lt) + 1] => MinAt(a, Lt) < i)
                   /\ \A i \in DOMAIN a : a[MaxAt(a, Lt) + 1] >= a[i] /\ (a[i] = a[MaxAt(a, Lt) + 1] => MaxAt(a, Lt) < i)
    /\ SumSeq(a \o b) = SumSeq(a) + SumSeq(b)
    /\ IsPermutation(a, b) => SumSeq(a) = SumSeq(b)
=============================================================================
