----------------------------- MODULE StringLaws ------------------------------
(* The definitions of Strings.tla mean what the property texts say, for all  *)
(* short texts over a small alphabet (0 stands for white space where needed).*)
EXTENDS Strings
CONSTANTS N, M, K, B        \* lengths, alphabet 0..K, widest number
VARIABLES a, s, r
All(n) == UNION {[1..k -> 0..K] : k \in 0..n}
Init == a \in All(N) /\ s \in All(M) /\ r \in All(M)
Next == UNCHANGED <<a, s, r>>
Spec == Init /\ [][Next]_<<a, s, r>>
Elems(x) == {x[i] : i \in DOMAIN x}
Joined == r = <<>>      \* evaluate what does not depend on r only once

SplitLaws == Joined =>
    LET p == Split(a, s) IN
    /\ Join(p, s) = a
    /\ s # <<>> => /\ Len(p) >= 1
                   /\ \A i \in DOMAIN p : ~Contains(0, p[i], s)
                   \* leftmost: no occurrence starts inside a piece, even one reaching into the separator that follows
                   /\ \A i \in 1..(Len(p) - 1) : Find(0, p[i] \o s, s) = Len(p[i])
    /\ s = <<>> => Len(p) = Len(a) /\ \A i \in DOMAIN p : Len(p[i]) = 1
RunLaws == Joined =>
    LET S == Elems(s)  p == Runs(a, S) IN
    /\ \A i \in DOMAIN p : p[i] # <<>> /\ Elems(p[i]) \cap S = {}
    /\ Flat(p) = Keep(a, LAMBDA x : x \notin S)
    /\ (S = {} /\ a # <<>>) => p = <<a>>
    \* maximal: what is left between two neighbouring runs is a non-empty piece of separators
    /\ Len(p) = Cardinality({i \in DOMAIN a : a[i] \notin S /\ (i = Len(a) \/ a[i + 1] \in S)})
ReplaceLaws ==
    /\ Replace(a, s, s) = a \/ s = <<>>
    /\ ~Contains(0, a, s) => Replace(a, s, r) = a
    /\ s # <<>> => Len(Replace(a, s, r)) = Len(a) + (Len(Split(a, s)) - 1) * (Len(r) - Len(s))
    /\ s = <<>> => Len(Replace(a, s, r)) = Len(a) + (Len(a) + 1) * Len(r)
    /\ Replace(s \o a, s, r) = r \o Replace(a, s, r) \/ s = <<>>
    /\ Len(s) = 1 => Replace(a, s, r) = ReplaceAny(a, Elems(s), r)
    /\ ReplaceAny(a, Elems(s), <<>>) = Keep(a, LAMBDA x : x \notin Elems(s))
StripLaws == Joined =>
    LET S == Elems(s)  b == Strip(a, S) IN
    /\ b = LStrip(RStrip(a, S), S) /\ Strip(b, S) = b /\ LStrip(a, S) = Rev(RStrip(Rev(a), S))
    /\ b # <<>> => b[1] \notin S /\ b[Len(b)] \notin S
    /\ \E i \in 0..Len(a), j \in 0..Len(a) : i <= j /\ b = SubSeq(a, i + 1, j) /\ Elems(SubSeq(a, 1, i)) \subseteq S /\ Elems(SubSeq(a, j + 1, Len(a))) \subseteq S
JoinLaws == \A t \in {<<>>, <<a>>, <<a, r>>, <<r, a, r>>} :
    /\ Len(Join(t, s)) = SumSeq(Map(t, Len)) + (IF t = <<>> THEN 0 ELSE Len(t) - 1) * Len(s)
    /\ t # <<>> => StartsWith(0, Join(t, s), t[1]) /\ EndsWith(0, Join(t, s), t[Len(t)])
Pattern(n, w) == [i \in 1..w |-> (n \div 2 ^ (w - i)) % 2]
RECURSIVE DigitsValue(_, _)
DigitsValue(d, k) == IF d = <<>> THEN 0 ELSE 2 ^ k * DigitsValue(SubSeq(d, 1, Len(d) - 1), k) + d[Len(d)]
ASSUME NumberLaws == \A w \in {1, 2, 3, 4, 5, 8, B} : \A n \in 0..(2 ^ w - 1) : \A k \in {1, 3, 4} :
    LET d == Digits(Pattern(n, w), k) IN
    /\ DigitsValue(d, k) = n /\ (n # 0 => d[1] # 0) /\ (n = 0 => d = <<0>>)
    /\ \A i \in DOMAIN d : d[i] \in 0..(2 ^ k - 1)
=============================================================================
