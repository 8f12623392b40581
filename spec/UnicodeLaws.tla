----------------------------- MODULE UnicodeLaws -----------------------------
(* What Unicode.tla's definitions must satisfy.  c runs over scalar values,  *)
(* x over short sequences of arbitrary units.                                *)
EXTENDS Unicode
CONSTANTS Step, X8, N8, X16, N16
VARIABLES kind, c, x
Near == {0, 1, 127, 128, 2047, 2048, 4095, 4096, 55295, 57344, 65533, 65535, 65536, 65537, 131071, 262143, 262144, 1114110, 1114111}
Cs == {y \in 0..1114111 : y % Step = 0 /\ Scalar(y)} \cup Near
Words(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == \/ kind = 0 /\ c \in Cs /\ x = <<>>
        \/ kind = 8 /\ c \in Near /\ x \in Words(X8, N8)
        \/ kind = 16 /\ c \in Near /\ x \in Words(X16, N16)
Next == UNCHANGED <<kind, c, x>>
Spec == Init /\ [][Next]_<<kind, c, x>>

RoundTrip == kind = 0 => \A w \in {8, 16, 32} :
    LET u == EncOf(w, c) IN
    /\ Decode(w, u) = <<c>> /\ IsEnc(w, u)
    /\ \A i \in DOMAIN u : u[i] \in 0..(CASE w = 8 -> 255 [] w = 16 -> 65535 [] w = 32 -> 1114111)
    \* no proper prefix and no proper suffix of an encoding is one: encodings are self-synchronising
    /\ \A i \in 2..Len(u) : Begins(w, u, i) = {} /\ ~IsEnc(w, SubSeq(u, 1, i - 1))
    /\ w = 8 => Len(u) = (IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4)
Resume == kind # 0 =>
    /\ Cardinality(Begins(kind, x, 1)) <= 1
    \* whatever came before, a valid encoding that follows is preserved
    /\ Decode(kind, x \o EncOf(kind, c)) = Append(Decode(kind, x), c)
    /\ Decode(kind, EncOf(kind, c) \o x) = <<c>> \o Decode(kind, x)
    /\ \A i \in DOMAIN Decode(kind, x) : Scalar(Decode(kind, x)[i])
    /\ Len(Decode(kind, x)) <= Len(x)
=============================================================================
