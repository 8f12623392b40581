------------------------------- MODULE Strings -------------------------------
(* Texts are sequences of character codes.  Splitting, joining, replacing,   *)
(* stripping; casing and comparing without case for a given locale, which is *)
(* a record of functions and sets over the characters concerned.             *)
EXTENDS Seqs

Chars(a) == Map(a, LAMBDA x : <<x>>)

\* pieces between the non-overlapping left-to-right occurrences of s
RECURSIVE Split(_, _)
Split(a, s) ==
    IF s = <<>> THEN Chars(a)
    ELSE LET i == Find(0, a, s) IN
         IF i = Len(a) THEN <<a>>
         ELSE <<SubSeq(a, 1, i)>> \o Split(SubSeq(a, i + Len(s) + 1, Len(a)), s)

\* the maximal non-empty runs free of the elements of S, in order
Runs(a, S) ==
    LET starts == {i \in DOMAIN a : a[i] \notin S /\ (i = 1 \/ a[i - 1] \in S)}
        stop(i) == SetMin({j \in i..Len(a) : j = Len(a) \/ a[j + 1] \in S})
        nth(k) == CHOOSE i \in starts : Cardinality({j \in starts : j <= i}) = k
    IN [k \in 1..Cardinality(starts) |-> SubSeq(a, nth(k), stop(nth(k)))]

RECURSIVE Join(_, _)
Join(l, s) == IF l = <<>> THEN <<>> ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o s \o Join(Tail(l), s)

Around(x) == <<60>> \o x \o <<62>>
Indexed(l) == [i \in DOMAIN l |-> Append(l[i], 48 + ((i - 1) % 10))]

Replace(a, f, r) == IF f = <<>> THEN r \o Join(Chars(a), r) \o (IF a = <<>> THEN <<>> ELSE r) ELSE Join(Split(a, f), r)
RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o Flat(Tail(l))
ReplaceAny(a, S, r) == Flat(Map(a, LAMBDA x : IF x \in S THEN r ELSE <<x>>))

LStrip(a, S) == LET solid == {i \in DOMAIN a : a[i] \notin S} IN IF solid = {} THEN <<>> ELSE SubSeq(a, SetMin(solid), Len(a))
RStrip(a, S) == LET solid == {i \in DOMAIN a : a[i] \notin S} IN IF solid = {} THEN <<>> ELSE SubSeq(a, 1, SetMax(solid))
Strip(a, S) == RStrip(LStrip(a, S), S)

\* Number texts: bits is the two's-complement pattern, highest bit first; k bits make a digit.
RECURSIVE BitsValue(_)
BitsValue(b) == IF b = <<>> THEN 0 ELSE 2 * BitsValue(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
Digits(bits, k) ==
    LET pad == (k - (Len(bits) % k)) % k
        full == [i \in 1..pad |-> 0] \o bits
        all == [i \in 1..(Len(full) \div k) |-> BitsValue(SubSeq(full, (i - 1) * k + 1, i * k))]
        solid == {i \in DOMAIN all : all[i] # 0}
    IN IF solid = {} THEN <<0>> ELSE SubSeq(all, SetMin(solid), Len(all))
DigitChar(d) == IF d < 10 THEN 48 + d ELSE 87 + d
NumText(bits, k, letter) == <<48, letter>> \o Map(Digits(bits, k), DigitChar)
Bin(bits) == NumText(bits, 1, 98)
Oct(bits) == NumText(bits, 3, 111)
Hex(bits) == NumText(bits, 4, 120)
=============================================================================
