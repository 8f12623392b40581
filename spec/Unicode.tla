------------------------------- MODULE Unicode -------------------------------
(* The Unicode encoding forms: how a sequence of scalar values is written in *)
(* 8, 16 and 32-bit code units, and what arbitrary code units mean when each *)
(* unit that begins no encoding stands for U+FFFD.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Scalar(c) == c \in 0..55295 \/ c \in 57344..1114111
Bad == 65533

Enc8(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Enc16(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>
Enc32(c) == <<c>>
EncOf(w, c) == IF w = 8 THEN Enc8(c) ELSE IF w = 16 THEN Enc16(c) ELSE Enc32(c)

\* The scalar whose encoding in width w would be these units, if there is one.
Guess(w, u) ==
    IF w = 32 THEN u[1]
    ELSE IF w = 16 THEN (IF Len(u) = 1 THEN u[1] ELSE 65536 + 1024 * (u[1] - 55296) + (u[2] - 56320))
    ELSE CASE Len(u) = 1 -> u[1]
           [] Len(u) = 2 -> 64 * (u[1] - 192) + (u[2] - 128)
           [] Len(u) = 3 -> 4096 * (u[1] - 224) + 64 * (u[2] - 128) + (u[3] - 128)
           [] Len(u) = 4 -> 262144 * (u[1] - 240) + 4096 * (u[2] - 128) + 64 * (u[3] - 128) + (u[4] - 128)
IsEnc(w, u) == Scalar(Guess(w, u)) /\ EncOf(w, Guess(w, u)) = u
Longest(w) == IF w = 8 THEN 4 ELSE IF w = 16 THEN 2 ELSE 1
\* lengths of an encoding beginning at position i (at most one: encodings are prefix-free)
Begins(w, u, i) == {n \in 1..Longest(w) : i + n - 1 <= Len(u) /\ IsEnc(w, SubSeq(u, i, i + n - 1))}

RECURSIVE DecodeFrom(_, _, _, _)
DecodeFrom(w, u, i, acc) ==
    IF i > Len(u) THEN acc
    ELSE LET b == Begins(w, u, i) IN
         IF b = {} THEN DecodeFrom(w, u, i + 1, Append(acc, Bad))
         ELSE LET n == CHOOSE x \in b : TRUE IN DecodeFrom(w, u, i + n, Append(acc, Guess(w, SubSeq(u, i, i + n - 1))))
Decode(w, u) == DecodeFrom(w, u, 1, <<>>)
RECURSIVE EncodeFrom(_, _, _, _)
EncodeFrom(w, c, i, acc) == IF i > Len(c) THEN acc ELSE EncodeFrom(w, c, i + 1, acc \o EncOf(w, c[i]))
Encode(w, c) == EncodeFrom(w, c, 1, <<>>)

\* Units of width w rewritten in width v; between types of the same width the units stay as they are.
Convert(w, v, u) == IF w = v THEN u ELSE Encode(v, Decode(w, u))
=============================================================================
