-------------------------------- MODULE Range --------------------------------
(* Ranges over a totally ordered set of points.  Every comparison is defined *)
(* from the points alone.                                                    *)
EXTENDS Integers, Sequences, TLC

Rng(b, e) == [b |-> b, e |-> e]
Valid(r) == r.b <= r.e          \* the end does not lie before the begin
NonEmpty(r) == r.b < r.e

Eq(r, s) == r.b = s.b /\ r.e = s.e
Less(r, s) == r.b < s.b \/ (r.b = s.b /\ r.e < s.e)
(* each starts before the other ends, or they start at the same point *)
Overlap(r, s) == r.b = s.b \/ (r.b < s.e /\ s.b < r.e)
(* ordered and not overlapping: meaningful for non-empty ranges *)
LessNoOverlap(r, s) == Less(r, s) /\ ~Overlap(r, s)

(* What the operations must answer. *)
Answers(r, s) ==
    [eq |-> Eq(r, s), ne |-> ~Eq(r, s), lt |-> Less(r, s), gt |-> Less(s, r), le |-> Less(r, s) \/ Eq(r, s), ge |-> Less(s, r) \/ Eq(r, s)]
=============================================================================
