------------------------------ MODULE RangeLaws ------------------------------
(* The definitions of Range.tla have the properties claimed of them: checked *)
(* for every triple of ranges over Points.                                   *)
EXTENDS Range
CONSTANT N
VARIABLES r, s, t
Points == 0..N
All == {Rng(b, e) : b \in Points, e \in Points}
Init == r \in All /\ s \in All /\ t \in All
Next == UNCHANGED <<r, s, t>>
Spec == Init /\ [][Next]_<<r, s, t>>

StrictTotalOrder ==
    /\ ~Less(r, r)
    /\ ~(Less(r, s) /\ Less(s, r))
    /\ Less(r, s) /\ Less(s, t) => Less(r, t)
    /\ Less(r, s) \/ Less(s, r) \/ Eq(r, s)
    /\ Eq(r, s) <=> (~Less(r, s) /\ ~Less(s, r))
Agree == LET a == Answers(r, s) IN a.le = ~a.gt /\ a.ge = ~a.lt /\ a.ne = ~a.eq
OverlapLaws ==
    /\ Overlap(r, r)
    /\ Overlap(r, s) = Overlap(s, r)
    \* overlapping non-empty ranges are those that share a point
    /\ NonEmpty(r) /\ NonEmpty(s) => (Overlap(r, s) <=> \E p \in Points : r.b <= p /\ p < r.e /\ s.b <= p /\ p < s.e)
NoOverlapLaws ==
    NonEmpty(r) /\ NonEmpty(s) =>
        /\ LessNoOverlap(r, s) <=> r.e <= s.b
        /\ ~(LessNoOverlap(r, s) /\ LessNoOverlap(s, r))
        /\ (LessNoOverlap(r, s) \/ LessNoOverlap(s, r)) <=> ~Overlap(r, s)
        /\ NonEmpty(t) /\ LessNoOverlap(r, s) /\ LessNoOverlap(s, t) => LessNoOverlap(r, t)
=============================================================================
