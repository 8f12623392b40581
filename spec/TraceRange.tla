------------------------------ MODULE TraceRange -----------------------------
(* A trace is a program over ranges: objects are made, assigned, given other *)
(* ends and compared; objs is what each of them must hold.                   *)
EXTENDS Range, FiniteSets, TraceBase
VARIABLES objs, tid, l
Ev == TheTraces[tid].ev
E  == Ev[l + 1]
Is(x) == E.e = x
Bit(x) == IF x THEN 1 ELSE 0

CmpOK ==
    LET r == objs[E.i]  s == objs[E.j]  a == Answers(r, s) IN
    /\ E.eq = Bit(a.eq) /\ E.eq2 = E.eq /\ E.ne = Bit(a.ne)
    /\ E.lt = Bit(a.lt) /\ E.lt2 = E.lt /\ E.gt = Bit(a.gt) /\ E.le = Bit(a.le) /\ E.ge = Bit(a.ge)
    /\ Valid(r) /\ Valid(s) => E.ov = Bit(Overlap(r, s))
    /\ NonEmpty(r) /\ NonEmpty(s) => E.no = Bit(LessNoOverlap(r, s))

TraceInit == objs = << >> /\ tid \in 1..NTraces /\ l = 0
TraceNext ==
    /\ l < Len(Ev) /\ l' = l + 1 /\ tid' = tid
    /\ \/ Is("new")  /\ objs' = (E.i :> Rng(E.b, E.x)) @@ objs
       \/ Is("copy") /\ objs' = (E.i :> objs[E.j]) @@ objs
       \/ Is("begin") /\ objs' = [objs EXCEPT ![E.i].b = E.b]
       \/ Is("end")  /\ objs' = [objs EXCEPT ![E.i].e = E.x]
       \/ Is("read") /\ objs[E.i] = Rng(E.b, E.x) /\ objs' = objs
       \/ Is("size") /\ E.r = objs[E.i].e - objs[E.i].b /\ objs' = objs       \* points are the values themselves here
       \/ Is("cmp")  /\ CmpOK /\ objs' = objs
       \/ Is("sort") /\ LET p == [i \in DOMAIN E.p |-> objs[E.p[i]]] IN        \* sorted with operator<
                          /\ \A i \in 1..(Len(p) - 1) : ~Less(p[i + 1], p[i])
                          /\ {E.p[i] : i \in DOMAIN E.p} = DOMAIN objs /\ Len(E.p) = Cardinality(DOMAIN objs)
                        /\ objs' = objs
TraceSpec == TraceInit /\ [][TraceNext]_<<objs, tid, l>>
Note == Reached(tid, l, Len(Ev))
=============================================================================
