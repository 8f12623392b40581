------------------------------ MODULE TraceLRU -------------------------------
(* Validates recorded single-threaded histories of real caches against LRU.  *)
EXTENDS LRU, TraceBase
VARIABLES tid, l
Ev == TheTraces[tid].ev
E  == Ev[l + 1]
TraceInit == cache = [o \in 0..7 |-> Absent] /\ tid \in 1..NTraces /\ l = 0
TraceNext ==
    /\ l < Len(Ev) /\ l' = l + 1 /\ tid' = tid
    /\ E.e = "op"
    /\ Do(E.op, E.o, E.k, E.v)
    /\ Alive(E.o) => Result(E.op, E.o, E.k, E.v) = <<E.r, E.rv>>
TraceSpec == TraceInit /\ [][TraceNext]_<<cache, tid, l>>
Note == Reached(tid, l, Len(Ev))
=============================================================================
