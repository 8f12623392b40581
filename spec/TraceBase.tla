----------------------------- MODULE TraceBase ------------------------------
(* Shared by all trace specifications: loading recorded traces and keeping,  *)
(* per trace, the longest prefix the specification can explain.              *)
(* Run with -workers 1: TLCSet registers are per worker.                     *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils

TheTraces == ndJsonDeserialize(IOEnv.TRACES)
NTraces == Len(TheTraces)

\* CONSTRAINT: remembers progress; stops exploring a trace that is already explained
Reached(tid, l, n) ==
    /\ IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
    /\ TLCGet(tid) < n \/ l = n

ASSUME \A i \in 1..NTraces : TLCSet(i, -1)

\* POSTCONDITION
Report ==
    \A i \in 1..NTraces :
        TLCGet(i) = Len(TheTraces[i].ev) \/ PrintT(<<"REJECTED", i, TLCGet(i), Len(TheTraces[i].ev)>>)
=============================================================================
