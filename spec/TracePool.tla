----------------------------- MODULE TracePool ------------------------------
(* Validates recorded executions of the real pool against ThreadPool.        *)
EXTENDS ThreadPool, TraceBase

VARIABLES tid, l

Ev == TheTraces[tid].ev
E  == Ev[l + 1]
Is(x) == E.e = x

Obs ==
    /\ l < Len(Ev)
    /\ l' = l + 1 /\ tid' = tid
    /\ \/ Is("new")     /\ New(E.n)
       \/ Is("call")    /\ Call(E.th, E.op, E.id, E.pr, E.a)
       \/ Is("ret")     /\ Ret(E.th, E.v)
       \/ Is("start")   /\ Start(E.id)
       \/ Is("end_task") /\ End(E.id)
       \/ Is("tick")    /\ Tick(E.now)
       \/ Is("quiesce") /\ Quiesce
       \/ Is("stuck")   /\ Quiesce
       \/ Is("end")     /\ UNCHANGED vars

Hidden == l < Len(Ev) /\ Internal /\ UNCHANGED <<tid, l>>

TraceInit == InitPool /\ tid \in 1..NTraces /\ l = 0
TraceNext == Obs \/ Hidden
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>

Note == Reached(tid, l, Len(Ev))
=============================================================================
