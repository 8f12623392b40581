----------------------------- MODULE TraceScope ------------------------------
EXTENDS Scope, TraceBase
VARIABLES tid, l
Ev == TheTraces[tid].ev
E  == Ev[l + 1]
Is(x) == E.e = x
TraceInit == frames = <<>> /\ tasks = << >> /\ tid \in 1..NTraces /\ l = 0
TraceNext ==
    /\ l < Len(Ev) /\ l' = l + 1 /\ tid' = tid
    /\ \/ Is("enter")  /\ Enter(E.k, E.g)
       \/ Is("add")    /\ Add(E.g, E.t)
       \/ Is("throw")  /\ Throw
       \/ Is("caught") /\ Caught
       \/ Is("leave")  /\ Leave(E.g)
       \/ Is("run")    /\ Run(E.t)
       \/ Is("done")   /\ Done(E.t)
       \/ Is("left")   /\ Left(E.k, E.g)
       \/ Is("end")    /\ frames = <<>> /\ UNCHANGED <<frames, tasks>>
TraceSpec == TraceInit /\ [][TraceNext]_<<frames, tasks, tid, l>>
Note == Reached(tid, l, Len(Ev))
=============================================================================
