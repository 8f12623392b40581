--------------------------- MODULE TraceStopwatch ----------------------------
(* Validates recorded stopwatch histories.  Each call happens at some clock  *)
(* reading it made, from E.from to E.to.                                     *)
EXTENDS Stopwatch, TraceBase
VARIABLES tid, l
Ev == TheTraces[tid].ev
E  == Ev[l + 1]
Is(x) == E.e = x
Moments == {E.from, E.to}
TraceInit == acc = Zero /\ since = Zero /\ running = FALSE /\ tid \in 1..NTraces /\ l = 0
Same == UNCHANGED <<acc, since, running>>
TraceNext ==
    /\ l < Len(Ev) /\ l' = l + 1 /\ tid' = tid
    /\ ~Is("fault")
    /\ \E t \in Moments :
       \/ Is("new0")     /\ New(t, FALSE)
       \/ Is("new1")     /\ New(t, TRUE)
       \/ Is("start")    /\ Start(t)
       \/ Is("stop")     /\ Stop(t)
       \/ Is("stoptime") /\ Stop(t) /\ E.v = acc'
       \/ Is("reset")    /\ Reset
       \/ Is("restart")  /\ Restart(t)
       \/ Is("running")  /\ E.v = <<IF running THEN 1 ELSE 0, 0>> /\ Same
       \/ Is("read")     /\ E.v = In(E.u, Total(t)) /\ Same
       \/ Is("parts")    /\ InRange(E.mi, E.s, E.ms, E.us, E.ns) /\ Recombined(E.h, E.mi, E.s, E.ms, E.us, E.ns) = Total(t) /\ Same
TraceSpec == TraceInit /\ [][TraceNext]_<<acc, since, running, tid, l>>
Note == Reached(tid, l, Len(Ev))
=============================================================================
