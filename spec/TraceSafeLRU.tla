---------------------------- MODULE TraceSafeLRU -----------------------------
(* Validates recorded concurrent histories of the real thread-safe cache.    *)
EXTENDS SafeLRU, TraceBase
VARIABLES tid, l
Ev == TheTraces[tid].ev
E  == Ev[l + 1]
Is(x) == E.e = x
TraceInit == cache = [o \in {0} |-> Absent] /\ calls = << >> /\ tid \in 1..NTraces /\ l = 0
Obs ==
    /\ l < Len(Ev) /\ l' = l + 1 /\ tid' = tid
    /\ \/ Is("new")  /\ Create(E.k)
       \/ Is("call") /\ Invoke(E.th, E.op, E.k, E.v)
       \/ Is("ret")  /\ Return(E.th, <<E.r, E.rv>>)
       \/ Is("tick") /\ UNCHANGED <<cache, calls>>
       \/ Is("end")  /\ calls = << >> /\ UNCHANGED <<cache, calls>>
\* a call's moment matters only in relation to returns, so it may be put off until one is due
Hidden ==
    /\ l < Len(Ev) /\ Is("ret") /\ ~calls[E.th].done
    /\ \E th \in DOMAIN calls : Effect(th)
    /\ UNCHANGED <<tid, l>>
TraceNext == Obs \/ Hidden
TraceSpec == TraceInit /\ [][TraceNext]_<<cache, calls, tid, l>>
Note == Reached(tid, l, Len(Ev))
=============================================================================
