---------------------------- MODULE TraceLogger -----------------------------
(* Validates recorded executions of the real logger against Logger.          *)
EXTENDS Logger, TraceBase

VARIABLES tid, l

Ev == TheTraces[tid].ev
E  == Ev[l + 1]
Is(x) == E.e = x

Obs ==
    /\ l < Len(Ev)
    /\ l' = l + 1 /\ tid' = tid
    /\ \/ Is("pre")  /\ Pre(E.f, E.i, E.len, E.k)
       \/ Is("new")  /\ ("CONF" \in Strict => E.vals = E.exp) /\ New(E.vals[1], E.vals[2], E.vals[3], E.vals[4], E.vals[5], E.vals[6], E.vals[7])
       \/ Is("call") /\ E.op = "log" /\ CallLog(E.th, E.a, E.f, E.lvl, E.m, E.src, E.len, E.macro, E.t)
       \/ Is("call") /\ E.op # "log" /\ Call(E.th, E.op, E.a)
       \/ Is("ret")  /\ Ret(E.th, E.v, E.ev, E.t)
       \/ Is("fs")   /\ Snapshot(E.f, E.files, E.recs, E.junk)
       \/ Is("fsfail") /\ FsFail(E.th, E.f)
       \/ Is("nofile") /\ NoFile(E.th, E.f)
       \/ Is("mkdir") /\ MakeDir
       \/ Is("tick") /\ UNCHANGED vars
       \/ Is("quiesce") /\ Quiesce
       \/ Is("stuck")   /\ Quiesce
       \/ Is("end")  /\ UNCHANGED vars

(* What the files hold in the end says which entries were accepted: hint[id] *)
(* is 1 if the record is found in a file, 0 if it is not and would have to be *)
(* found had it been accepted, 2 if that cannot be told; pred[id] is the      *)
(* record right before it, accepted before it.                                *)
Hint(id) == TheTraces[tid].hint[id]
Added(id) == id \in DOMAIN info /\ \A th \in DOMAIN pend : pend[th].op = "log" /\ pend[th].a = id => pend[th].done
After(id) == LET p == TheTraces[tid].pred[id] IN p = 0 \/ Added(p)
Hinted(th) == AddLog(th) /\ After(pend[th].a) /\ (Hint(pend[th].a) = 1 => pend'[th].out = "acc") /\ (Hint(pend[th].a) = 0 => pend'[th].out # "acc")

(* A write can be put off until something depends on it (the settings it may  *)
(* be done with only grow until the writer is next asleep): an entry that     *)
(* needs room, a look at the files, the writer at rest, the end, a failure.   *)
Full(th) == \A m \in pend[th].mx : m # 0 /\ m <= Len(pending[info[pend[th].a].f])
Settled == seenRs = {rs} /\ seenLi = {li} /\ seenWh = {wh} /\ seenLw = {lw}
Shown(f) == \/ seenRs # {0} \/ \E k \in 1..Len(E.files) : \E i \in 1..Len(E.files[k].items) : E.files[k].items[i] = Head(pending[f])
DrainNow(f) ==
    \/ \E th \in DOMAIN pend : pend[th].op = "log" /\ ~pend[th].done /\ info[pend[th].a].f = f /\ Hint(pend[th].a) # 0 /\ Full(th)
    \/ (Is("fsfail") \/ Is("nofile")) /\ E.f = f /\ seenRs # {0}
    \/ Is("fs") /\ E.f = f /\ Shown(f)
    \/ (Is("quiesce") \/ Is("stuck")) /\ (~Settled \/ (alive /\ Max2(1, flush) <= Len(pending[f])))
    \/ Is("ret") /\ E.th \in DOMAIN pend /\ pend[E.th].op = "destroy" /\ \A g \in Files : g < f => pending[g] = <<>> \/ g \in lossy

Hidden ==
    /\ l < Len(Ev)
    /\ \/ \E th \in DOMAIN pend : Hinted(th) \/ Eff(th)
       \/ \E f \in Files : pending[f] # <<>> /\ DrainNow(f) /\ Drain(f)
    /\ UNCHANGED <<tid, l>>

TraceInit == InitLogger /\ tid \in 1..NTraces /\ l = 0
TraceNext == Obs \/ Hidden
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>

Note == Reached(tid, l, Len(Ev))
=============================================================================
