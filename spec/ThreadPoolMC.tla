---------------------------- MODULE ThreadPoolMC ----------------------------
(* ThreadPool.tla on its own: a few client threads call it in every possible *)
(* way, and what the properties say must follow.                             *)
EXTENDS ThreadPool
CONSTANTS Threads, MaxCalls, Ops, Sizes, Prs, MaxTime
VARIABLES calls, lastId, born     \* calls made, ids given out, the order in which tasks were accepted
mc == <<vars, calls, lastId, born>>

MCInit == InitPool /\ calls = 0 /\ lastId = 0 /\ born = <<>>

Submit == {"async", "sync", "at", "after"}
MCNew == calls = 0 /\ \E n \in Sizes : New(n) /\ calls' = 1 /\ UNCHANGED <<lastId, born>>
Ending == \E th \in DOMAIN pend : pend[th].op = "destroy"
MCCall ==
    /\ calls < MaxCalls /\ alive /\ ~Ending /\ calls' = calls + 1 /\ UNCHANGED born
    /\ \E th \in Threads, op \in Ops :
        \/ /\ op \in Submit /\ lastId' = lastId + 1
           /\ \E pr \in Prs, a \in (IF op \in {"at", "after"} THEN 0..MaxTime ELSE {0}) : Call(th, op, lastId + 1, pr, a)
        \/ /\ op \notin Submit /\ lastId' = lastId
           /\ \E a \in (CASE op = "resize" -> Sizes [] op = "setstop" -> {0, 1} [] OTHER -> {0}) : Call(th, op, 0, 0, a)
MCRet == \E th \in DOMAIN pend : \E v \in (IF pend[th].op \in Observers THEN pend[th].seen ELSE {0}) : Ret(th, v) /\ UNCHANGED <<calls, lastId, born>>
MCTick == alive /\ now < MaxTime /\ Tick(now + 1) /\ UNCHANGED <<calls, lastId, born>>
Ids(s) == {s[i].id : i \in DOMAIN s}
Queued(p, w) == Len(w) > Len(p)
MCInternal == Internal /\ UNCHANGED <<calls, lastId>> /\ born' = IF Queued(waiting, waiting') THEN Append(born, CHOOSE id \in Ids(waiting') : id \notin Ids(waiting)) ELSE born
MCRun == \E id \in active : (Start(id) \/ End(id)) /\ UNCHANGED <<calls, lastId, born>>
Step == MCInternal \/ MCRun \/ MCRet
MCNext == MCNew \/ MCCall \/ MCTick \/ Step
MCSpec == MCInit /\ [][MCNext]_mc /\ WF_mc(Step) /\ WF_mc(MCTick)

-----------------------------------------------------------------------------
Pos(id) == CHOOSE i \in DOMAIN born : born[i] = id
Known == Ids(waiting) \cup Ids(sched) \cup active \cup ended \cup {id \in used : ~alive \/ stopping}
(* No accepted task is lost, none is taken twice (C01). *)
Conserved == /\ used \subseteq Known
             /\ Ids(waiting) \cap (active \cup ended \cup Ids(sched)) = {} /\ Ids(sched) \cap (active \cup ended) = {}
(* A state in which nothing can happen any more is one that QuiesceOK accepts: *)
(* the progress the properties demand is what the transitions provide.         *)
Stuck == ~ENABLED MCInternal /\ ~ENABLED MCRun /\ ~ENABLED MCRet
Progress == (alive /\ Stuck) => QuiesceOK
(* A task taken was the best one waiting, and the oldest of those (C02). *)
TakesBest == [][\A id \in active' \ active : \A i \in DOMAIN waiting :
                  LET me == CHOOSE j \in DOMAIN waiting : waiting[j].id = id IN
                  /\ waiting[i].pr <= waiting[me].pr
                  /\ (waiting[i].pr = waiting[me].pr => Pos(id) <= Pos(waiting[i].id))]_mc
(* Growth is immediate; workers leave one by one and only when there are too many; *)
(* once they are too many nothing new is taken (C03).                              *)
Workers == [][/\ W' < W => W' = W - 1 /\ W > target /\ W > NActive
              /\ (alive /\ ~stopping /\ active' \ active # {}) => NActive < target]_mc
(* Nothing begins before its time (C06). *)
OnTime == [][\A i \in DOMAIN sched : (Ids(sched)' # Ids(sched) /\ sched[i].id \in Ids(waiting)' ) => sched[i].time <= now]_mc
(* When the destructor returns nothing is running, and with "complete" nothing that was queued before remains (C04). *)
Ended == [][(alive /\ ~alive') => /\ active = {}
                                  /\ (onStop = "complete" /\ W > 0) => \A i \in DOMAIN waiting : waiting[i].late]_mc
(* What a reading call returns was true at some moment during it (C05, C07). *)
Honest == \A th \in DOMAIN pend : (pend[th].op \in Reading /\ ~pend[th].done) => Val(pend[th].op) \in pend[th].seen
(* Liveness: with a worker, no destruction and tasks that end, every accepted task is run; the destructor returns. *)
Runs == \A id \in 1..(MaxCalls - 1) : (id \in used) ~> (id \in ended \/ stopping \/ target = 0 \/ id \in Ids(sched))
Returns == Ending ~> ~alive
=============================================================================
