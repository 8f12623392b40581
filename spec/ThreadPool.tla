----------------------------- MODULE ThreadPool -----------------------------
(* API-level specification of pluto::thread_pool.                            *)
(*                                                                           *)
(* The state is what a user can know about a pool: how many workers it has   *)
(* and should have, the tasks waiting, scheduled and being run, the stop     *)
(* policy, and the calls in progress.  Calls are split into Call / internal  *)
(* effect / Ret, so every interleaving of overlapping calls is a behaviour.  *)
(* Reading calls (sizes, waits) accumulate in "seen" every value that was    *)
(* true at some moment of the call; a Ret must report one of them.           *)
(*                                                                           *)
(* Strict is the set of clauses that are enforced.  It is ALL for model      *)
(* checking; a check of one property enforces the basics plus its clauses.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Strict
AllClauses == {"EXACT", "PRIO", "RESIZE", "SHUT", "WAIT", "TIME", "OBS"}

VARIABLES
    alive,      \* the pool exists (constructed, destructor not returned)
    W,          \* worker threads the pool owns
    target,     \* worker threads it should own
    waiting,    \* sequence of [id, pr, late], by priority, equal priorities in order of arrival
    sched,      \* sequence of [id, pr, time], in order of submission
    active,     \* ids taken by a worker and not yet accounted as finished
    started,    \* ids whose execution has begun
    ended,      \* ids whose execution has ended
    used,       \* ids ever accepted
    stopping,   \* destruction has begun
    onStop,     \* "join" or "complete"
    now,        \* the clock
    gone,       \* how many idle workers may have left since destruction began
    pend        \* calls in progress: thread -> record

core == <<alive, W, target, waiting, sched, active, started, ended, used, stopping, onStop, now, gone>>
vars == <<core, pend>>

Range(f) == {f[x] : x \in DOMAIN f}
RemoveAt(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
NActive == Cardinality(active)
Enqueue(q, x) ==
    LET k == Cardinality({j \in 1..Len(q) : q[j].pr >= x.pr}) IN SubSeq(q, 1, k) \o <<x>> \o SubSeq(q, k + 1, Len(q))

Observers == {"workers", "target", "active", "idle", "tasks", "atasks", "wtasks", "sched", "onstop"}
Waits     == {"waitidle", "waitall"}
Mutators  == {"async", "sync", "at", "after", "resize", "setstop", "destroy"}

NoneWaiting == waiting = <<>>
AllDone     == waiting = <<>> /\ active = {}

(* the value a reading call would report in a state with these components *)
ValOf(op, w, tg, na, nw, ns, os, t) ==
    CASE op = "workers" -> w
      [] op = "target"  -> tg
      [] op = "active"  -> na
      [] op = "idle"    -> w - na
      [] op = "tasks"   -> nw + na
      [] op = "atasks"  -> na
      [] op = "wtasks"  -> nw
      [] op = "sched"   -> ns
      [] op = "onstop"  -> IF os = "join" THEN 0 ELSE 1
      [] op = "waitidle" -> IF nw = 0 THEN 1 ELSE 0
      [] op = "waitall"  -> IF nw = 0 /\ na = 0 THEN 1 ELSE 0
      [] op = "after"   -> t
      [] OTHER -> 0
Val(op)    == ValOf(op, W, target, NActive, Len(waiting), Len(sched), onStop, now)
NewVal(op) == ValOf(op, W', target', Cardinality(active'), Len(waiting'), Len(sched'), onStop', now')
Reading == Observers \cup Waits \cup {"after"}

(* once destruction has begun a worker without a task leaves, except to complete waiting tasks *)
Leave == gone' = IF stopping' /\ (onStop' = "join" \/ waiting' = <<>>) /\ W' - Cardinality(active') > gone
                 THEN W' - Cardinality(active') ELSE gone

(* every pending reading call has now also seen the new value *)
SeeNew(p) == [t \in DOMAIN p |-> IF p[t].op \in Reading /\ ~p[t].done
                                 THEN [p[t] EXCEPT !.seen = @ \cup {NewVal(p[t].op)}] ELSE p[t]]

InitPool ==
    /\ alive = FALSE /\ W = 0 /\ target = 0 /\ waiting = <<>> /\ sched = <<>> /\ active = {}
    /\ started = {} /\ ended = {} /\ used = {} /\ stopping = FALSE /\ onStop = "join" /\ now = 0
    /\ pend = << >> /\ gone = 0

-----------------------------------------------------------------------------
(* Calls and returns *)
New(n) ==
    /\ ~alive /\ pend = << >>
    /\ alive' = TRUE /\ W' = n /\ target' = n /\ waiting' = <<>> /\ sched' = <<>> /\ active' = {}
    /\ stopping' = FALSE /\ onStop' = "join" /\ gone' = 0
    /\ UNCHANGED <<started, ended, used, now, pend>>

\* id, pr: the task; a: number argument (due time, delay, size, policy)
Call(th, op, id, pr, a) ==
    /\ alive /\ th \notin DOMAIN pend
    /\ pend' = (th :> [op |-> op, id |-> id, pr |-> pr, a |-> a, done |-> FALSE,
                       seen |-> IF op \in Reading THEN {Val(op)} ELSE {}]) @@ pend
    /\ UNCHANGED core

Without(p, th) == [t \in (DOMAIN p \ {th}) |-> p[t]]

Ret(th, v) ==
    /\ th \in DOMAIN pend
    /\ LET c == pend[th] IN
       /\ c.op \in Mutators => c.done
       /\ (c.op = "sync" /\ "WAIT" \in Strict) => c.id \in ended
       /\ (c.op \in Waits /\ "WAIT" \in Strict) => 1 \in c.seen
       /\ (c.op \in Observers /\ "OBS" \in Strict) => v \in c.seen
       /\ (c.op \in {"workers", "target"} /\ "RESIZE" \in Strict) => v \in c.seen
       /\ IF c.op = "destroy"
          THEN /\ "SHUT" \in Strict =>
                    /\ active = {}
                    /\ (onStop = "complete" /\ W > 0) => \A i \in 1..Len(waiting) : waiting[i].late
               /\ alive' = FALSE
          ELSE alive' = alive
    /\ pend' = Without(pend, th)
    /\ UNCHANGED <<W, target, waiting, sched, active, started, ended, used, stopping, onStop, now, gone>>

(* Internal effects of mutating calls *)
Mark(th) == [pend EXCEPT ![th].done = TRUE]

EffAccept(th) ==        \* the task joins the queue
    /\ pend[th].op \in {"async", "sync"}
    /\ pend[th].id \notin used
    /\ waiting' = Enqueue(waiting, [id |-> pend[th].id, pr |-> pend[th].pr, late |-> FALSE])
    /\ used' = used \cup {pend[th].id}
    /\ UNCHANGED <<alive, W, target, sched, active, started, ended, stopping, onStop, now, gone>>
    /\ pend' = SeeNew(Mark(th))

EffSchedule(th) ==      \* the task joins the schedule
    /\ pend[th].op \in {"at", "after"}
    /\ pend[th].id \notin used
    /\ \E t \in (IF pend[th].op = "at" THEN {pend[th].a} ELSE {n + pend[th].a : n \in pend[th].seen}) :
          sched' = Append(sched, [id |-> pend[th].id, pr |-> pend[th].pr, time |-> t])
    /\ used' = used \cup {pend[th].id}
    /\ UNCHANGED <<alive, W, target, waiting, active, started, ended, stopping, onStop, now, gone>>
    /\ pend' = SeeNew(Mark(th))

EffResize(th) ==        \* growth is immediate, shrinking is not
    /\ pend[th].op = "resize"
    /\ IF stopping THEN UNCHANGED <<W, target>>
       ELSE /\ target' = pend[th].a
            /\ W' = IF W < pend[th].a THEN pend[th].a ELSE W
    /\ UNCHANGED <<alive, waiting, sched, active, started, ended, used, stopping, onStop, now, gone>>
    /\ pend' = SeeNew(Mark(th))

EffSetStop(th) ==
    /\ pend[th].op = "setstop"
    /\ onStop' = IF pend[th].a = 0 THEN "join" ELSE "complete"
    /\ UNCHANGED <<alive, W, target, waiting, sched, active, started, ended, used, stopping, now>>
    /\ pend' = SeeNew(Mark(th))
    /\ Leave

EffDestroy(th) ==
    /\ pend[th].op = "destroy"
    /\ stopping' = TRUE
    /\ UNCHANGED <<alive, W, target, waiting, sched, active, started, ended, used, onStop, now>>
    /\ pend' = SeeNew(Mark(th))
    /\ Leave

Effect(th) ==
    /\ th \in DOMAIN pend /\ ~pend[th].done
    /\ EffAccept(th) \/ EffSchedule(th) \/ EffResize(th) \/ EffSetStop(th) \/ EffDestroy(th)

-----------------------------------------------------------------------------
(* Workers and the schedule *)
\* the tasks a worker may take: the highest priority first, among equals the one that came first
Candidates == IF waiting = <<>> THEN {} ELSE IF "PRIO" \in Strict THEN {1} ELSE 1..Len(waiting)

MayTake ==  \* a worker may take a task now
    IF stopping THEN NActive < W
    ELSE NActive < W /\ NActive < target

Dequeue(i) ==
    /\ "RESIZE" \in Strict => MayTake
    /\ i \in Candidates
    /\ (~alive) => ("SHUT" \notin Strict)
    /\ waiting' = RemoveAt(waiting, i)
    /\ active' = active \cup {waiting[i].id}
    /\ UNCHANGED <<alive, W, target, sched, started, ended, used, stopping, onStop, now>>
    /\ pend' = SeeNew(pend)
    /\ Leave

Start(id) ==            \* observable: the task begins
    /\ id \in active /\ id \notin started
    /\ started' = started \cup {id}
    /\ UNCHANGED <<alive, W, target, waiting, sched, active, ended, used, stopping, onStop, now, pend, gone>>

End(id) ==              \* observable: the task is over
    /\ id \in started /\ id \notin ended
    /\ ended' = ended \cup {id}
    /\ UNCHANGED <<alive, W, target, waiting, sched, active, started, used, stopping, onStop, now, pend, gone>>

Finish(id) ==           \* the worker accounts for it
    /\ id \in active /\ id \in ended
    /\ active' = active \ {id}
    /\ UNCHANGED <<alive, W, target, waiting, sched, started, ended, used, stopping, onStop, now>>
    /\ pend' = SeeNew(pend)
    /\ Leave

WorkerExit ==           \* a surplus worker that is not running a task leaves
    /\ alive /\ ~stopping /\ W > target /\ W > NActive
    /\ W' = W - 1
    /\ UNCHANGED <<alive, target, waiting, sched, active, started, ended, used, stopping, onStop, now, gone>>
    /\ pend' = SeeNew(pend)

MayFire(i) ==
    /\ sched[i].time <= now
    /\ \A j \in 1..(i - 1) : sched[i].time < sched[j].time

Fire(i) ==              \* a scheduled task's time has come
    /\ i \in 1..Len(sched)
    /\ "TIME" \in Strict => MayFire(i)
    /\ sched' = RemoveAt(sched, i)
    /\ waiting' = Enqueue(waiting, [id |-> sched[i].id, pr |-> sched[i].pr, late |-> stopping])
    /\ UNCHANGED <<alive, W, target, active, started, ended, used, stopping, onStop, now, gone>>
    /\ pend' = SeeNew(pend)

Tick(t) ==
    /\ now <= t
    /\ now' = t
    /\ UNCHANGED <<alive, W, target, waiting, sched, active, started, ended, used, stopping, onStop, gone>>
    /\ pend' = SeeNew(pend)

Internal ==
    \/ \E th \in DOMAIN pend : Effect(th)
    \/ \E i \in Candidates : Dequeue(i)
    \/ \E id \in active : Finish(id)
    \/ WorkerExit
    \/ \E i \in 1..Len(sched) : Fire(i)

-----------------------------------------------------------------------------
(* Quiescence: no thread of the process can take a step.  This is where      *)
(* progress guarantees become checkable on a finite execution.               *)
WorkerFree == IF stopping THEN NActive < W - gone ELSE NActive < W /\ NActive < target

QuiesceOK ==
    /\ \A id \in active : id \in started /\ id \notin ended      \* tasks block only by themselves
    /\ \A th \in DOMAIN pend :
        LET c == pend[th] IN
        CASE c.op \in Observers -> "EXACT" \notin Strict
          [] c.op = "waitidle"  -> "WAIT" \in Strict => ~NoneWaiting
          [] c.op = "waitall"   -> "WAIT" \in Strict => ~AllDone
          [] c.op = "sync"      -> c.done /\ ("WAIT" \in Strict => c.id \notin ended)
          [] c.op = "destroy"   -> c.done /\ ("SHUT" \in Strict => active # {})
          [] OTHER              -> "EXACT" \notin Strict
    /\ (alive /\ waiting # <<>> /\ WorkerFree) =>
          IF stopping THEN onStop = "join" \/ "SHUT" \notin Strict
                      ELSE {"EXACT", "RESIZE"} \cap Strict = {}
    /\ (alive /\ ~stopping /\ W > target /\ W > NActive) => "RESIZE" \notin Strict
    /\ (alive /\ ~stopping) => ("TIME" \in Strict => \A i \in 1..Len(sched) : now < sched[i].time)

Quiesce == QuiesceOK /\ UNCHANGED vars

-----------------------------------------------------------------------------
(* What the properties say, as invariants of the specification itself *)
ExactlyOnce  == /\ ended \subseteq started /\ started \subseteq used
                /\ \A i, j \in 1..Len(waiting) : i # j => waiting[i].id # waiting[j].id
                /\ \A i \in 1..Len(waiting) : waiting[i].id \notin active \cup started
NotTooMany   == alive => NActive <= W
SizesSane    == alive => /\ W >= 0 /\ W - NActive >= 0
                         /\ (~stopping => W >= target)
NoneAfterEnd == ~alive => (active = {} \/ "SHUT" \notin Strict)
Invariants   == ExactlyOnce /\ NotTooMany /\ SizesSane /\ NoneAfterEnd
=============================================================================
