------------------------------ MODULE LoggerMC ------------------------------
(* Logger.tla on its own: a few threads log and configure in every possible  *)
(* way while the writer drains, and what the properties say must follow.     *)
EXTENDS Logger
CONSTANTS Threads, MaxCalls, Ops, Fs, Lens, Levels, Confs, Fails
    \* Confs: set of <<level, max, flush, rotation size, limit, headers>>; Fails: how many file operations may fail
Confs08 == {<<0,0,1,0,0,1>>, <<0,0,2,0,0,0>>}
Confs09 == {<<0,0,2,0,0,1>>}
Confs10 == {<<3,0,9,0,0,1>>, <<0,1,9,0,0,1>>, <<0,2,1,0,0,1>>}
Confs11 == {<<3,0,9,0,0,1>>}
Confs12 == {<<0,0,1,10,0,1>>, <<0,0,1,10,1,1>>, <<0,0,1,10,2,0>>, <<0,0,1,1,2,1>>}
Confs13 == {<<0,0,1,10,0,1>>, <<0,0,1,10,1,1>>}
Confs31 == {<<3,0,2,0,0,1>>}
VARIABLES calls, lastId, acc, disc, failed, conf0     \* acc: file -> what was accepted, in order; disc: discarded since the last reset
mc == <<vars, calls, lastId, acc, disc, failed, conf0>>

MCInit == InitLogger /\ calls = 0 /\ lastId = 0 /\ acc = [f \in Files |-> <<>>] /\ disc = 0 /\ failed = 0 /\ conf0 = <<>>
MCNew == calls = 0 /\ \E c \in Confs : New(c[1], c[2], c[3], c[4], c[5], c[6], 1) /\ conf0' = c /\ calls' = 1 /\ UNCHANGED <<lastId, acc, disc, failed>>
MCCall ==
    /\ calls < MaxCalls /\ alive /\ ~Ending /\ calls' = calls + 1 /\ UNCHANGED <<acc, disc, failed, conf0>>
    /\ \E th \in Threads, op \in Ops :
        /\ op = "destroy" => pend = << >>     \* a logger is only destroyed when no one uses it any more
        /\ \/ /\ op = "log" /\ lastId' = lastId + 1
              /\ \E f \in Fs, len \in Lens, el \in Levels : CallLog(th, lastId + 1, f, el, "m", "s", len, 0, 0)
           \/ /\ op # "log" /\ lastId' = lastId
              /\ \E a \in (CASE op = "level" -> Levels [] op = "max" -> 0..2 [] op = "flush" -> 1..3 [] op = "rsize" -> {0, 10} [] op = "limit" -> 0..2 [] op \in {"whdr", "writer"} -> {0, 1} [] op = "get" -> {1, 2, 5} [] OTHER -> {0}) :
                    Call(th, op, a)
MCRet == \E th \in DOMAIN pend : \E v \in (IF pend[th].op \in {"discards", "level", "get"} THEN pend[th].seen ELSE {0, 1}) : Ret(th, v, 0, 0) /\ UNCHANGED <<calls, lastId, acc, disc, failed, conf0>>
MCEff == \E th \in DOMAIN pend :
    \/ AddLog(th) /\ UNCHANGED <<calls, lastId, failed, conf0>>
       /\ acc' = (IF pend'[th].out = "acc" THEN [acc EXCEPT ![info[pend[th].a].f] = Append(@, ItemName(pend[th].a))] ELSE acc)
       /\ disc' = IF pend'[th].out = "disc" THEN disc + 1 ELSE disc
    \/ Eff(th) /\ UNCHANGED <<calls, lastId, acc, failed, conf0>> /\ disc' = IF pend[th].op = "reset" THEN 0 ELSE disc
MCDrain == \E f \in Fs : Drain(f) /\ UNCHANGED <<calls, lastId, acc, disc, failed, conf0>>
MCFail == failed < Fails /\ failed' = failed + 1 /\ (\E f \in Fs : pending[f] # <<>> /\ FsFail("w", f)) /\ UNCHANGED <<calls, lastId, acc, disc, conf0>>
Step == MCRet \/ MCEff \/ MCDrain
MCNext == MCNew \/ MCCall \/ Step \/ MCFail
MCSpec == MCInit /\ [][MCNext]_mc /\ WF_mc(Step)

-----------------------------------------------------------------------------
IsSuffix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, Len(t) - Len(s) + 1, Len(t)) = s
RECURSIVE IsSub(_, _)
IsSub(s, t) == IF s = <<>> THEN TRUE ELSE IF t = <<>> THEN FALSE ELSE IF Head(s) = Head(t) THEN IsSub(Tail(s), Tail(t)) ELSE IsSub(s, Tail(t))
All(f) == Flat(disk[f]) \o pending[f]
(* Accepted entries are on disk or pending, once, in order; only rotation takes the oldest away (C08, C12, C13). *)
Kept == alive => \A f \in Fs : IF failed = 0 THEN IsSuffix(All(f), acc[f]) ELSE IsSub(All(f), acc[f]) /\ IsSuffix(pending[f], acc[f])
NoRotationNoLoss == (alive /\ conf0 # <<>> /\ conf0[4] = 0 /\ "rsize" \notin Ops) => \A f \in Fs : All(f) = acc[f]
Everything == (~alive /\ conf0 # <<>> /\ conf0[4] = 0 /\ "rsize" \notin Ops) => \A f \in Fs : Flat(disk[f]) = acc[f]
(* C10 *)
WithinBound == (alive /\ conf0[2] # 0 /\ "max" \notin Ops) => \A f \in Fs : Len(pending[f]) <= conf0[2]
Counted == alive => nd = disc
NoLimitNoLoss == (alive /\ conf0[2] = 0 /\ "max" \notin Ops) => nd = 0
(* C12: a file only grew while it was below the rotation size, and there are never more than the limit allows *)

LastOff(s) == SubSeq(s, 1, Len(s) - 1)
Steady == conf0 # <<>> /\ Ops \cap {"rsize", "limit", "whdr"} = {} /\ conf0[4] # 0
Sizes == Steady => \A f \in Fs : \A i \in DOMAIN disk[f] : disk[f][i] # <<>> => SizeOf(LastOff(disk[f][i])) < conf0[4] \/ LastOff(disk[f][i]) = <<"H">>
Limit == (Steady /\ failed = 0) => \A f \in Fs : \A i \in DOMAIN disk[f] : i <= conf0[5]
OneHeader == (conf0 # <<>> /\ "whdr" \notin Ops) => \A f \in Fs : \A i \in DOMAIN disk[f] : disk[f][i] = <<>> \/ ((disk[f][i][1] = "H") <=> (conf0[6] = 1))
(* C09: what was pending when the threshold was reached gets written, and destruction returns *)
Written == \A id \in 1..(MaxCalls - 1) : \A f \in Fs : (ItemName(id) \in SeqSet(SubSeq(pending[f], 1, IF Ending THEN Len(pending[f]) ELSE due[f]))) ~> (ItemName(id) \notin SeqSet(pending[f]))
(* C09: nothing is written before the threshold was reached (when it is not changed) *)
Held == [][\A f \in Fs : (alive /\ ~Ending /\ conf0 # <<>> /\ "flush" \notin Ops /\ Len(pending'[f]) < Len(pending[f])) => due[f] > 0]_mc
Batches == (alive /\ conf0 # <<>> /\ "flush" \notin Ops) => \A f \in Fs : (due[f] = 0 => Len(pending[f]) < Max2(1, conf0[3])) /\ due[f] <= Len(pending[f])
(* C31: a record is written by a writer that was set, and what is read is what was set, by no more than the calls in progress *)
Writers == \A i \in DOMAIN wr : wr[i] # {} /\ wr[i] \subseteq {0, 1} /\ ("writer" \notin Ops => wr[i] = {0})
Current == \A th \in DOMAIN pend : pend[th].op = "get" => Settings(lvl, maxb, flush, rs, li, wh, cd)[pend[th].a + 1] \in pend[th].seen
Returns == Ending ~> ~alive
=============================================================================
