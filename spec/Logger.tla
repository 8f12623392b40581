------------------------------ MODULE Logger --------------------------------
(* API-level specification of pluto::logger with its files on disk.          *)
(*                                                                           *)
(* A log call either is filtered by level, is accepted (its entry becomes    *)
(* pending for its file) or is discarded because the file's buffer is full.  *)
(* The background writer drains pending entries to the file, oldest first,   *)
(* rotating and writing headers as configured.                               *)
(*                                                                           *)
(* A file on disk is a function from index (0 = current, n = "_n") to a      *)
(* sequence of items: "H" a header, "R<id>" a record, "P<k>" earlier content.*)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Strict     \* enforced clauses
AllClauses == {"FLUSH", "BOUND", "LEVEL", "LAYOUT", "HOLD", "CONF"}

Files == 0..4

VARIABLES
    alive,
    lvl, maxb, flush,           \* level, buffer limit (0 none), flush threshold
    rs, li, wh,                 \* rotation size (0 none), rotation limit, headers
    cd, lw,                     \* whether directories are created, which log writer
    seenRs, seenLi, seenWh, seenCd, seenLw, seenFl,     \* values of those (and of flush) since the writer was last asleep
    due,                        \* file -> how many of its pending entries reached the threshold
    wr,                         \* record -> the log writers it may have been written by
    pending,                    \* file -> sequence of records accepted, not yet written
    disk,                       \* file -> (index -> sequence of items)
    info,                       \* record id -> what was logged
    plen,                       \* item -> its length in bytes
    nd,                         \* discarded since the last reset
    pend,                       \* calls in progress
    lossy                       \* files whose last write attempt (during destruction) failed

conf == <<lvl, maxb, flush, rs, li, wh, cd, lw>>
seen == <<seenRs, seenLi, seenWh, seenCd, seenLw, seenFl>>
vars == <<alive, conf, seen, pending, disk, info, plen, nd, pend, lossy, due, wr>>

HeaderLen == 5

ItemName(id) == "R" \o ToString(id)
ItemLen(i) == IF i = "H" THEN HeaderLen ELSE plen[i]

RECURSIVE SizeOf(_)
SizeOf(s) == IF s = <<>> THEN 0 ELSE ItemLen(Head(s)) + SizeOf(Tail(s))

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Restrict(f, S) == [x \in S |-> f[x]]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

InitLogger ==
    /\ alive = FALSE
    /\ lvl = 0 /\ maxb = 0 /\ flush = 1 /\ rs = 0 /\ li = 0 /\ wh = 1
    /\ cd = 1 /\ lw = 0
    /\ seenRs = {0} /\ seenLi = {0} /\ seenWh = {1} /\ seenCd = {1} /\ seenLw = {0} /\ seenFl = {1}
    /\ due = [f \in Files |-> 0] /\ wr = << >>
    /\ pending = [f \in Files |-> <<>>]
    /\ disk = [f \in Files |-> << >>]
    /\ info = << >> /\ plen = << >> /\ nd = 0 /\ pend = << >> /\ lossy = {}

Pre(f, i, len, k) ==        \* a file that was there before
    /\ plen' = IF len = 0 THEN plen ELSE (k :> len) @@ plen
    /\ disk' = [disk EXCEPT ![f] = (i :> (IF len = 0 THEN <<>> ELSE <<k>>)) @@ @]
    /\ UNCHANGED <<alive, conf, seen, pending, info, nd, pend, lossy, due, wr>>

New(l, mx, fl, r, i, h, c) ==
    /\ ~alive /\ pend = << >>
    /\ alive' = TRUE
    /\ lvl' = l /\ maxb' = mx /\ flush' = fl /\ rs' = r /\ li' = i /\ wh' = h /\ cd' = c /\ lw' = 0
    /\ seenRs' = {r} /\ seenLi' = {i} /\ seenWh' = {h} /\ seenCd' = {c} /\ seenLw' = {0} /\ seenFl' = {fl}
    /\ due' = [f \in Files |-> 0]
    /\ pending' = [f \in Files |-> <<>>]
    /\ nd' = 0 /\ lossy' = {}
    /\ UNCHANGED <<disk, info, plen, pend, wr>>

-----------------------------------------------------------------------------
Enabled(l, el) == l <= el       \* a logger at level l records entries of level el

CallLog(th, id, f, el, m, src, len, macro, t) ==
    /\ alive /\ th \notin DOMAIN pend /\ id \notin DOMAIN info
    /\ info' = (id :> [f |-> f, lvl |-> el, m |-> m, src |-> src, len |-> len, th |-> th, t0 |-> t, t1 |-> -1]) @@ info
    /\ plen' = (ItemName(id) :> len) @@ plen
    /\ pend' = (th :> [op |-> "log", a |-> id, done |-> FALSE, out |-> "none", macro |-> macro, seen |-> {lvl}, mx |-> {maxb}]) @@ pend
    /\ UNCHANGED <<alive, conf, seen, pending, disk, nd, lossy, due, wr>>

Settings(l, mx, fl, r, i, h, c) == <<l, mx, fl, r, i, h, c, 1>>     \* as they are asked for; the last is whether the logger is logging
Call(th, op, a) ==
    /\ alive /\ th \notin DOMAIN pend
    /\ pend' = (th :> [op |-> op, a |-> a, done |-> FALSE, out |-> "none", macro |-> 0,
                       seen |-> IF op = "discards" THEN {nd} ELSE IF op = "get" THEN {Settings(lvl, maxb, flush, rs, li, wh, cd)[a + 1]} ELSE {lvl}, mx |-> {}]) @@ pend
    /\ UNCHANGED <<alive, conf, seen, pending, disk, info, plen, nd, lossy, due, wr>>

See(p, newNd, s) == [t \in DOMAIN p |->
    IF p[t].op = "log" /\ p[t].done THEN p[t]
    ELSE [p[t] EXCEPT !.seen = @ \cup (IF p[t].op = "discards" THEN {newNd} ELSE IF p[t].op = "get" THEN {s[p[t].a + 1]} ELSE {s[1]}),
                      !.mx = IF p[t].op = "log" THEN @ \cup {s[2]} ELSE @]]
SeeNd(p, newNd) == [t \in DOMAIN p |-> IF p[t].op = "discards" THEN [p[t] EXCEPT !.seen = @ \cup {newNd}] ELSE p[t]]
Done(th, o) == [pend EXCEPT ![th].done = TRUE, ![th].out = o]

\* with this many entries pending the threshold is reached (or was, with a value set meanwhile)
Due(p, fls, d) == [f \in Files |-> IF \E x \in fls : Max2(1, x) <= Len(p[f]) THEN Len(p[f]) ELSE Min2(d[f], Len(p[f]))]

AddLog(th) ==
    LET id == pend[th].a  f == info[id].f  
        room == \E m \in pend[th].mx : m = 0 \/ Len(pending[f]) < m
        full == \E m \in pend[th].mx : m # 0 /\ m <= Len(pending[f])
    IN
    /\ pend[th].op = "log" /\ ~pend[th].done
    /\ \/ /\ \E l \in pend[th].seen : Enabled(l, info[id].lvl)
          /\ room \/ "BOUND" \notin Strict
          /\ pending' = [pending EXCEPT ![f] = Append(@, ItemName(id))]
          /\ due' = Due(pending', seenFl, due)
          /\ pend' = Done(th, "acc")
          /\ nd' = nd
       \/ /\ \E l \in pend[th].seen : Enabled(l, info[id].lvl)
          /\ full \/ ("BOUND" \notin Strict /\ pend[th].mx # {0})
          /\ nd' = nd + 1
          /\ pending' = pending /\ due' = due
          /\ pend' = SeeNd(Done(th, "disc"), nd + 1)
       \/ /\ \E l \in pend[th].seen : ~Enabled(l, info[id].lvl)
          /\ UNCHANGED <<pending, nd, due>>
          /\ pend' = Done(th, "filt")
    /\ UNCHANGED <<alive, conf, seen, disk, info, plen, lossy, wr>>

Setters == {"level", "max", "flush", "rsize", "limit", "whdr", "dirs", "writer"}
Eff(th) ==
    LET c == pend[th] IN
    /\ c.op \in Setters \cup {"reset"} /\ ~c.done
    /\ lvl' = IF c.op = "level" THEN c.a ELSE lvl
    /\ maxb' = IF c.op = "max" THEN c.a ELSE maxb
    /\ flush' = IF c.op = "flush" THEN c.a ELSE flush
    /\ rs' = IF c.op = "rsize" THEN c.a ELSE rs
    /\ li' = IF c.op = "limit" THEN c.a ELSE li
    /\ wh' = IF c.op = "whdr" THEN c.a ELSE wh
    /\ cd' = IF c.op = "dirs" THEN c.a ELSE cd
    /\ lw' = IF c.op = "writer" THEN c.a ELSE lw
    /\ nd' = IF c.op = "reset" THEN 0 ELSE nd
    /\ seenRs' = seenRs \cup {rs'} /\ seenLi' = seenLi \cup {li'} /\ seenWh' = seenWh \cup {wh'}
    /\ seenCd' = seenCd \cup {cd'} /\ seenLw' = seenLw \cup {lw'} /\ seenFl' = seenFl \cup {flush'}
    /\ due' = Due(pending, seenFl', due)
    /\ pend' = See(Done(th, "set"), nd', Settings(lvl', maxb', flush', rs', li', wh', cd'))
    /\ UNCHANGED <<alive, pending, disk, info, plen, lossy, wr>>

\* v: value, evals: how often a macro's arguments were evaluated, t: time of return
Ret(th, v, evals, t) ==
    /\ th \in DOMAIN pend
    /\ LET c == pend[th] IN
       /\ c.op \in Setters \cup {"log", "reset"} => c.done
       /\ (c.op = "get" /\ "CONF" \in Strict) => v \in c.seen
       /\ (c.op \in Setters \cup {"reset"} /\ "CONF" \in Strict) => evals = 0      \* a setter returns its logger
       /\ c.op = "discards" => v \in c.seen
       /\ (c.op = "level" /\ "LEVEL" \in Strict) => v \in c.seen
       /\ (c.op = "should" /\ "LEVEL" \in Strict) => \E l \in c.seen : v = (IF Enabled(l, c.a) THEN 1 ELSE 0)
       /\ (c.op = "log" /\ "LEVEL" \in Strict) =>
            IF c.macro = 0 THEN evals = 0
            ELSE /\ evals \in {0, 1}
                 /\ evals = 0 => c.out = "filt"
                 /\ evals = 1 => \E l \in c.seen : Enabled(l, info[c.a].lvl)
       /\ c.op = "destroy" => \A f \in Files : pending[f] = <<>> \/ f \in lossy
       /\ alive' = (alive /\ c.op # "destroy")
       /\ pending' = IF c.op = "destroy" THEN [f \in Files |-> <<>>] ELSE pending
       /\ due' = IF c.op = "destroy" THEN [f \in Files |-> 0] ELSE due
       /\ info' = IF c.op = "log" THEN [info EXCEPT ![c.a].t1 = t] ELSE info
    /\ pend' = Restrict(pend, DOMAIN pend \ {th})
    /\ UNCHANGED <<conf, seen, disk, plen, nd, lossy, wr>>

-----------------------------------------------------------------------------
(* Files *)
Contig(d) == CHOOSE n \in 0..Cardinality(DOMAIN d) : n \notin DOMAIN d /\ \A j \in 0..(n - 1) : j \in DOMAIN d

RotateTo(d, lim) ==         \* the set of admissible results
    LET n == Contig(d)
        k == Min2(n, lim)
        above == {i \in DOMAIN d : n < i}
        new == [i \in 1..k |-> d[i - 1]]
    IN { [i \in 1..k \cup above |-> IF i \in 1..k THEN new[i] ELSE d[i]] }
       \cup (IF above = {} THEN {}
             ELSE { [i \in 1..k \cup {j + 1 : j \in above} |-> IF i \in 1..k THEN new[i] ELSE d[i - 1]] })

WriteTo(d, r, limit, h, item) ==
    LET cur == IF 0 \in DOMAIN d THEN d[0] ELSE <<>>
        bases == IF r # 0 /\ r <= SizeOf(cur) THEN RotateTo(d, limit) ELSE {d}
    IN { LET c == IF 0 \in DOMAIN b THEN b[0] ELSE <<>>
             withHdr == IF h = 1 /\ SizeOf(c) = 0 THEN Append(c, "H") ELSE c
         IN (0 :> Append(withHdr, item)) @@ b : b \in bases }

Ending == \E th \in DOMAIN pend : pend[th].op = "destroy"
Drain(f) ==
    /\ pending[f] # <<>>
    /\ "HOLD" \in Strict => due[f] > 0 \/ Ending
    /\ due' = [due EXCEPT ![f] = Max2(0, @ - 1)]
    /\ wr' = (Head(pending[f]) :> seenLw) @@ wr
    /\ \E r \in seenRs, limit \in seenLi, h \in seenWh :
          \E d \in WriteTo(disk[f], r, limit, h, Head(pending[f])) :
             disk' = [disk EXCEPT ![f] = d]
    /\ pending' = [pending EXCEPT ![f] = Tail(@)]
    /\ UNCHANGED <<alive, conf, seen, info, plen, nd, pend, lossy>>

MakeDir == ("CONF" \in Strict => 1 \in seenCd) /\ UNCHANGED vars

(* A rotation interrupted by a failure: some of what it drops is gone and    *)
(* some of what it keeps has moved up; what is kept stays in order.          *)
RECURSIVE UpSets(_)
UpSets(S) ==                \* the M \subseteq S such that i \in M and i + 1 \in S imply i + 1 \in M
    IF S = {} THEN {{}}
    ELSE LET i == CHOOSE x \in S : \A y \in S : x <= y
             U == UpSets(S \ {i})
         IN U \cup {M \cup {i} : M \in {X \in U : i + 1 \in S => i + 1 \in X}}
PartRotated(d, r, limit) ==
    IF r = 0 \/ 0 \notin DOMAIN d \/ SizeOf(d[0]) < r THEN {d}
    ELSE UNION { LET K == DOMAIN d \ gone
                 IN { [j \in (K \ M) \cup {i + 1 : i \in M} |-> IF j \in K \ M THEN d[j] ELSE d[j - 1]] : M \in UpSets(K) }
                 : gone \in SUBSET {i \in DOMAIN d : limit <= i} }

FsFail(th, f) ==            \* a file operation failed
    /\ IF f \in Files THEN \E r \in seenRs, limit \in seenLi : \E d \in PartRotated(disk[f], r, limit) : disk' = [disk EXCEPT ![f] = d]
       ELSE disk' = disk
    /\ lossy' = IF th \in DOMAIN pend /\ pend[th].op = "destroy"
                THEN lossy \cup (IF f \in Files THEN {f} ELSE Files) ELSE lossy
    /\ UNCHANGED <<alive, conf, seen, pending, info, plen, nd, pend, due, wr>>
NoFile(th, f) == ("CONF" \in Strict => 0 \in seenCd) /\ FsFail(th, f)     \* there was no such directory

Internal ==
    \/ \E th \in DOMAIN pend : AddLog(th) \/ Eff(th)
    \/ \E f \in Files : Drain(f)

Quiesce ==
    /\ "FLUSH" \in Strict =>
         /\ alive => \A f \in Files : Len(pending[f]) < Max2(1, flush)
         /\ \A th \in DOMAIN pend : FALSE
    /\ seenRs' = {rs} /\ seenLi' = {li} /\ seenWh' = {wh} /\ seenCd' = {cd} /\ seenLw' = {lw} /\ seenFl' = {flush}
    /\ UNCHANGED <<alive, conf, pending, disk, info, plen, nd, pend, lossy, due, wr>>

-----------------------------------------------------------------------------
(* What is found on disk *)
RECURSIVE FlatDown(_, _)
FlatDown(d, S) == IF S = {} THEN <<>> ELSE LET i == MaxOf(S) IN d[i] \o FlatDown(d, S \ {i})
NotHeader(x) == x # "H"
Flat(d) == SelectSeq(FlatDown(d, DOMAIN d), NotHeader)
DropOldest(d) == IF DOMAIN d = {} THEN d ELSE Restrict(d, DOMAIN d \ {MaxOf(DOMAIN d)})

RecOK(r) ==
    /\ r.id \in DOMAIN info
    /\ LET x == info[r.id] IN
       /\ ("CONF" \in Strict /\ ItemName(r.id) \in DOMAIN wr) => r.w \in wr[ItemName(r.id)]
       /\ r.m = x.m /\ r.src = x.src /\ r.lvl = x.lvl /\ r.th = x.th
       /\ x.t0 <= r.t /\ (x.t1 # -1 => r.t <= x.t1)

\* files: sequence of [i, items]; recs: sequence of records
Snapshot(f, files, recs, junk) ==
    LET snap == [i \in {files[k].i : k \in 1..Len(files)} |-> (CHOOSE x \in {files[k] : k \in 1..Len(files)} : x.i = i).items]
    IN
    /\ junk = 0
    /\ \/ Flat(snap) = Flat(disk[f])
       \/ f \in lossy /\ Flat(snap) = Flat(DropOldest(disk[f]))
    /\ ("LAYOUT" \in Strict /\ f \notin lossy) => snap = disk[f]
    /\ \A k \in 1..Len(recs) : RecOK(recs[k])
    /\ UNCHANGED vars

-----------------------------------------------------------------------------
(* What the properties say, as invariants of the specification itself *)
SeqSet(s) == {s[i] : i \in 1..Len(s)}
OnDisk(f) == UNION {SeqSet(disk[f][i]) : i \in DOMAIN disk[f]}
NoDup(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
OnceOnly == \A f \in Files :
    /\ NoDup(Flat(disk[f])) /\ NoDup(pending[f])
    /\ \A i \in 1..Len(pending[f]) : pending[f][i] \notin OnDisk(f)
Bounded == "BOUND" \in Strict => (nd > 0 => TRUE)
HeadersOnTop == \A f \in Files : \A i \in DOMAIN disk[f] :
    \A k \in 1..Len(disk[f][i]) : disk[f][i][k] = "H" => k = 1
=============================================================================
