------------------------------ MODULE TraceSeqs ------------------------------
EXTENDS Seqs, TraceBase
VARIABLES cur, tid, l         \* cur: the container of a transform trace, as pairs key * 100 + id
Ev == TheTraces[tid].ev
E  == Ev[l + 1]
Is(x) == E.e = x
Bit(x) == IF x THEN 1 ELSE 0
All(s, x) == \A i \in DOMAIN s : s[i] = x

(* Every form of every matching function gave the same, right answer. *)
MatchOK ==
    /\ All(E.eq, Bit(Equals(E.p, E.a, E.b))) /\ All(E.sw, Bit(StartsWith(E.p, E.a, E.b))) /\ All(E.ew, Bit(EndsWith(E.p, E.a, E.b)))
    /\ Len(E.a) = Len(E.b) => All(E.es, Bit(Equals(E.p, E.a, E.b)))
    /\ All(E.fs, Find(E.p, E.a, E.b)) /\ All(E.rs, RFind(E.p, E.a, E.b)) /\ All(E.cs, Bit(Contains(E.p, E.a, E.b)))
ElemOK ==       \* one element x, and the predicate "x % m = q"
    LET W(x) == x % E.m = E.q  X(x) == x = E.x
        w == Where(E.a, X)  yes == Where(E.a, W)  no == (0..(Len(E.a) - 1)) \ yes
    IN
    /\ All(E.fe, FirstOf(E.a, w)) /\ All(E.re, LastOf(E.a, w)) /\ All(E.ce, Bit(w # {}))
    /\ All(E.fi, FirstOf(E.a, yes)) /\ All(E.ri, LastOf(E.a, yes)) /\ All(E.fn, FirstOf(E.a, no)) /\ All(E.rn, LastOf(E.a, no))

Key(x) == x \div 100
KeyLt(x, y) == Key(x) < Key(y)
KeyMod(x, y) == Key(x) % 3 < Key(y) % 3
Q(x) == Key(x) % E.m = E.q
F(x) == (Key(x) + 1) * 3
IsSet(s, a) == Range(s) = Range(a) /\ Len(s) = Cardinality(Range(s))
Keys(a) == Map(a, Key)
Sorted(a, b) == IF E.k = 0 THEN IsSorted(b, KeyLt) ELSE IF E.k = 1 THEN IsSorted(Rev(b), KeyLt) ELSE IsSorted(b, KeyMod)

StepOK ==
    \/ Is("set")     /\ cur' = E.c
    \/ Is("slice")   /\ cur' = cur /\ All(E.r, Slice(cur, E.from, E.to)) /\ E.c = cur
    \/ Is("slice1")  /\ cur' = cur /\ All(E.r, Slice(cur, 0, E.to)) /\ E.c = cur
    \/ Is("filter")  /\ cur' = Keep(cur, Q) /\ All(E.r, cur')
    \/ Is("sort")    /\ Sorted(cur, E.c) /\ IsPermutation(cur, E.c) /\ cur' = E.c /\ \A i \in DOMAIN E.r : Sorted(cur, E.r[i]) /\ IsPermutation(cur, E.r[i])
    \/ Is("reverse") /\ cur' = Rev(cur) /\ All(E.r, cur')
    \/ Is("map")     /\ cur' = cur /\ All(E.r, E.d \o Map(cur, F)) /\ \A i \in DOMAIN E.s : IsSet(E.s[i], E.d \o Map(cur, F)) /\ E.c = cur
    \/ Is("each")    /\ cur' = cur /\ All(E.r, cur) /\ E.c = cur
    \/ Is("bump")    /\ cur' = Map(cur, LAMBDA x : x + 100) /\ All(E.r, cur')       \* for_each changing the elements
    \/ Is("agg")     /\ cur' = cur
                     /\ All(E.any, Bit(Where(cur, Q) # {})) /\ All(E.all, Bit(Where(cur, Q) = 0..(Len(cur) - 1)))
                     /\ All(E.anyt, Bit(\E i \in DOMAIN cur : Key(cur[i]) # 0)) /\ All(E.allt, Bit(\A i \in DOMAIN cur : Key(cur[i]) # 0))
                     /\ All(E.cnt, Count(cur, Q)) /\ All(E.cnte, Count(cur, LAMBDA x : Key(x) = E.x))
                     /\ All(E.len, Len(cur))
                     /\ All(E.sum, E.init + SumSeq(Keys(cur))) /\ All(E.sum0, SumSeq(Keys(cur)))
                     /\ \/ cur = <<>>
                        \/ All(E.min, MinAt(cur, KeyLt)) /\ All(E.max, MaxAt(cur, KeyLt)) /\ All(E.minp, MinAt(cur, KeyMod)) /\ All(E.maxp, MaxAt(cur, KeyMod))
    \/ Is("two")     /\ cur' = cur      \* two values, given as <<E.x, E.y>>: which of them is returned (0 or 1)
                     /\ LET s == <<E.x, E.y>> IN
                        /\ All(E.min, MinAt(s, KeyLt)) /\ All(E.max, MaxAt(s, KeyLt)) /\ All(E.minp, MinAt(s, KeyMod)) /\ All(E.maxp, MaxAt(s, KeyMod))
                        /\ All(E.copy, E.x)
    \/ Is("abs")     /\ cur' = cur /\ All(E.r, IF E.x < 0 THEN -E.x ELSE E.x)
    \/ Is("round")   /\ cur' = cur /\ All(E.r, IF E.x < 0 THEN -((-E.x + 5) \div 10) ELSE (E.x + 5) \div 10)     \* of E.x tenths, halves away from 0
    \/ Is("pow")     /\ cur' = cur /\ All(E.r, E.x ^ E.y)

TraceInit == cur = <<>> /\ tid \in 1..NTraces /\ l = 0
TraceNext ==
    /\ l < Len(Ev) /\ l' = l + 1 /\ tid' = tid
    /\ \/ Is("match") /\ MatchOK /\ cur' = cur
       \/ Is("elem")  /\ ElemOK /\ cur' = cur
       \/ StepOK
TraceSpec == TraceInit /\ [][TraceNext]_<<cur, tid, l>>
Note == Reached(tid, l, Len(Ev))
=============================================================================
