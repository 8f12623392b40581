----------------------------- MODULE LRUMeaning ------------------------------
(* LRU against the definition it stands for: every key carries the moment it *)
(* was last inserted, assigned or successfully read, and whenever an entry   *)
(* is dropped to make room it is the one with the oldest moment.             *)
EXTENDS LRU
CONSTANTS NKeys, NVals, MaxCap, Horizon
VARIABLES now, used

K == 1..NKeys
Init == cache = [o \in {1} |-> [cap |-> MaxCap, ord |-> <<>>]] /\ now = 0 /\ used = [k \in K |-> 0]
Uses(op, k) == (op = "insert" /\ k \notin Keys(cache[1])) \/ op = "assign" \/ (op = "get" /\ k \in Keys(cache[1]))
Step(op, k, v) ==
    /\ Do(op, 1, k, v) /\ now < Horizon /\ now' = now + 1
    /\ used' = IF op \in Keyed /\ Uses(op, k) THEN [used EXCEPT ![k] = now + 1] ELSE used
Next ==
    \/ \E k \in K : (\E op \in {"get", "remove", "contains"} : Step(op, k, 0)) \/ (\E v \in 1..NVals, op \in {"insert", "assign"} : Step(op, k, v))
    \/ \E c \in 0..MaxCap : Step("resize", c, 0)
    \/ Step("clear", 0, 0)
Spec == Init /\ [][Next]_<<cache, now, used>>

OrderIsRecency == LET s == cache[1].ord IN \A i, j \in 1..Len(s) : i < j => used[s[i].k] > used[s[j].k]
Evicts ==   \* entries dropped by insertion or resizing are older than all entries kept
    [][LET a == Keys(cache[1]) b == Keys(cache'[1]) IN
       (Len(cache'[1].ord) = cache'[1].cap) => \A x \in a \ b : \A y \in b : used'[y] > used[x]]_<<cache, now, used>>
=============================================================================
