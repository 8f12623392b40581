------------------------------ MODULE LRUGraph -------------------------------
(* All transitions of LRU for small constants, printed for replay.           *)
EXTENDS LRU, Json
CONSTANTS Objs, NKeys, NVals, MaxCap

Op(op, o, k, v) ==
    /\ Do(op, o, k, v)
    /\ PrintT(<<"EDGE", ToJson([from |-> cache, op |-> op, o |-> o, k |-> k, v |-> v, to |-> cache'])>>)

Init == cache = [o \in Objs |-> Absent]
Next ==
    \E o \in Objs :
        \/ \E c \in 0..MaxCap : Op("new", o, c, 0) \/ Op("resize", o, c, 0)
        \/ \E k \in 1..NKeys : \/ \E op \in {"get", "remove", "contains"} : Op(op, o, k, 0)
                               \/ \E v \in 1..NVals, op \in {"insert", "assign"} : Op(op, o, k, v)
        \/ \E op \in {"size", "empty", "cap", "clear", "destroy"} : Op(op, o, 0, 0)
        \/ \E p \in Objs, op \in {"copynew", "copy", "movenew", "move"} : Op(op, o, p, 0)
Spec == Init /\ [][Next]_cache
=============================================================================
