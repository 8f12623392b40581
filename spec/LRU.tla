-------------------------------- MODULE LRU ---------------------------------
(* Least-recently-used caches: several cache objects with copy and move.     *)
(* A cache is its capacity and its entries, most recently used first.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE cache          \* object -> [cap, ord] or Absent or Moved

Absent == [cap |-> -1, ord |-> <<>>]      \* no such object
Moved  == [cap |-> -2, ord |-> <<>>]       \* moved from: may only be assigned to or destroyed
Alive(o) == cache[o] \notin {Absent, Moved}

Keys(c) == {c.ord[i].k : i \in 1..Len(c.ord)}
Pos(c, k) == CHOOSE i \in 1..Len(c.ord) : c.ord[i].k = k
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
ToFront(c, e) == [c EXCEPT !.ord = <<e>> \o IF e.k \in Keys(c) THEN Without(c.ord, Pos(c, e.k)) ELSE c.ord]
Trim(c) == [c EXCEPT !.ord = SubSeq(@, 1, IF Len(@) < c.cap THEN Len(@) ELSE c.cap)]

AddNew(c, k, v) == Trim(ToFront(c, [k |-> k, v |-> v]))

(* What an operation returns: <<result, value read>> *)
Result(op, o, k, v) ==
    LET c == cache[o]
        has == k \in Keys(c)
    IN CASE op = "insert"   -> <<IF has THEN 0 ELSE 1, 0>>
         [] op = "assign"   -> <<IF has THEN 0 ELSE 1, 0>>
         [] op = "get"      -> IF has THEN <<1, c.ord[Pos(c, k)].v>> ELSE <<0, -1>>
         [] op = "remove"   -> <<IF has THEN 1 ELSE 0, 0>>
         [] op = "contains" -> <<IF has THEN 1 ELSE 0, 0>>
         [] op = "size"     -> <<Len(c.ord), 0>>
         [] op = "empty"    -> <<IF c.ord = <<>> THEN 1 ELSE 0, 0>>
         [] op = "cap"      -> <<c.cap, 0>>
         [] OTHER           -> <<0, 0>>

(* ... and the caches it leaves *)
After(op, o, k, v) ==
    LET c == cache[o]
        has == k \in Keys(c)
    IN CASE op = "new"      -> [cache EXCEPT ![o] = [cap |-> k, ord |-> <<>>]]
         [] op = "insert"   -> IF has THEN cache ELSE [cache EXCEPT ![o] = AddNew(c, k, v)]
         [] op = "assign"   -> [cache EXCEPT ![o] = AddNew(c, k, v)]
         [] op = "get"      -> IF has THEN [cache EXCEPT ![o] = ToFront(c, c.ord[Pos(c, k)])] ELSE cache
         [] op = "remove"   -> IF has THEN [cache EXCEPT ![o].ord = Without(@, Pos(c, k))] ELSE cache
         [] op = "clear"    -> [cache EXCEPT ![o].ord = <<>>]
         [] op = "resize"   -> [cache EXCEPT ![o] = Trim([c EXCEPT !.cap = k])]
         [] op \in {"copynew", "copy"} -> [cache EXCEPT ![o] = cache[k]]
         [] op \in {"movenew", "move"} -> [cache EXCEPT ![o] = cache[k], ![k] = Moved]
         [] op = "destroy"  -> [cache EXCEPT ![o] = Absent]
         [] OTHER           -> cache

Keyed == {"insert", "assign", "get", "remove", "contains"}
Plain == {"size", "empty", "cap", "clear", "resize"}
Possible(op, o, k) ==
    CASE op = "new"      -> cache[o] = Absent
      [] op = "destroy"  -> cache[o] # Absent
      [] op \in {"copynew", "movenew"} -> cache[o] = Absent /\ k # o /\ Alive(k)
      [] op = "copy"     -> cache[o] # Absent /\ Alive(k)
      [] op = "move"     -> cache[o] # Absent /\ Alive(k) /\ k # o
      [] OTHER           -> Alive(o)

Do(op, o, k, v) == Possible(op, o, k) /\ cache' = After(op, o, k, v)

TypeOK == \A o \in DOMAIN cache : Alive(o) =>
    /\ Len(cache[o].ord) <= cache[o].cap                            \* within capacity
    /\ \A i, j \in 1..Len(cache[o].ord) : i # j => cache[o].ord[i].k # cache[o].ord[j].k
=============================================================================
