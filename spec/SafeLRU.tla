------------------------------- MODULE SafeLRU -------------------------------
(* A cache shared by threads: every call takes effect atomically at some     *)
(* moment between its invocation and its return (linearizability), with the  *)
(* effect and result that LRU gives it.                                      *)
EXTENDS LRU

VARIABLE calls          \* thread -> the call it is in

Create(capacity) == Do("new", 0, capacity, 0) /\ calls' = calls
Invoke(th, op, k, v) ==
    /\ th \notin DOMAIN calls
    /\ calls' = (th :> [op |-> op, k |-> k, v |-> v, done |-> FALSE, res |-> <<0, 0>>]) @@ calls
    /\ cache' = cache
Effect(th) ==
    /\ th \in DOMAIN calls /\ ~calls[th].done
    /\ LET c == calls[th] IN
       /\ Do(c.op, 0, c.k, c.v)
       /\ calls' = [calls EXCEPT ![th].done = TRUE, ![th].res = Result(c.op, 0, c.k, c.v)]
Return(th, res) ==
    /\ th \in DOMAIN calls /\ calls[th].done /\ calls[th].res = res
    /\ calls' = [t \in DOMAIN calls \ {th} |-> calls[t]]
    /\ cache' = cache
=============================================================================
