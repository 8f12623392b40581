------------------------------ MODULE Stopwatch ------------------------------
(* A stopwatch.  Times are pairs <<seconds, nanoseconds>>.                   *)
EXTENDS Integers, Sequences

VARIABLES acc, since, running      \* time gathered; when it was last started; is it running

G == 1000000000
Norm(s, n) == IF n < 0 THEN <<s - 1, n + G>> ELSE IF n >= G THEN <<s + 1, n - G>> ELSE <<s, n>>
Plus(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Minus(a, b) == Norm(a[1] - b[1], a[2] - b[2])
Zero == <<0, 0>>

Total(t) == IF running THEN Plus(acc, Minus(t, since)) ELSE acc     \* the reported time at moment t

New(t, on)  == acc' = Zero /\ running' = on /\ since' = IF on THEN t ELSE Zero
Start(t)    == IF running THEN UNCHANGED <<acc, since, running>> ELSE running' = TRUE /\ since' = t /\ acc' = acc
Stop(t)     == running' = FALSE /\ acc' = Total(t) /\ since' = Zero
Reset       == running' = FALSE /\ acc' = Zero /\ since' = Zero
Restart(t)  == running' = TRUE /\ acc' = Zero /\ since' = t

(* A total in a unit, as the pair the harness reports *)
In(unit, d) ==
    LET s == d[1]  n == d[2] IN
    CASE unit \in {"time", "ns"} -> d
      [] unit = "us"  -> <<s, n \div 1000>>
      [] unit = "ms"  -> <<s, n \div 1000000>>
      [] unit = "s"   -> <<s, 0>>
      [] unit = "s7"  -> <<s % 7, 0>>
      [] unit = "m"   -> <<s \div 60, 0>>
      [] unit \in {"h", "hp"} -> <<s \div 3600, 0>>
      [] unit = "nsp" -> <<0, n % 1000>>
      [] unit = "usp" -> <<0, (n \div 1000) % 1000>>
      [] unit = "msp" -> <<0, n \div 1000000>>
      [] unit = "sp"  -> <<s % 60, 0>>
      [] unit = "mp"  -> <<(s \div 60) % 60, 0>>

(* The parts put together again *)
Recombined(h, mi, s, ms, us, ns) == <<h * 3600 + mi * 60 + s, ms * 1000000 + us * 1000 + ns>>
InRange(mi, s, ms, us, ns) == mi \in 0..59 /\ s \in 0..59 /\ ms \in 0..999 /\ us \in 0..999 /\ ns \in 0..999
=============================================================================
