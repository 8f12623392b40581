---------------------------- MODULE TraceUnicode -----------------------------
EXTENDS Unicode, TraceBase
VARIABLES tid, l
Ev == TheTraces[tid].ev
E  == Ev[l + 1]
Is(x) == E.e = x
All(s, x) == \A i \in DOMAIN s : s[i] = x

\* E.u: units of width E.w; E.to8 ...: the different results of every form; E.p8 ...: those appended to what was there, E.q8 ...
ConvOK ==
    LET d == Decode(E.w, E.u)
        R(v) == IF v = E.w THEN E.u ELSE Encode(v, d)
        r8 == R(8)  r16 == R(16)  r32 == R(32)
    IN /\ All(E.to8, r8) /\ All(E.to16, r16) /\ All(E.to32, r32)
       /\ All(E.p8, E.q8 \o r8) /\ All(E.p16, E.q16 \o r16) /\ All(E.p32, E.q32 \o r32)
\* E.c: the scalar values that were encoded (by somebody else) as E.u; back: the results converted to width E.w again
ValidOK ==
    LET r8 == Encode(8, E.c)  r16 == Encode(16, E.c)  r32 == Encode(32, E.c)  R == IF E.w = 8 THEN r8 ELSE IF E.w = 16 THEN r16 ELSE r32 IN
       /\ \A i \in DOMAIN E.c : Scalar(E.c[i])
       /\ E.u = R /\ All(E.to8, r8) /\ All(E.to16, r16) /\ All(E.to32, r32) /\ All(E.back, R)
       /\ All(E.p8, E.q8 \o r8) /\ All(E.p16, E.q16 \o r16) /\ All(E.p32, E.q32 \o r32)

TraceInit == tid \in 1..NTraces /\ l = 0
TraceNext ==
    /\ l < Len(Ev) /\ l' = l + 1 /\ tid' = tid
    /\ \/ Is("conv") /\ ConvOK
       \/ Is("valid") /\ ValidOK
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l>>
Note == Reached(tid, l, Len(Ev))
=============================================================================
