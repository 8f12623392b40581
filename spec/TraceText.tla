------------------------------ MODULE TraceText ------------------------------
EXTENDS Strings, TraceBase
VARIABLES tid, l
Ev == TheTraces[tid].ev
E  == Ev[l + 1]
Is(x) == E.e = x
Bit(x) == IF x THEN 1 ELSE 0
All(s, x) == \A i \in DOMAIN s : s[i] = x

(* What the locale says: for character E.k[i], upper case E.up[i], lower case E.lo[i]; the white, upper and lower characters. *)
Pos(x) == CHOOSE i \in DOMAIN E.k : E.k[i] = x
Up(a) == Map(a, LAMBDA x : E.up[Pos(x)])
Lo(a) == Map(a, LAMBDA x : E.lo[Pos(x)])
White == Range(E.sp)

SplitOK == /\ All(E.r, Split(E.a, E.b)) /\ All(E.j, E.a) /\ All(E.y, Runs(E.a, Range(E.b)))
JoinOK == /\ All(E.r, Join(E.l, E.s)) /\ All(E.m, Join(Map(E.l, Around), E.s)) /\ All(E.i, Join(Indexed(E.l), E.s))
ReplaceOK == /\ All(E.r, Replace(E.a, E.f, E.x)) /\ All(E.y, ReplaceAny(E.a, Range(E.f), E.x))
WhiteOK == All(E.r, Runs(E.a, White))
StripOK == /\ All(E.l, LStrip(E.a, White)) /\ All(E.r, RStrip(E.a, White)) /\ All(E.b, Strip(E.a, White))
CaseOK ==
    /\ All(E.low, Lo(E.a)) /\ All(E.upp, Up(E.a))
    /\ All(E.isl, Bit(Range(E.a) \cap Range(E.isup) = {})) /\ All(E.isu, Bit(Range(E.a) \cap Range(E.islo) = {}))
InsensOK ==
    LET a == Up(E.a)  b == Up(E.b) IN
    /\ All(E.eq, Bit(Equals(0, a, b))) /\ All(E.sw, Bit(StartsWith(0, a, b))) /\ All(E.ew, Bit(EndsWith(0, a, b)))
    /\ All(E.fs, Find(0, a, b)) /\ All(E.rs, RFind(0, a, b)) /\ All(E.cs, Bit(Contains(0, a, b)))
CmpOK ==
    LET R(Op(_, _)) == [i \in DOMAIN E.uy |-> Bit(Op(E.ux, E.uy[i]))] IN
    /\ All(E.eq, R(LAMBDA x, y : x = y)) /\ All(E.ne, R(LAMBDA x, y : x # y))
    /\ All(E.lt, R(LAMBDA x, y : x < y)) /\ All(E.gt, R(LAMBDA x, y : x > y))
    /\ All(E.le, R(LAMBDA x, y : x <= y)) /\ All(E.ge, R(LAMBDA x, y : x >= y))

NumOK == /\ All(E.bin, Bin(E.bits)) /\ All(E.oct, Oct(E.bits)) /\ All(E.hex, Hex(E.bits))
BackOK == All(E.back, E.v)          \* to text and back
\* Text that does not start with a value of an integer type: blanks, then no digit, not even after a sign.
NoInteger(a) ==
    LET t == LStrip(a, Range(E.sp))  d(i) == i <= Len(t) /\ t[i] \in 48..57 IN
    ~(d(1) \/ (d(2) /\ t[1] \in {43, 45}))
NoFloat(a) ==   \* nor a sign or point or anything else a floating-point number may start with
    LET t == LStrip(a, Range(E.sp)) IN ~(t # <<>> /\ t[1] \in (48..57) \cup {43, 45, 46, 105, 73, 110, 78})
NoWord(a) == LStrip(a, Range(E.sp)) = <<>>
ParseOK ==
    \/ E.t = "int" /\ ~NoInteger(E.a)
    \/ E.t = "float" /\ ~NoFloat(E.a)
    \/ E.t = "word" /\ ~NoWord(E.a)
    \/ \A i \in DOMAIN E.v : \A j \in DOMAIN E.v[i] : E.v[i][j] = 0

TraceInit == tid \in 1..NTraces /\ l = 0
TraceNext ==
    /\ l < Len(Ev) /\ l' = l + 1 /\ tid' = tid
    /\ \/ Is("split") /\ SplitOK
       \/ Is("join") /\ JoinOK
       \/ Is("replace") /\ ReplaceOK
       \/ Is("white") /\ WhiteOK
       \/ Is("strip") /\ StripOK
       \/ Is("case") /\ CaseOK
       \/ Is("insens") /\ InsensOK
       \/ Is("cmp") /\ CmpOK
       \/ Is("num") /\ NumOK
       \/ Is("back") /\ BackOK
       \/ Is("parse") /\ ParseOK
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l>>
Note == Reached(tid, l, Len(Ev))
=============================================================================
