------------------------------- MODULE TraceRow ------------------------------
EXTENDS LogRow, TraceBase
VARIABLES tid, l
Ev == TheTraces[tid].ev
E  == Ev[l + 1]
Is(x) == E.e = x

StampOf(x) == Stamp(DayAt(x.d, x.s, x.off), SecAt(x.s, x.off), x.us)
RowOK == E.row = Row(StampOf(E), E.tid, E.level, E.file, E.line, E.func, E.msg, E.hide)
HeaderOK == E.text = Header(E.hide)
NamesOK == /\ E.str = PlainOf(E.level) /\ E.title = TitleOf(E.level) /\ E.abbr = AbbrOf(E.level) /\ E.ch = CharOf(E.level)
BaseOK == E.name = Base(E.path) /\ E.at = BaseAt(E.path)
TimesOK == /\ E.loc = Broken(DayAt(E.d, E.s, E.off), SecAt(E.s, E.off)) /\ E.gm = Broken(E.d, E.s)
IdsOK ==
    /\ E.pid = E.real
    /\ \A i \in DOMAIN E.ids : E.ids[i][1] = E.ids[i][2] /\ E.ids[i][1] = E.ids[i][3] /\ E.ids[i][4] = E.pid
    /\ \A i, j \in DOMAIN E.ids : i # j => E.ids[i][1] # E.ids[j][1]
\* before a fork, in the child, in the child's child, in the parent afterwards
ForkedOK ==
    /\ Len(E.told) = 4 /\ \A i \in 1..4 : E.told[i][1] = E.told[i][2] /\ E.told[i][3] = E.told[i][4]
    /\ E.told[1] = E.told[4] /\ \A i, j \in 1..3 : i # j => E.told[i][1] # E.told[j][1] /\ E.told[i][3] # E.told[j][3]
\* the whole file: header, then every entry's row in order
WrittenOK == E.lines = <<Labels(E.hide), Ruler(E.hide)>> \o [i \in DOMAIN E.ex |-> LET x == E.ex[i] IN Row(StampOf(x), E.tid, x.level, x.file, x.line, x.func, x.msg, E.hide)]
\* entries logged while source information is hidden
PlainOK == E.got = [i \in DOMAIN E.ex |-> [level |-> E.ex[i].level, file |-> "", line |-> "0", func |-> "", msg |-> E.ex[i].msg]]

TraceInit == tid \in 1..NTraces /\ l = 0
TraceNext ==
    /\ l < Len(Ev) /\ l' = l + 1 /\ tid' = tid
    /\ \/ Is("row") /\ RowOK
       \/ Is("header") /\ HeaderOK
       \/ Is("names") /\ NamesOK
       \/ Is("base") /\ BaseOK
       \/ Is("tm") /\ TimesOK
       \/ Is("plain") /\ PlainOK
       \/ Is("ids") /\ IdsOK
       \/ Is("forked") /\ ForkedOK
       \/ Is("written") /\ WrittenOK
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l>>
Note == Reached(tid, l, Len(Ev))
=============================================================================
