------------------------------- MODULE RowLaws -------------------------------
(* The calendar of LogRow.tla is the Gregorian one (each day follows the one *)
(* before), and rows line up with the header.                                *)
EXTENDS LogRow
CONSTANTS Before, To, Names, Numbers
VARIABLES d, a, b, lv
Init == \/ d \in (0 - Before)..To /\ a = "" /\ b = "" /\ lv = 0
        \/ d \in {-1, 0, 20000} /\ a \in Names /\ b \in Numbers /\ lv \in (-2..10) \ {0}
Next == UNCHANGED <<d, a, b, lv>>
Spec == Init /\ [][Next]_<<d, a, b, lv>>

After(t) == IF t[3] < MonthLen(t[1], t[2]) THEN <<t[1], t[2], t[3] + 1, t[4] + 1>> ELSE IF t[2] < 12 THEN <<t[1], t[2] + 1, 1, t[4] + 1>> ELSE <<t[1] + 1, 1, 1, 0>>
Calendar == Date(d + 1) = After(Date(d)) /\ Date(0) = <<1970, 1, 1, 0>> /\ WeekDay(0) = 4 /\ Date(19723) = <<2024, 1, 1, 0>> /\ WeekDay(19723) = 1
Bars(s) == {i \in 1..Len(s) : Char(s, i) = "|"}
Pluses(s) == {i \in 1..Len(s) : Char(s, i) = "+"}
Aligned == lv # 0 => \A hide \in {0, 1} :
    LET r == Row(Stamp(d, 86399, 7), b, lv, a, b, a, "m", hide) IN
    /\ Bars(Labels(hide)) = Pluses(Ruler(hide)) /\ Len(Labels(hide)) = Len(Ruler(hide))
    \* when the numbers fit their columns
    /\ (Len(b) <= 5 /\ Bars(a) = {}) => Bars(r) = Bars(Labels(hide)) /\ Char(r, Len(r)) = "m"
    /\ Len(Stamp(d, 0, 0)) = 26
    /\ Base(Base(a)) = Base(a) /\ Slashes(Base(a)) = {}
=============================================================================
