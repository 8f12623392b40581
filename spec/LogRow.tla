-------------------------------- MODULE LogRow -------------------------------
(* The text of a default log row and header, level names, base file names,   *)
(* and calendar dates.  Texts are strings, one character per byte.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Times(_, _)
Times(c, n) == IF n <= 0 THEN "" ELSE c \o Times(c, n - 1)
PadR(s, n) == s \o Times(" ", n - Len(s))          \* flush left
PadL(s, n) == Times(" ", n - Len(s)) \o s
Zero(x, n) == Times("0", n - Len(ToString(x))) \o ToString(x)
Cut(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)
Char(s, i) == SubSeq(s, i, i)
Slashes(s) == {i \in 1..Len(s) : Char(s, i) = "/" \/ Char(s, i) = "\\"}
BaseAt(s) == IF Slashes(s) = {} THEN 0 ELSE CHOOSE i \in Slashes(s) : \A j \in Slashes(s) : j <= i
Base(s) == SubSeq(s, BaseAt(s) + 1, Len(s))

\* --------------------------------------------------------------- the calendar
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* days from 1970-01-01 to the first of January of year y
YearStart(y) == 365 * (y - 1970) + ((y - 1) \div 4 - 492) - ((y - 1) \div 100 - 19) + ((y - 1) \div 400 - 4)
RECURSIVE MonthStart(_, _)
MonthStart(y, m) == IF m = 1 THEN 0 ELSE MonthStart(y, m - 1) + MonthLen(y, m - 1)
YearOf(d) == LET g == 1970 + ((d * 400) \div 146097) IN CHOOSE y \in (g - 2)..(g + 2) : YearStart(y) <= d /\ d < YearStart(y + 1)
Date(d) ==  \* <<year, month, day of month, day of the year from 0>>
    LET y == YearOf(d)  n == d - YearStart(y)
        m == CHOOSE k \in 1..12 : MonthStart(y, k) <= n /\ n < MonthStart(y, k) + MonthLen(y, k)
    IN <<y, m, n - MonthStart(y, m) + 1, n>>
WeekDay(d) == (d + 4) % 7
\* day d and second s, moved by off seconds
DayAt(d, s, off) == d + ((s + off) \div 86400)
SecAt(s, off) == (s + off) % 86400
Stamp(d, s, us) == LET t == Date(d) IN
    Zero(t[1], 4) \o "-" \o Zero(t[2], 2) \o "-" \o Zero(t[3], 2) \o " " \o Zero(s \div 3600, 2) \o ":" \o Zero((s \div 60) % 60, 2) \o ":" \o Zero(s % 60, 2) \o "." \o Zero(us, 6)
Broken(d, s) == LET t == Date(d) IN <<t[1], t[2], t[3], s \div 3600, (s \div 60) % 60, s % 60, WeekDay(d), t[4]>>

\* --------------------------------------------------------------- levels
Title == [l \in -1..8 |-> CASE l = -1 -> "Level" [] l = 0 -> "Verbose" [] l = 1 -> "Trace" [] l = 2 -> "Debug" [] l = 3 -> "Info" [] l = 4 -> "Notice"
                            [] l = 5 -> "Warning" [] l = 6 -> "Error" [] l = 7 -> "Critical" [] l = 8 -> "Fatal"]
Plain == [l \in -1..8 |-> CASE l = -1 -> "level" [] l = 0 -> "verbose" [] l = 1 -> "trace" [] l = 2 -> "debug" [] l = 3 -> "info" [] l = 4 -> "notice"
                            [] l = 5 -> "warning" [] l = 6 -> "error" [] l = 7 -> "critical" [] l = 8 -> "fatal"]
Abbr == [l \in -1..8 |-> CASE l = -1 -> "LVL" [] l = 0 -> "VRB" [] l = 1 -> "TRC" [] l = 2 -> "DBG" [] l = 3 -> "INF" [] l = 4 -> "NTC"
                            [] l = 5 -> "WRN" [] l = 6 -> "ERR" [] l = 7 -> "CRT" [] l = 8 -> "FTL"]
Of(names, l, other) == IF l \in DOMAIN names THEN names[l] ELSE other
TitleOf(l) == Of(Title, l, "Unknown")
PlainOf(l) == Of(Plain, l, "unknown")
AbbrOf(l) == Of(Abbr, l, "UNK")
CharOf(l) == IF l \in DOMAIN Title THEN Char(Title[l], 1) ELSE "?"

\* --------------------------------------------------------------- rows
Row(stamp, tid, level, file, line, func, msg, hide) ==
    stamp \o "|" \o PadL(tid, 7) \o "|" \o PadR(TitleOf(level), 8) \o "|"
    \o (IF hide = 1 THEN "" ELSE PadR(Cut(Base(file), 20), 20) \o "|" \o PadL(line, 5) \o "|" \o PadR(Cut(func, 20), 20) \o "|")
    \o msg
Labels(hide) ==
    PadR("Timestamp", 26) \o "|" \o PadL("TID", 7) \o "|" \o PadR("Level", 8) \o "|"
    \o (IF hide = 1 THEN "" ELSE PadR("File Name", 20) \o "|" \o PadL("Line", 5) \o "|" \o PadR("Function", 20) \o "|")
    \o "Message"
Ruler(hide) ==
    Times("-", 26) \o "+" \o Times("-", 7) \o "+" \o Times("-", 8) \o "+"
    \o (IF hide = 1 THEN "" ELSE Times("-", 20) \o "+" \o Times("-", 5) \o "+" \o Times("-", 20) \o "+")
    \o Times("-", 7)
Header(hide) == Labels(hide) \o "\n" \o Ruler(hide)
=============================================================================
