-------------------------------- MODULE Time --------------------------------
(* Times, offsets, their texts and the calendar. Numbers are split so that    *)
(* they fit the checker: a monotonic time is <<hi, lo, ns>> with              *)
(* seconds = hi * 100000 + lo, a wall time is <<days since 1970, second of    *)
(* the day, ns>>. Texts are sequences of character codes.                     *)
EXTENDS Integers, Sequences

Lo == 100000
Giga == 1000000000

RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)

Pad(n, w) == [j \in 1..w |-> 48 + ((n \div Pow10(w - j)) % 10)]
IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE Num(_, _, _)
Num(s, a, b) == IF a > b THEN 0 ELSE 10 * Num(s, a, b - 1) + (s[b] - 48)
Digits(s, a, b) == \A j \in a..b : IsDigit(s[j])

--------------------------------------------------------------------------
(* Monotonic time *)

IsMono(t) == t[2] \in 0..(Lo - 1) /\ t[3] \in 0..(Giga - 1)

\* what can be printed: nineteen digits of nanoseconds
Printable(t) == t[1] \in 0..99999
MonoText(t) == Pad(t[1], 5) \o Pad(t[2], 5) \o Pad(t[3], 9)
MonoValid(s) == Len(s) = 19 /\ Digits(s, 1, 19)
MonoOf(s) == <<Num(s, 1, 5), Num(s, 6, 10), Num(s, 11, 19)>>

Neg(o) == LET n == IF o[3] = 0 THEN 0 ELSE Giga - o[3]
              b == IF o[3] = 0 THEN 0 ELSE 1
              l == o[2] + b
              l2 == IF l % Lo = 0 THEN 0 ELSE Lo - (l % Lo)
          IN <<-(o[1] + (l \div Lo)) - (IF l2 = 0 THEN 0 ELSE 1), l2, n>>
\* o: an offset in the same form, positive or negative
Plus(t, o) == LET n == t[3] + o[3]
                  l == t[2] + o[2] + (n \div Giga)
              IN <<t[1] + o[1] + (l \div Lo), l % Lo, n % Giga>>
Less(a, b) == \/ a[1] < b[1]
              \/ a[1] = b[1] /\ a[2] < b[2]
              \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]

--------------------------------------------------------------------------
(* The calendar: day number from 1970-01-01 of a date and back *)

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, mo) == IF mo = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                    ELSE IF mo \in {4, 6, 9, 11} THEN 30 ELSE 31

DayNumber(y, mo, d) ==
  LET yy == IF mo <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      doy == (153 * (IF mo > 2 THEN mo - 3 ELSE mo + 9) + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468

DateOf(day) ==
  LET z == day + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      mo == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF mo <= 2 THEN 1 ELSE 0)
  IN <<y, mo, d>>

FirstDay == -719528      \* 0000-01-01
LastDay == 2932896       \* 9999-12-31

WallText(day, sod, ns) ==
  LET c == DateOf(day) IN
  Pad(c[1], 4) \o <<45>> \o Pad(c[2], 2) \o <<45>> \o Pad(c[3], 2) \o <<84>>
  \o Pad(sod \div 3600, 2) \o <<58>> \o Pad((sod \div 60) % 60, 2) \o <<58>> \o Pad(sod % 60, 2)
  \o <<46>> \o Pad(ns, 9) \o <<45, 48, 48, 58, 48, 48>>

Shape(s) == /\ Len(s) = 35
            /\ \A a \in {1, 2, 3, 4, 6, 7, 9, 10, 12, 13, 15, 16, 18, 19} \cup (21..29) : IsDigit(s[a])
            /\ s[5] = 45 /\ s[8] = 45 /\ s[11] = 84 /\ s[14] = 58 /\ s[17] = 58 /\ s[20] = 46
            /\ SubSeq(s, 30, 35) = <<45, 48, 48, 58, 48, 48>>
Sec(s) == Num(s, 18, 19)
WallValid(s) == /\ Shape(s)
                /\ Num(s, 6, 7) \in 1..12
                /\ Num(s, 9, 10) \in 1..MonthDays(Num(s, 1, 4), Num(s, 6, 7))
                /\ Num(s, 12, 13) \in 0..23
                /\ Num(s, 15, 16) \in 0..59
                /\ Sec(s) \in 0..59
\* a leap second is a valid RFC 3339 time without an instant of its own: it may be refused or counted on
LeapSecond(s) == Shape(s) /\ Sec(s) = 60
WallOf(s) == <<DayNumber(Num(s, 1, 4), Num(s, 6, 7), Num(s, 9, 10)),
               Num(s, 12, 13) * 3600 + Num(s, 15, 16) * 60 + Sec(s), Num(s, 21, 29)>>

--------------------------------------------------------------------------
(* What the operations may answer *)

PrintMono(t, r, s) == IF Printable(t) THEN r = "ok" /\ s = MonoText(t) ELSE r # "ok"
ParseMono(s, r, t) == IF MonoValid(s) THEN r = "ok" /\ t = MonoOf(s) ELSE r # "ok"
AddMono(t, o, r, u) == r = "ok" /\ IsMono(u) /\ u = Plus(t, o)
SubMono(t, o, r, u) == r = "ok" /\ IsMono(u) /\ u = Plus(t, Neg(o))
CompareMono(a, b, lt, le, eq, ne, ge, gt) ==
  /\ lt = Less(a, b) /\ gt = Less(b, a) /\ eq = (a = b)
  /\ ne = ~eq /\ le = ~gt /\ ge = ~lt

PrintWall(w, r, s) == IF w[1] \in FirstDay..LastDay THEN r = "ok" /\ s = WallText(w[1], w[2], w[3]) ELSE r # "ok"
ParseWall(s, r, w) == IF WallValid(s) THEN r = "ok" /\ w = WallOf(s)
                      ELSE LeapSecond(s) \/ r # "ok"
=============================================================================
