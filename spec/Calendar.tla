------------------------------ MODULE Calendar ------------------------------
(* The calendar day by day, from the lengths of the months alone: the         *)
(* formulas Time uses agree with it, and texts read back as what they say.    *)
EXTENDS Time
CONSTANTS Before, To    \* days from the start to 1970-01-01 and from there to the end
CONSTANT FromYear       \* the year the first day is the first of January of
VARIABLES y, mo, d, n

Init == y = FromYear /\ mo = 1 /\ d = 1 /\ n = -Before
Next == /\ n < To
        /\ n' = n + 1
        /\ IF d < MonthDays(y, mo) THEN d' = d + 1 /\ UNCHANGED <<y, mo>>
           ELSE d' = 1 /\ IF mo < 12 THEN mo' = mo + 1 /\ y' = y ELSE mo' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_<<y, mo, d, n>>

Agrees == DayNumber(y, mo, d) = n /\ DateOf(n) = <<y, mo, d>>
Reads == LET s == WallText(n, (n * 7919) % 86400, (n * 104) % Giga)
         IN WallValid(s) /\ WallOf(s) = <<n, (n * 7919) % 86400, (n * 104) % Giga>>
Epoch == (y = 1970 /\ mo = 1 /\ d = 1) => n = 0
LastOne == n = LastDay => <<y, mo, d>> = <<9999, 12, 31>>
Inv == Agrees /\ Epoch /\ LastOne
=============================================================================
