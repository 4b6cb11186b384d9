------------------------------- MODULE Reader -------------------------------
(* Readers of a log, as their users see them. The log is the range lo..hi of *)
(* sequence numbers still retained; hi only grows. A reader is created at a  *)
(* starting point and afterwards delivers either every retained packet after *)
(* the last one it delivered, in order, or always the newest.                *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Readers
VARIABLES lo, hi, dat,  \* the log; dat[q] is the content of number q
          rd            \* the readers
rvars == <<lo, hi, dat, rd>>

NoOp == [k |-> "idle", ph |-> "idle", dl |-> -1, r |-> "", d |-> -1]
None == [st |-> "none", thr |-> FALSE, init |-> "", iter |-> "", s |-> 0, c |-> 0, last |-> 0, pend |-> -1, in |-> FALSE, op |-> NoOp]

RInit == lo = 1 /\ hi = 0 /\ dat = <<>> /\ rd = [r \in Readers |-> None]

\* --- the log

Write(d, l) == /\ l >= lo /\ l <= hi + 1
               /\ hi' = hi + 1 /\ lo' = l /\ dat' = Append(dat, d)
               /\ UNCHANGED rd
Clear == lo' = hi + 1 /\ UNCHANGED <<hi, dat, rd>>
\* several changes since it was last looked at
Jump(ds, l) == /\ l >= lo /\ l <= hi + Len(ds) + 1
               /\ hi' = hi + Len(ds) /\ lo' = l /\ dat' = dat \o ds
               /\ UNCHANGED rd

\* --- what a reader may deliver next

Max(a, b) == IF a > b THEN a ELSE b
First(r) == rd[r].last = 0
Oldest(r) == Max(lo, Max(rd[r].last + 1, rd[r].s))
Ready(r) == Oldest(r) <= hi
AtStart(r) == rd[r].c /= 0 /\ rd[r].c >= lo /\ rd[r].c <= hi   \* where it was put is still there
Choices(r) ==
  IF ~Ready(r) THEN {}
  ELSE IF rd[r].iter = "next" THEN {Oldest(r)}
  ELSE IF ~First(r) THEN {hi}
  \* created on an empty log, or put where nothing is left: in the background it starts with the oldest there is
  ELSE IF ~AtStart(r) THEN (IF ~rd[r].thr THEN {hi} ELSE IF rd[r].init = "new" /\ rd[r].c /= 0 THEN {Oldest(r), hi} ELSE {Oldest(r)})
  ELSE IF rd[r].init = "new" THEN {hi} ELSE {rd[r].c}

\* --- calls of the user

Call(r, k, dl) ==
  /\ rd[r].op.ph = "idle"
  /\ rd' = [rd EXCEPT ![r].op = [k |-> k, ph |-> "called", dl |-> dl, r |-> "", d |-> -1]]
  /\ UNCHANGED <<lo, hi, dat>>

Open(r, init, iter, thr) ==
  /\ rd[r].st = "none"
  /\ rd' = [rd EXCEPT ![r] = [None EXCEPT !.st = "opening", !.thr = thr, !.init = init, !.iter = iter,
                                          !.op = [k |-> "open", ph |-> "called", dl |-> -1, r |-> "", d |-> -1]]]
  /\ UNCHANGED <<lo, hi, dat>>

Is(r, ks) == rd[r].op.ph = "called" /\ rd[r].op.k \in ks
Done(r, res, d) == [rd EXCEPT ![r].op.ph = "done", ![r].op.r = res, ![r].op.d = d]
LogUntouched == UNCHANGED <<lo, hi, dat>>

\* the starting point is fixed while the reader is being created
Opened(r) ==
  /\ Is(r, {"open"})
  /\ LET empty == lo > hi
         s == CASE rd[r].init = "oldest" -> 1
                [] rd[r].init = "recent" -> IF empty THEN hi + 1 ELSE hi
                [] rd[r].init = "new"    -> hi + 1
         c == IF empty THEN 0 ELSE IF rd[r].init = "oldest" THEN lo ELSE hi
     IN rd' = [Done(r, "ok", -1) EXCEPT ![r].st = "open", ![r].s = s, ![r].c = c]
  /\ LogUntouched

CanRead(r) == Is(r, {"can"}) /\ rd' = Done(r, IF Ready(r) THEN "1" ELSE "0", -1) /\ LogUntouched
Read(r) == /\ Is(r, {"read", "block", "tblock"})
           /\ \E q \in Choices(r) : rd' = [Done(r, "ok", dat[q]) EXCEPT ![r].last = q]
           /\ LogUntouched
Nothing(r) == Is(r, {"read"}) /\ ~Ready(r) /\ rd' = Done(r, "AGAIN", -1) /\ LogUntouched
\* once the deadline has passed a read may give up whether or not there is something
Expire(r) == Is(r, {"tblock"}) /\ rd' = Done(r, "ETIMEDOUT", -1) /\ LogUntouched

\* --- background readers

Fetch(r) == /\ rd[r].thr /\ rd[r].st = "open" /\ rd[r].pend = -1 /\ ~rd[r].in
            /\ \E q \in Choices(r) : rd' = [rd EXCEPT ![r].last = q, ![r].pend = dat[q]]
            /\ LogUntouched
Callback(r, d) == /\ rd[r].thr /\ rd[r].pend = d /\ d /= -1
                  /\ rd' = [rd EXCEPT ![r].pend = -1, ![r].in = TRUE]
                  /\ LogUntouched
CallbackEnd(r) == rd[r].in /\ rd' = [rd EXCEPT ![r].in = FALSE] /\ LogUntouched

\* Closing takes effect when no callback is running; from within a callback it is refused.
Closed(r) == /\ Is(r, {"close"}) /\ ~rd[r].in /\ rd[r].pend = -1
             /\ rd' = [Done(r, "ok", -1) EXCEPT ![r].st = "closed"]
             /\ LogUntouched
SelfClose(r, res) == rd[r].in /\ res = "EDEADLK" /\ UNCHANGED rvars

Effect(r) == Opened(r) \/ CanRead(r) \/ Read(r) \/ Nothing(r) \/ Expire(r) \/ Fetch(r) \/ Closed(r)

Return(r, res, d) == /\ rd[r].op.ph = "done" /\ rd[r].op.r = res /\ rd[r].op.d = d
                     /\ rd' = [rd EXCEPT ![r].op = NoOp]
                     /\ LogUntouched

\* --- what may be when nothing can happen any more

Settled(r) ==
  /\ rd[r].op.ph \in {"idle", "called"}
  /\ rd[r].op.ph = "called" => rd[r].op.k = "block" /\ ~Ready(r)
  /\ (rd[r].thr /\ rd[r].st = "open") => ~Ready(r) /\ rd[r].pend = -1 /\ ~rd[r].in

\* --- what the model must satisfy

Bounds == lo <= hi + 1 /\ Len(dat) = hi
Sane == \A r \in Readers : rd[r].last <= hi /\ (rd[r].last /= 0 => rd[r].last >= rd[r].s)
=============================================================================
