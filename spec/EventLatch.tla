----------------------------- MODULE EventLatch -----------------------------
(* The one-shot event and the countdown latch, as their users see them.      *)
EXTENDS Integers, Sequences

CONSTANT Procs
VARIABLES set,   \* the event
          cnt,   \* what is left to count down
          st
evars == <<set, cnt, st>>

Idle == [k |-> "idle", n |-> 0, dl |-> -1, ph |-> "idle", r |-> ""]
ELInit(c) == set = FALSE /\ cnt = c /\ st = [p \in Procs |-> Idle]

Call(p, k, n, dl) ==
  /\ st[p].ph = "idle"
  /\ st' = [st EXCEPT ![p] = [k |-> k, n |-> n, dl |-> dl, ph |-> "called", r |-> ""]]
  /\ UNCHANGED <<set, cnt>>

Done(p, r) == [st EXCEPT ![p].ph = "done", ![p].r = r]
Is(p, k) == st[p].k = k /\ st[p].ph = "called"
Yes(b) == IF b THEN "1" ELSE "0"

Set(p)   == Is(p, "set") /\ set' = TRUE /\ st' = Done(p, "ok") /\ UNCHANGED cnt
IsSet(p) == Is(p, "is_set") /\ st' = Done(p, Yes(set)) /\ UNCHANGED <<set, cnt>>
WaitSet(p) == (Is(p, "ewait") \/ Is(p, "etwait")) /\ set /\ st' = Done(p, "ok") /\ UNCHANGED <<set, cnt>>
Expire(p) == Is(p, "etwait") /\ ~set /\ st' = Done(p, "ETIMEDOUT") /\ UNCHANGED <<set, cnt>>

Down(p)   == Is(p, "down") /\ cnt' = cnt - st[p].n /\ st' = Done(p, "ok") /\ UNCHANGED set
Arrive(p) == Is(p, "arrive") /\ cnt' = cnt - st[p].n /\ st' = [st EXCEPT ![p].ph = "arrived"] /\ UNCHANGED set
Pass(p)   == st[p].ph = "arrived" /\ cnt <= 0 /\ st' = Done(p, "ok") /\ UNCHANGED <<set, cnt>>
Try(p)    == Is(p, "ltry") /\ st' = Done(p, Yes(cnt <= 0)) /\ UNCHANGED <<set, cnt>>

Effect(p) == Set(p) \/ IsSet(p) \/ WaitSet(p) \/ Expire(p) \/ Down(p) \/ Arrive(p) \/ Pass(p) \/ Try(p)

Return(p, r) == st[p].ph = "done" /\ st[p].r = r /\ st' = [st EXCEPT ![p] = Idle] /\ UNCHANGED <<set, cnt>>

Die(p) == st[p].ph /= "dead" /\ st' = [st EXCEPT ![p].ph = "dead", ![p].k = "dead"] /\ UNCHANGED <<set, cnt>>

MayBlock(p) == (Is(p, "ewait") /\ ~set) \/ (st[p].ph = "arrived" /\ cnt > 0)
MaySleepTo(p, t) == Is(p, "etwait") => st[p].dl >= t
=============================================================================
