-------------------------------- MODULE Mutex --------------------------------
(* The process-shared mutex and condition variable, as their users see them.  *)
(* Every operation is a call, an instant at which it takes effect, and a      *)
(* return; a participant may die at any moment, losing what it holds.         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Procs

VARIABLES holder,   \* 0, or who holds the mutex
          died,     \* the last holder died and nobody has been told yet
          st        \* what each participant is doing

mvars == <<holder, died, st>>

Idle == [k |-> "idle", dl |-> -1, ph |-> "idle", r |-> ""]
Dead == [k |-> "dead", dl |-> -1, ph |-> "dead", r |-> ""]

MutexInit == holder = 0 /\ died = FALSE /\ st = [p \in Procs |-> Idle]

Lockers == {"lock", "tlock", "try"}
Waits == {"wait", "twait"}

Call(p, k, dl) ==
  /\ st[p].ph = "idle"
  /\ st' = [st EXCEPT ![p] = [k |-> k, dl |-> dl, ph |-> "called", r |-> ""]]
  /\ UNCHANGED <<holder, died>>

Done(p, r) == [st EXCEPT ![p].ph = "done", ![p].r = r]
Phase(S, ph) == [q \in Procs |-> IF q \in S THEN [st[q] EXCEPT !.ph = ph] ELSE st[q]]

Told == IF died THEN "EOWNERDEAD" ELSE "ok"

\* The mutex is free: whoever takes it is told if the previous holder died.
Take(p) ==
  /\ st[p].k \in Lockers /\ st[p].ph = "called" /\ holder = 0
  /\ holder' = p /\ died' = FALSE /\ st' = Done(p, Told)

\* It is not free.
Refuse(p) ==
  /\ st[p].k \in Lockers /\ st[p].ph = "called" /\ holder /= 0
  /\ \/ holder = p /\ st' = Done(p, "EDEADLK")
     \/ st[p].k = "try" /\ st' = Done(p, "EBUSY")
     \/ holder /= p /\ st[p].k = "tlock" /\ st' = Done(p, "ETIMEDOUT")
  /\ UNCHANGED <<holder, died>>

Release(p) ==
  /\ st[p].k = "unlock" /\ st[p].ph = "called"
  /\ IF holder = p THEN holder' = 0 /\ st' = Done(p, "ok") ELSE UNCHANGED holder /\ st' = Done(p, "EPERM")
  /\ UNCHANGED died

\* Waiting: gives up the mutex and joins the waiters in one step.
StartWait(p) ==
  /\ st[p].k \in Waits /\ st[p].ph = "called"
  /\ IF holder = p THEN holder' = 0 /\ st' = Phase({p}, "waiting")
                   ELSE UNCHANGED holder /\ st' = Done(p, "EPERM")
  /\ UNCHANGED died

BadWait(p) ==
  /\ st[p].k = "badwait" /\ st[p].ph = "called"
  /\ \/ st' = Done(p, "EINVAL")
     \/ holder /= p /\ st' = Done(p, "EPERM")
  /\ UNCHANGED <<holder, died>>

Waiters == {q \in Procs : st[q].ph = "waiting"}

\* A signal ends the wait of at least one of those waiting, a broadcast of all of them.
Wake(p) ==
  /\ st[p].k \in {"signal", "broadcast"} /\ st[p].ph = "called"
  /\ \E S \in SUBSET Waiters :
        /\ S /= {} \/ Waiters = {}
        /\ st[p].k = "broadcast" => S = Waiters
        /\ st' = [Phase(S, "woken") EXCEPT ![p].ph = "done", ![p].r = "ok"]
  /\ UNCHANGED <<holder, died>>

\* A wait may also end for no reason, or because its deadline has passed.
Spurious(p) == st[p].ph = "waiting" /\ st' = Phase({p}, "woken") /\ UNCHANGED <<holder, died>>
Expire(p) == st[p].ph = "waiting" /\ st[p].k = "twait" /\ st' = Phase({p}, "expired") /\ UNCHANGED <<holder, died>>

\* ... and returns with the mutex held again.
Reacquire(p) ==
  /\ st[p].ph \in {"woken", "expired"} /\ holder = 0
  /\ holder' = p /\ died' = FALSE
  /\ \/ st[p].ph = "woken" /\ st' = Done(p, Told)
     \/ st[p].k = "twait" /\ st' = Done(p, "ETIMEDOUT")

Return(p, r) ==
  /\ st[p].ph = "done" /\ st[p].r = r
  /\ st' = [st EXCEPT ![p] = Idle]
  /\ UNCHANGED <<holder, died>>

Die(p) ==
  /\ st[p].ph /= "dead"
  /\ st' = [st EXCEPT ![p] = Dead]
  /\ IF holder = p THEN holder' = 0 /\ died' = TRUE ELSE UNCHANGED <<holder, died>>

Effect(p) == Take(p) \/ Refuse(p) \/ Release(p) \/ StartWait(p) \/ BadWait(p) \/ Wake(p) \/ Spurious(p) \/ Expire(p) \/ Reacquire(p)

HeldByOther(p) == holder \notin {0, p}

\* May p be asleep for ever?
MayBlock(p) ==
  \/ st[p].k = "lock" /\ st[p].ph = "called" /\ HeldByOther(p)
  \/ st[p].k = "wait" /\ st[p].ph = "waiting"
  \/ st[p].k \in Waits /\ st[p].ph \in {"woken", "expired"} /\ HeldByOther(p)

\* May p be asleep while time passes to t?
MaySleepTo(p, t) ==
  CASE st[p].k = "tlock" -> st[p].dl >= t
    [] st[p].k = "twait" -> st[p].dl >= t \/ (st[p].ph \in {"woken", "expired"} /\ HeldByOther(p))
    [] OTHER -> TRUE

Consistent ==
  /\ holder /= 0 => st[holder].ph /= "dead"
  /\ holder /= 0 => ~(st[holder].ph \in {"waiting", "woken", "expired"})
=============================================================================
