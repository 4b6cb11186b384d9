------------------------------- MODULE MCMutex -------------------------------
EXTENDS Mutex, TLC
CONSTANTS MaxOps, MaxDeaths
VARIABLES ops, deaths
vars == <<mvars, ops, deaths>>

Init == MutexInit /\ ops = [p \in Procs |-> 0] /\ deaths = 0

Next ==
  \/ \E p \in Procs, k \in Lockers \cup Waits \cup {"unlock", "signal", "broadcast", "badwait"} :
        /\ ops[p] < MaxOps /\ Call(p, k, 0) /\ ops' = [ops EXCEPT ![p] = @ + 1] /\ UNCHANGED deaths
  \/ \E p \in Procs : Effect(p) /\ UNCHANGED <<ops, deaths>>
  \/ \E p \in Procs, r \in {"ok", "EOWNERDEAD", "EDEADLK", "EBUSY", "ETIMEDOUT", "EPERM", "EINVAL"} : Return(p, r) /\ UNCHANGED <<ops, deaths>>
  \/ \E p \in Procs : deaths < MaxDeaths /\ Die(p) /\ deaths' = deaths + 1 /\ UNCHANGED ops

Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Effect(p) /\ UNCHANGED <<ops, deaths>>)

\* A death is reported at most once: it is pending only while nobody holds the mutex.
DeathPending == died => holder = 0
\* A result that claims the mutex comes with the mutex, one that does not comes without.
Truthful == \A p \in Procs : st[p].ph = "done" =>
   /\ (st[p].k \in Lockers /\ st[p].r \in {"ok", "EOWNERDEAD"}) => holder = p
   /\ (st[p].k \in Waits /\ st[p].r \in {"ok", "EOWNERDEAD", "ETIMEDOUT"}) => holder = p
   /\ (st[p].r = "EBUSY" /\ holder = p) => TRUE
\* Somebody wanting the mutex is never left out while it stays free.
Granted == \A p \in Procs : (st[p].k = "lock" /\ st[p].ph = "called") ~> (holder /= 0 \/ st[p].ph /= "called")
\* Only its holder (or its holder's death) frees the mutex.
OnlyHolder == [][(holder /= 0 /\ holder' /= holder) => (holder' = 0 /\ st'[holder] /= st[holder])]_vars
=============================================================================
