----------------------------- MODULE MutexTrace -----------------------------
(* Decides whether recorded executions of the real mutex and condition       *)
(* variable are behaviours of Mutex.                                          *)
EXTENDS Mutex, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i,
          m     \* the mutex looked at: mutexes have nothing to do with one another, so it is one after the other
allvars == <<mvars, ti, i, m>>

TraceInit == \E t \in 1..Len(Traces) : ti = t /\ i = 1 /\ m = 1 /\ MutexInit

Evs == Traces[ti].ev
E == Evs[i]
Count == Traces[ti].cfg.nm
ToSet(s) == {s[k] : k \in 1..Len(s)}

\* busy with another mutex
Elsewhere(p) == Count > 1 /\ st[p].ph = "idle"

Event ==
  CASE E.o \in {"call", "ret"} /\ E.m /= m -> UNCHANGED mvars
    [] E.o = "call" -> Call(E.p, E.k, E.dl)
    [] E.o = "ret"  -> Return(E.p, E.r) /\ (E.r = "ETIMEDOUT" => E.t >= st[E.p].dl)
    [] E.o = "die"  -> Die(E.p)
    [] E.o = "tick" -> (\A p \in ToSet(E.asleep) : MaySleepTo(p, E.t)) /\ UNCHANGED mvars
    [] E.o = "quiet" -> (\A p \in ToSet(E.blocked) : Elsewhere(p) \/ MayBlock(p)) /\ UNCHANGED mvars
    [] OTHER -> FALSE

AtEnd == i > Len(Evs)
Finished == AtEnd /\ m = Count

TraceNext ==
  /\ ~Finished
  /\ IF AtEnd
     THEN m' = m + 1 /\ i' = 1 /\ holder' = 0 /\ died' = FALSE /\ st' = [p \in Procs |-> Idle]
     ELSE /\ \/ Event /\ i' = i + 1
             \/ (\E p \in 1..Traces[ti].cfg.n : Effect(p)) /\ i' = i
          /\ UNCHANGED m
  /\ UNCHANGED ti

TraceSpec == TraceInit /\ [][TraceNext]_allvars

Report == /\ (Finished => PrintT(<<"ACC", ti>>))
          /\ (Len(Traces) = 1 => PrintT(<<"POS", i - 1>>))
=============================================================================
