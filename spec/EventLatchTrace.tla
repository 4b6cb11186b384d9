--------------------------- MODULE EventLatchTrace ---------------------------
EXTENDS EventLatch, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i
allvars == <<evars, ti, i>>

TraceInit == \E t \in 1..Len(Traces) : ti = t /\ i = 1 /\ ELInit(Traces[t].cfg.cnt)

Evs == Traces[ti].ev
E == Evs[i]
ToSet(s) == {s[k] : k \in 1..Len(s)}

Event ==
  CASE E.o = "call" -> Call(E.p, E.k, E.n, E.dl)
    [] E.o = "ret"  -> Return(E.p, E.r) /\ (E.r = "ETIMEDOUT" => E.t >= st[E.p].dl)
    [] E.o = "die"  -> Die(E.p)
    [] E.o = "tick" -> (\A p \in ToSet(E.asleep) : MaySleepTo(p, E.t)) /\ UNCHANGED evars
    [] E.o = "quiet" -> (\A p \in ToSet(E.blocked) : MayBlock(p)) /\ UNCHANGED evars
    [] OTHER -> FALSE

Finished == i > Len(Evs)

TraceNext ==
  /\ ~Finished
  /\ \/ Event /\ i' = i + 1
     \/ (\E p \in 1..Traces[ti].cfg.n : Effect(p)) /\ i' = i
  /\ UNCHANGED ti

TraceSpec == TraceInit /\ [][TraceNext]_allvars

Report == /\ (Finished => PrintT(<<"ACC", ti>>))
          /\ (Len(Traces) = 1 => PrintT(<<"POS", i - 1>>))
=============================================================================
