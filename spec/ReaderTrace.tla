----------------------------- MODULE ReaderTrace -----------------------------
EXTENDS Reader, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i
allvars == <<rvars, ti, i>>

TraceInit == \E t \in 1..Len(Traces) : ti = t /\ i = 1 /\ RInit

Evs == Traces[ti].ev
E == Evs[i]
ToSet(s) == {s[k] : k \in 1..Len(s)}

Event ==
  CASE E.o = "w"    -> Write(E.d, E.lo) /\ E.hi = hi + 1
    [] E.o = "clear" -> Clear
    [] E.o = "open" -> Open(E.h, E.init, E.iter, E.thr)
    [] E.o = "call" -> Call(E.h, E.k, E.dl)
    [] E.o = "ret"  -> Return(E.h, E.r, E.d) /\ (E.r = "ETIMEDOUT" => E.t >= rd[E.h].op.dl)
    [] E.o = "cb"   -> Callback(E.h, E.d)
    [] E.o = "cbend" -> CallbackEnd(E.h)
    [] E.o = "self" -> SelfClose(E.h, E.r)
    [] E.o = "tick" -> UNCHANGED rvars
    [] E.o = "quiet" -> E.stuck = <<>> /\ (\A r \in 1..Traces[ti].cfg.n : Settled(r)) /\ UNCHANGED rvars
    [] OTHER -> FALSE

Finished == i > Len(Evs)

TraceNext ==
  /\ ~Finished
  /\ \/ Event /\ i' = i + 1
     \/ (\E r \in 1..Traces[ti].cfg.n : Effect(r)) /\ i' = i
  /\ UNCHANGED ti

TraceSpec == TraceInit /\ [][TraceNext]_allvars

Report == /\ (Finished => PrintT(<<"ACC", ti>>))
          /\ (Len(Traces) = 1 => PrintT(<<"POS", i - 1>>))
=============================================================================
