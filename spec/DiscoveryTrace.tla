--------------------------- MODULE DiscoveryTrace ---------------------------
EXTENDS Discovery, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i

TraceInit == \E t \in 1..Len(Traces) : ti = t /\ i = 1 /\ DiscoveryInit(Traces[t].cfg.pat, Traces[t].cfg.paths)

Evs == Traces[ti].ev
E == Evs[i]

Event ==
  CASE E.o = "put"    -> Put(E.k, E.t)
    [] E.o = "take"   -> Take(E.k)
    [] E.o = "start"  -> Start
    [] E.o = "found"  -> E.k > 0 /\ Found(E.k)
    [] E.o = "quiet"  -> Quiet
    [] E.o = "close"  -> Close
    [] E.o = "closed" -> Closed
    [] OTHER -> FALSE

Finished == i > Len(Evs)

TraceNext == ~Finished /\ UNCHANGED ti /\ Event /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<dvars, ti, i>>

Report == /\ (Finished => PrintT(<<"ACC", ti>>))
          /\ (Len(Traces) = 1 => PrintT(<<"POS", i - 1>>))
=============================================================================
