------------------------------ MODULE LogTrace ------------------------------
(* cfg.log lists the frames found in the log, in order; the events must explain exactly these. *)
EXTENDS Log, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i

TraceInit == \E t \in 1..Len(Traces) : ti = t /\ i = 1 /\ LogInit

Evs == Traces[ti].ev
E == Evs[i]
F == Traces[ti].cfg.log

Event ==
  CASE E.o = "call"   -> Call(E.p, E.id, E.lvl, E.pay, E.big)
    [] E.o = "ret"    -> Return(E.p, E.r)
    [] E.o = "open"   -> Open(E.h, E.lvl, E.init, E.iter)
    [] E.o = "opened" -> Opened(E.h)
    [] E.o = "cb"     -> Callback(E.h, E.id, E.pay, E.lvl)
    [] E.o = "cbend"  -> CallbackEnd(E.h)
    [] E.o = "self"   -> SelfClose(E.h, E.r)
    [] E.o = "close"  -> Close(E.h)
    [] E.o = "closed" -> Closed(E.h, E.r)
    [] E.o = "kept"   -> Kept(E.id, E.pay)
    [] E.o = "quiet"  -> Quiet /\ Len(log) = Len(F)
    [] OTHER -> FALSE

Finished == i > Len(Evs)

Internal == \/ \E p \in DOMAIN calls : (Len(log) < Len(F) /\ Commit(p, F[Len(log) + 1])) \/ Fail(p)
            \/ \E h \in DOMAIN ls : Start(h)

TraceNext == ~Finished /\ UNCHANGED ti /\ ((Event /\ i' = i + 1) \/ (Internal /\ i' = i))
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, ti, i>>

Report == /\ (Finished => PrintT(<<"ACC", ti>>))
          /\ (Len(Traces) = 1 => PrintT(<<"POS", i - 1>>))
=============================================================================
