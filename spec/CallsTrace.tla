----------------------------- MODULE CallsTrace -----------------------------
(* cfg.log lists the frames found in the log, in order; the events must explain exactly these. *)
EXTENDS Calls, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i

TraceInit == \E t \in 1..Len(Traces) : ti = t /\ i = 1 /\ CallsInit

Evs == Traces[ti].ev
E == Evs[i]
F == Traces[ti].cfg.log

Event ==
  CASE E.o = "call"   -> Call(E.p, E.k, E.h, E.f, E.big, E.dl)
    [] E.o = "ret"    -> Return(E.p, E.r, E.id, E.pay)
    [] E.o = "open"   -> OpenCall(E.h, E.kind, E.can)
    [] E.o = "opened" -> OpenRet(E.h)
    [] E.o = "req"    -> OnRequest(E.h, E.id, E.pay)
    [] E.o = "can"    -> OnCancel(E.h, E.rid)
    [] E.o = "upd"    -> OnUpdate(E.h, E.rid, E.id, E.pay, E.done)
    [] E.o = "cbend"  -> CallbackEnd(E.h)
    [] E.o = "self"   -> SelfClose(E.h, E.r)
    [] E.o = "close"  -> CloseCall(E.h)
    [] E.o = "closed" -> CloseRet(E.h, E.r)
    [] E.o = "kept"   -> Kept(E.id, E.pay)
    [] E.o = "fut"    -> Future(E.h, E.rid, E.ready, E.id, E.pay)
    [] E.o = "tick"   -> Tick(E.t)
    [] E.o = "quiet"  -> Quiet /\ Len(log) = Len(F)
    [] OTHER -> FALSE

Finished == i > Len(Evs)

Internal == \/ \E p \in DOMAIN calls : (Len(log) < Len(F) /\ Commit(p, F[Len(log) + 1])) \/ Fail(p) \/ Drop(p)
            \/ \E h \in DOMAIN hs : Start(h) \/ Taken(h)

TraceNext == ~Finished /\ UNCHANGED ti /\ ((Event /\ i' = i + 1) \/ (Internal /\ i' = i))
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, ti, i>>

Report == /\ (Finished => PrintT(<<"ACC", ti>>))
          /\ (Len(Traces) = 1 => PrintT(<<"POS", i - 1>>))
=============================================================================
