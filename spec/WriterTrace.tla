---------------------------- MODULE WriterTrace ----------------------------
(* cfg.log lists the packets found in the log, in order; the events must explain exactly these. *)
EXTENDS Writer, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i

TraceInit == \E t \in 1..Len(Traces) : ti = t /\ i = 1 /\ WriterInit

Evs == Traces[ti].ev
E == Evs[i]
F == Traces[ti].cfg.log

Event ==
  CASE E.o = "new"   -> NewWriter(E.w, E.ss)
    [] E.o = "push"  -> Push(E.w, E.ss)
    [] E.o = "wrap"  -> Wrap(E.w, E.from, E.ss)
    [] E.o = "close" -> Close(E.w, E.closed)
    [] E.o = "write" -> Begin(E.p, E.w, E.id, E.hs, E.pay, E.big, E.t, E.tw)
    [] E.o = "st"    -> Visit(E.p, E.s, E.ph, E.act, E.arg)
    [] E.o = "ret"   -> Return(E.p, E.r, E.kn, E.wr, E.t, E.tw)
    [] E.o = "die"   -> IF E.p \in DOMAIN calls THEN Die(E.p) ELSE UNCHANGED wvars
    [] E.o = "tick"  -> UNCHANGED wvars
    [] E.o = "quiet" -> calls = None /\ Len(log) = Len(F) /\ UNCHANGED wvars
    [] OTHER -> FALSE

Finished == i > Len(Evs)

\* what the library does by itself: appended is what the log turned out to hold next
Internal == \E p \in DOMAIN calls : \/ (Len(log) < Len(F) /\ F[Len(log) + 1].id = calls[p].id /\ Commit(p, F[Len(log) + 1]))
                                    \/ Decline(p) \/ TooBig(p)

TraceNext == /\ ~Finished /\ UNCHANGED ti
             /\ (Event /\ i' = i + 1) \/ (Internal /\ i' = i)

TraceSpec == TraceInit /\ [][TraceNext]_<<wvars, ti, i>>

Report == /\ (Finished => PrintT(<<"ACC", ti>>))
          /\ (Len(Traces) = 1 => PrintT(<<"POS", i - 1>>))
=============================================================================
