------------------------------ MODULE FileTrace ------------------------------
(* The driver looks at the name after every system call of any process, so that every change of it is an event. *)
EXTENDS File, Integers, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i

TraceInit == \E t \in 1..Len(Traces) : ti = t /\ i = 1 /\ FileInit

Evs == Traces[ti].ev
E == Evs[i]
Shape == [size |-> E.size, mode |-> E.mode, c |-> E.c]

Event ==
  CASE E.o = "see"     -> IF E.p < 0 THEN Before(E.ino, Shape) ELSE See(E.p, E.ino, Shape)
    [] E.o = "open"    -> Begin(E.p, "open", E.size, E.mode, E.ro, E.can)
    [] E.o = "close"   -> Begin(E.p, "close", 0, 0, FALSE, "")
    [] E.o = "remove"  -> Begin(E.p, "remove", 0, 0, FALSE, "")
    [] E.o = "touch"   -> Begin(E.p, "touch", 0, 0, FALSE, "")
    [] E.o = "fault"   -> Fault(E.p, E.r, E.unlink)
    [] E.o = "die"     -> Die(E.p)
    [] E.o = "opened"  -> IF E.r = "ok" THEN Opened(E.p, E.ino, E.same, E.size, E.shared, E.wr, E.c, E.fds, E.maps)
                          ELSE OpenFailed(E.p, E.r, E.fds, E.maps)
    [] E.o = "closed"  -> Closed(E.p, E.r, E.fds, E.maps)
    [] E.o = "again"   -> Again(E.p, E.r)
    [] E.o = "removed" -> Removed(E.p, E.r)
    [] E.o = "touched" -> Touched(E.p, IF Traces[ti].cfg.pre = "T" THEN 2 ELSE 0, E.frames)
    [] E.o = "end"     -> End(E.extra)
    [] OTHER -> FALSE

Finished == i > Len(Evs)

TraceNext == ~Finished /\ UNCHANGED ti /\ Event /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, ti, i>>

Report == /\ (Finished => PrintT(<<"ACC", ti>>))
          /\ (Len(Traces) = 1 => PrintT(<<"POS", i - 1>>))
=============================================================================
