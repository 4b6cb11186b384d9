---------------------------- MODULE DeadmanTrace ----------------------------
EXTENDS Deadman, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i
allvars == <<dvars, ti, i>>

TraceInit == \E t \in 1..Len(Traces) : ti = t /\ i = 1 /\ DInit

Evs == Traces[ti].ev
E == Evs[i]
ToSet(s) == {s[k] : k \in 1..Len(s)}

Ret ==
  LET p == E.p  r == st[p].r IN
  /\ Return(p)
  /\ CASE r[1] = "owned" -> E.r = "owned" /\ E.own = r[3] /\ E.iso = r[4] /\ Token(r[2], E.v)
       [] r[1] = "free"  -> E.r = "free" /\ E.v = 0 /\ E.own = 0 /\ E.iso = FALSE /\ UNCHANGED tok
       [] r[1] = "ok" /\ Len(r) = 2 -> E.r = "ok" /\ Token(r[2], E.v)
       \* the C++ interface does not tell a death from a clean release, nor why trying failed
       [] E.r = "taken"   -> r[1] \in {"ok", "EOWNERDEAD"} /\ UNCHANGED tok
       [] E.r = "refused" -> r[1] \in {"EBUSY", "EDEADLK", "ESHUTDOWN"} /\ UNCHANGED tok
       [] OTHER -> E.r = r[1] /\ UNCHANGED tok
  /\ E.r = "ETIMEDOUT" => E.t >= st[p].dl
  \* whoever was asleep in the handle when it was interrupted no longer is
  /\ st[p].k = "shutdown" => st[p].blk \cap ToSet(E.asleep) = {}

Event ==
  CASE E.o = "call" -> Call(E.p, E.h, E.k, E.v, E.dl, IF E.k = "shutdown" THEN ToSet(E.asleep) ELSE {})
    [] E.o = "ret"  -> Ret
    [] E.o = "open" -> E.r = "ok" /\ Open(E.p)
    [] E.o = "close" -> Close(E.p)
    [] E.o = "die"  -> Die(E.p)
    [] E.o = "tick" -> (\A p \in ToSet(E.asleep) : MaySleepTo(p, E.t)) /\ UNCHANGED dvars
    [] E.o = "quiet" -> (\A p \in ToSet(E.blocked) : MayBlock(p)) /\ UNCHANGED dvars
    [] OTHER -> FALSE

Finished == i > Len(Evs)

TraceNext ==
  /\ ~Finished
  /\ \/ Event /\ i' = i + 1
     \/ (\E p \in 1..Traces[ti].cfg.n : Effect(p)) /\ i' = i
  /\ UNCHANGED ti

TraceSpec == TraceInit /\ [][TraceNext]_allvars

Report == /\ (Finished => PrintT(<<"ACC", ti>>))
          /\ (Len(Traces) = 1 => PrintT(<<"POS", i - 1>>))
=============================================================================
