------------------------------ MODULE CfgTrace ------------------------------
(* cfg.log lists the values found in the log, in order; the events must explain exactly these.  vars: the C++ variables bound to
   members of the configuration, refreshed on request. *)
EXTENDS Cfg, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i, cache

TraceInit == \E t \in 1..Len(Traces) : ti = t /\ i = 1 /\ cache = None /\ CfgInit

Evs == Traces[ti].ev
E == Evs[i]
F == Traces[ti].cfg.log

Event ==
  CASE E.o = "call"  -> Call(E.p, E.k, E.id, E.v, E.big, E.dl) /\ UNCHANGED cache
    [] E.o = "ret"   -> Return(E.p, E.r, E.wr, E.id, E.v) /\ UNCHANGED cache
    [] E.o = "open"  -> Open(E.h) /\ UNCHANGED cache
    [] E.o = "cb"    -> Told(E.h, E.id, E.v) /\ UNCHANGED cache
    [] E.o = "cbend" -> ToldEnd(E.h) /\ UNCHANGED cache
    [] E.o = "self"  -> SelfClose(E.h, E.r) /\ UNCHANGED cache
    [] E.o = "close" -> CloseCall(E.h) /\ UNCHANGED cache
    [] E.o = "closed" -> CloseRet(E.h, E.r) /\ UNCHANGED cache
    [] E.o = "tick"  -> Tick(E.t) /\ UNCHANGED cache
    [] E.o = "die"   -> (IF E.p \in DOMAIN calls THEN Die(E.p) ELSE UNCHANGED cvars) /\ UNCHANGED cache
    \* binding a variable takes the present value, refreshing gives all of them the present value; refreshing fails, leaving them,
    \* if there is no value or it is no document
    [] E.o = "bind"  -> UNCHANGED cvars /\ cache' = Put(cache, E.m, IF log = <<>> THEN Null ELSE IF Valid(Cur.v) THEN Cur.v ELSE Null)
    [] E.o = "update" -> /\ UNCHANGED cvars
                         /\ IF log = <<>> THEN E.r # "ok" /\ UNCHANGED cache
                            ELSE IF ~Valid(Cur.v) THEN E.r # "ok" /\ UNCHANGED cache
                            ELSE E.r = "ok" /\ cache' = [m \in DOMAIN cache |-> Cur.v]
    [] E.o = "var"   -> /\ UNCHANGED cvars /\ UNCHANGED cache
                        /\ IF cache[E.m].t # "o" THEN E.r # "ok"
                           ELSE IF E.m \notin DOMAIN cache[E.m].f THEN E.r # "ok"
                           ELSE E.r = "ok" /\ E.v = cache[E.m].f[E.m]
    [] E.o = "quiet" -> Quiet /\ Len(log) = Len(F) /\ UNCHANGED cache
    [] OTHER -> FALSE

Finished == i > Len(Evs)

Internal == \E p \in DOMAIN calls : \/ (Len(log) < Len(F) /\ F[Len(log) + 1].tseq = Len(log) /\ Commit(p, F[Len(log) + 1]))
                                    \/ Decline(p) \/ Refuse(p) \/ TooBig(p) \/ Read(p)

TraceNext == /\ ~Finished /\ UNCHANGED ti
             /\ (Event /\ i' = i + 1) \/ (Internal /\ i' = i /\ UNCHANGED cache)

TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, ti, i, cache>>

Report == /\ (Finished => PrintT(<<"ACC", ti>>))
          /\ (Len(Traces) = 1 => PrintT(<<"POS", i - 1>>))
=============================================================================
