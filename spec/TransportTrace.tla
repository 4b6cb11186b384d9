--------------------------- MODULE TransportTrace ---------------------------
(* Decides whether recorded executions of the real transport are behaviours *)
(* of Transport. Each line of the trace file is one execution.               *)
EXTENDS Transport, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i
allvars == <<tvars, ti, i>>

Has(e, f) == f \in DOMAIN e

\* A pre-existing arena (e.g. one left by another version) may be given as the starting point.
StartLog(c) == IF Has(c, "lo") THEN [lo |-> c.lo, hi |-> c.hi, fr |-> c.fr] ELSE EmptyLog

TraceInit ==
  \E t \in 1..Len(Traces) :
     LET c == Traces[t].cfg IN
     /\ ti = t /\ i = 1
     /\ asz = c.asz /\ com = StartLog(c) /\ wrk = StartLog(c) /\ holder = 0
     /\ cur = [h \in Handles |-> 0] /\ sd = [h \in Handles |-> FALSE]
     /\ pc = [p \in Procs |-> Idle] /\ mode = c.mode

Evs == Traces[ti].ev
E == Evs[i]

\* a migrated arena may over-report the space in use
Slack == Has(Traces[ti].cfg, "slack") /\ Traces[ti].cfg.slack

Same == UNCHANGED tvars

\* A query: changes nothing, its answer must be v.
Query(p, h, ans, v) == InCS(p, h) /\ ans = v /\ Same

Bool(b) == IF b THEN 1 ELSE 0

Op ==
  LET p == E.p h == E.h o == E.o IN
  CASE o = "lock"     -> Lock(p, h)
    [] o = "unlock"   -> Unlock(p, h)
    [] o = "open"     -> pc[p] = Idle /\ cur[h] = 0 /\ Same       \* a new handle
    [] o = "alloc"    -> IF E.r = "ok" THEN /\ Alloc(p, h, E.n, E.off)
                                            /\ E.seq = wrk.hi + 1 /\ E.sz = E.n
                         ELSE E.r = "LARGE" /\ AllocRefused(p, h, E.n)
    [] o = "evicts"   -> /\ InCS(p, h) /\ Same
                         /\ IF E.r = "ok" THEN \E off \in Slots(wrk, E.n, asz) : E.v = Bool(MustEvict(wrk, off, FH + E.n))
                            ELSE E.r = "LARGE" /\ Slots(wrk, E.n, asz) = {}
    [] o = "fill"     -> Fill(p, h, E.d)
    [] o = "commit"   -> E.r = "ok" /\ Commit(p, h)
    [] o = "clear"    -> E.r = "ok" /\ Clear(p, h)
    [] o = "resize"   -> IF Slack THEN IF E.r = "ok" THEN Resize(p, h, E.n) ELSE E.r = "INVAL" /\ InCS(p, h) /\ Same
                         ELSE IF E.r = "ok" THEN Resize(p, h, E.n) ELSE E.r = "INVAL" /\ ResizeRefused(p, h, E.n)
    [] o = "empty"    -> Query(p, h, E.v, Bool(IsEmpty(wrk)))
    [] o = "nonempty" -> Query(p, h, E.v, Bool(~IsEmpty(wrk)))
    [] o = "seq_low"  -> Query(p, h, E.v, wrk.lo)
    [] o = "seq_high" -> Query(p, h, E.v, wrk.hi)
    [] o = "used"     -> IF Slack THEN InCS(p, h) /\ E.v >= UsedSpace(wrk) /\ Same ELSE Query(p, h, E.v, UsedSpace(wrk))
    [] o = "valid"    -> Query(p, h, E.v, Bool(IterValid(wrk, cur[h])))
    [] o = "has_next" -> Query(p, h, E.v, Bool(HasNext(wrk, cur[h])))
    [] o = "has_prev" -> Query(p, h, E.v, Bool(HasPrev(wrk, cur[h])))
    [] o = "jump_head" -> IF E.r = "ok" THEN JumpHead(p, h) ELSE E.r = "RANGE" /\ InCS(p, h) /\ IsEmpty(wrk) /\ Same
    [] o = "jump_tail" -> IF E.r = "ok" THEN JumpTail(p, h) ELSE E.r = "RANGE" /\ InCS(p, h) /\ IsEmpty(wrk) /\ Same
    [] o = "next"     -> IF E.r = "ok" THEN StepNext(p, h) ELSE E.r = "RANGE" /\ InCS(p, h) /\ ~HasNext(wrk, cur[h]) /\ Same
    [] o = "prev"     -> IF E.r = "ok" THEN StepPrev(p, h) ELSE E.r = "RANGE" /\ InCS(p, h) /\ ~HasPrev(wrk, cur[h]) /\ Same
    [] o = "jump"     -> \* to the offset of retained frame number E.s (E.s = 0: to a place that cannot hold a frame)
                         IF E.s > 0 THEN /\ E.r = "ok" /\ JumpTo(p, h, E.s) /\ FrameAt(wrk, E.s).off = E.off
                         ELSE E.r = "RANGE" /\ InCS(p, h) /\ (E.off % AL /= 0 \/ E.off < 0 \/ E.off + FH > asz) /\ Same
    [] o = "frame"    -> IF E.r = "ok"
                         THEN /\ Retained(wrk, cur[h])
                              /\ LET f == FrameAt(wrk, cur[h]) IN E.seq = f.seq /\ E.off = f.off /\ E.sz = f.n /\ E.d = f.d
                              /\ InCS(p, h) /\ Same
                         ELSE E.r = "ESPIPE" /\ InCS(p, h) /\ cur[h] < wrk.lo /\ Same
    [] o = "dump"     -> \* everything readable, oldest to newest
                         /\ InCS(p, h)
                         /\ Len(E.fr) = Len(wrk.fr)
                         /\ \A j \in 1..Len(wrk.fr) : LET f == wrk.fr[j] g == E.fr[j] IN g.seq = f.seq /\ g.n = f.n /\ g.d = f.d /\ g.off = f.off
                         /\ E.lo = wrk.lo /\ E.hi = wrk.hi
                         /\ Same
    [] o = "died"     -> \* a participant died somewhere inside the script E.ops
                         /\ \E x \in CrashStates(com, com, asz, E.ops) : com' = x[1] /\ wrk' = x[1] /\ asz' = x[2]
                         /\ UNCHANGED <<holder, cur, sd, pc, mode>>
    [] o = "peek"     -> \* what a read-only or exclusive user that ignores locks finds
                         /\ holder = 0
                         /\ Len(E.fr) = Len(com.fr)
                         /\ \A j \in 1..Len(com.fr) : LET f == com.fr[j] g == E.fr[j] IN g.seq = f.seq /\ g.n = f.n /\ g.d = f.d /\ g.off = f.off
                         /\ Same
    \* --- concurrency
    [] o = "wait"     -> WaitCall(p, h, E.k, E.dl)
    [] o = "waitnow"  -> \* returned without sleeping
                         /\ InCS(p, h) /\ Same
                         /\ CASE E.r = "ok" -> Pred(E.k, h, wrk) /\ ~sd[h]
                              [] E.r = "ESHUTDOWN" -> sd[h]
                              [] E.r = "ETIMEDOUT" -> E.dl >= 0 /\ E.t >= E.dl /\ ~sd[h]
                              [] OTHER -> FALSE
    [] o = "waitcall" -> \* whether it sleeps is not visible from outside
                         /\ InCS(p, h)
                         /\ pc' = [pc EXCEPT ![p] = [s |-> "asking", h |-> h, k |-> E.k, dl |-> E.dl]]
                         /\ UNCHANGED <<asz, com, wrk, holder, cur, sd, mode>>
    [] o = "wret"     -> IF pc[p].s = "asking"
                         THEN /\ CASE E.r = "ok" -> Pred(pc[p].k, h, wrk) /\ ~sd[h]
                                   [] E.r = "ESHUTDOWN" -> sd[h]
                                   [] E.r = "ETIMEDOUT" -> pc[p].dl >= 0 /\ E.t >= pc[p].dl
                                   [] OTHER -> FALSE
                              /\ pc' = [pc EXCEPT ![p] = [s |-> "cs", h |-> h]]
                              /\ UNCHANGED <<asz, com, wrk, holder, cur, sd, mode>>
                         ELSE CASE E.r = "ok" -> WaitOk(p)
                                [] E.r = "ESHUTDOWN" -> WaitShutdown(p)
                                [] E.r = "ETIMEDOUT" -> WaitTimeout(p, E.t)
                                [] OTHER -> FALSE
    [] o = "shut"     -> \* likewise
                         /\ InCS(p, h)
                         /\ sd' = [sd EXCEPT ![h] = TRUE]
                         /\ pc' = [pc EXCEPT ![p] = [s |-> "shutting", h |-> h]]
                         /\ UNCHANGED <<asz, com, wrk, holder, cur, mode>>
    [] o = "shutret"  -> IF pc[p].s = "shutting"
                         THEN /\ Waiters(h) = {} /\ pc' = [pc EXCEPT ![p] = [s |-> "cs", h |-> h]]
                              /\ UNCHANGED <<asz, com, wrk, holder, cur, sd, mode>>
                         ELSE ShutdownRet(p)
    [] o = "die"      -> \* in the middle of E.pend, if that is not empty
                         IF InCS(p, h)
                         THEN /\ \E x \in CrashStates(com, wrk, asz, E.pend) : com' = x[1] /\ wrk' = x[1] /\ asz' = x[2]
                              /\ pc' = [pc EXCEPT ![p] = [s |-> "dead"]]
                              /\ holder' = 0 /\ UNCHANGED <<cur, sd, mode>>
                         ELSE Die(p)
    [] o = "tick"     -> (\A q \in {E.asleep[k] : k \in 1..Len(E.asleep)} : MaySleepTo(q, E.t)) /\ Same
    [] o = "quiet"    -> /\ \A b \in {E.blocked[k] : k \in 1..Len(E.blocked)} : MayBlock(b)
                         /\ Same
    [] OTHER -> FALSE

Done == i > Len(Evs)

\* Going to sleep: p gives up the lock.
Sleep == \E p \in Procs :
  /\ holder' = 0 /\ wrk' = com
  /\ \/ /\ pc[p].s = "asking" /\ ~sd[pc[p].h] /\ ~Pred(pc[p].k, pc[p].h, wrk)
        /\ pc' = [pc EXCEPT ![p].s = "wait"]
     \/ /\ pc[p].s = "shutting"
        /\ pc' = [pc EXCEPT ![p].s = "shut"]
  /\ UNCHANGED <<asz, com, cur, sd, mode>>

TraceNext == ~Done /\ ((Op /\ i' = i + 1) \/ (Sleep /\ i' = i)) /\ UNCHANGED ti

TraceSpec == TraceInit /\ [][TraceNext]_allvars

Report == /\ (Done => PrintT(<<"ACC", ti>>))
          /\ (Len(Traces) = 1 => PrintT(<<"POS", i - 1>>))

LogsWellFormed == WellFormed(com, asz) /\ WellFormed(wrk, asz)
=============================================================================
