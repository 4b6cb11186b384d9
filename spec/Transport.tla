------------------------------ MODULE Transport ------------------------------
(* One transport used by several participants. A participant p works through *)
(* a handle h (handles may be shared by the threads of one process). All     *)
(* access happens between Lock and Unlock; Wait and Shutdown give the lock   *)
(* up while they sleep.                                                      *)
EXTENDS TransportCore, TLC

CONSTANTS Procs, Handles

VARIABLES
  asz,     \* size of the arena
  com,     \* the committed log
  wrk,     \* what the holder of the lock sees: com plus its uncommitted allocation
  holder,  \* participant holding the lock, 0 if none
  cur,     \* handle -> cursor
  sd,      \* handle -> shut down?
  pc,      \* participant -> what it is doing
  mode     \* "shared" or "exclusive" (exclusive: locking is a no-op, nothing is rolled back)

tvars == <<asz, com, wrk, holder, cur, sd, pc, mode>>

Idle == [s |-> "idle"]

TInit(size, m) ==
  /\ asz = size /\ com = EmptyLog /\ wrk = EmptyLog /\ holder = 0
  /\ cur = [h \in Handles |-> 0] /\ sd = [h \in Handles |-> FALSE]
  /\ pc = [p \in Procs |-> Idle] /\ mode = m

InCS(p, h) == holder = p /\ pc[p].s = "cs" /\ pc[p].h = h

Fresh == IF mode = "exclusive" THEN wrk ELSE com

Lock(p, h) ==
  /\ pc[p] = Idle /\ holder = 0
  /\ holder' = p /\ wrk' = Fresh /\ pc' = [pc EXCEPT ![p] = [s |-> "cs", h |-> h]]
  /\ UNCHANGED <<asz, com, cur, sd, mode>>

Unlock(p, h) ==
  /\ InCS(p, h)
  /\ holder' = 0 /\ wrk' = Fresh /\ pc' = [pc EXCEPT ![p] = Idle]
  /\ UNCHANGED <<asz, com, cur, sd, mode>>

Dirty == wrk /= com

Alloc(p, h, n, off) ==
  /\ InCS(p, h) /\ off \in Slots(wrk, n, asz)
  /\ LET w2 == AfterEvict(wrk, off, FH + n) IN
       /\ com' = IF w2 = wrk THEN com ELSE w2
       /\ wrk' = AppendFrame(w2, off, n, -1)
  /\ UNCHANGED <<asz, holder, cur, sd, pc, mode>>

AllocRefused(p, h, n) ==
  /\ InCS(p, h) /\ Slots(wrk, n, asz) = {}
  /\ UNCHANGED tvars

Fill(p, h, d) ==
  /\ InCS(p, h) /\ Dirty /\ ~IsEmpty(wrk)
  /\ wrk' = FillTail(wrk, d)
  /\ UNCHANGED <<asz, com, holder, cur, sd, pc, mode>>

Commit(p, h) ==
  /\ InCS(p, h)
  /\ com' = wrk
  /\ UNCHANGED <<asz, wrk, holder, cur, sd, pc, mode>>

Clear(p, h) ==
  /\ InCS(p, h)
  /\ com' = Cleared(wrk) /\ wrk' = Cleared(wrk)
  /\ UNCHANGED <<asz, holder, cur, sd, pc, mode>>

Resize(p, h, n) ==
  /\ InCS(p, h) /\ n >= UsedSpace(wrk)
  /\ asz' = n
  /\ UNCHANGED <<com, wrk, holder, cur, sd, pc, mode>>

ResizeRefused(p, h, n) ==
  /\ InCS(p, h) /\ n < UsedSpace(wrk)
  /\ UNCHANGED tvars

SetCur(h, c) == cur' = [cur EXCEPT ![h] = c] /\ UNCHANGED <<asz, com, wrk, holder, sd, pc, mode>>

JumpHead(p, h) == InCS(p, h) /\ ~IsEmpty(wrk) /\ SetCur(h, wrk.lo)
JumpTail(p, h) == InCS(p, h) /\ ~IsEmpty(wrk) /\ SetCur(h, wrk.hi)
StepNext(p, h) == InCS(p, h) /\ HasNext(wrk, cur[h]) /\ SetCur(h, NextOf(wrk, cur[h]))
StepPrev(p, h) == InCS(p, h) /\ HasPrev(wrk, cur[h]) /\ SetCur(h, PrevOf(wrk, cur[h]))
JumpTo(p, h, s) == InCS(p, h) /\ Retained(wrk, s) /\ SetCur(h, s)

-----------------------------------------------------------------------------
(* Waiting                                                                   *)

Pred(k, h, l) == CASE k = "empty" -> IsEmpty(l) [] k = "nonempty" -> ~IsEmpty(l) [] k = "has_next" -> HasNext(l, cur[h])

\* The caller gives up the lock. dl is its deadline, -1 for none.
WaitCall(p, h, k, dl) ==
  /\ InCS(p, h) /\ ~sd[h] /\ ~Pred(k, h, wrk)
  /\ holder' = 0 /\ wrk' = com
  /\ pc' = [pc EXCEPT ![p] = [s |-> "wait", h |-> h, k |-> k, dl |-> dl]]
  /\ UNCHANGED <<asz, com, cur, sd, mode>>

\* Sleeping calls come back holding the lock again, and seeing committed data only.
Resume(p, h) ==
  /\ holder = 0 /\ holder' = p /\ wrk' = com
  /\ pc' = [pc EXCEPT ![p] = [s |-> "cs", h |-> h]]
  /\ UNCHANGED <<asz, com, cur, sd, mode>>

WaitOk(p)       == pc[p].s = "wait" /\ Pred(pc[p].k, pc[p].h, com) /\ Resume(p, pc[p].h)
WaitShutdown(p) == pc[p].s = "wait" /\ sd[pc[p].h] /\ Resume(p, pc[p].h)
WaitTimeout(p, now) == pc[p].s = "wait" /\ pc[p].dl >= 0 /\ now >= pc[p].dl /\ Resume(p, pc[p].h)

Waiters(h) == {p \in Procs : pc[p].s = "wait" /\ pc[p].h = h}

ShutdownCall(p, h) ==
  /\ InCS(p, h)
  /\ sd' = [sd EXCEPT ![h] = TRUE]
  /\ holder' = 0 /\ wrk' = com
  /\ pc' = [pc EXCEPT ![p] = [s |-> "shut", h |-> h]]
  /\ UNCHANGED <<asz, com, cur, mode>>

ShutdownRet(p) == pc[p].s = "shut" /\ Waiters(pc[p].h) = {} /\ Resume(p, pc[p].h)

\* Death. What the dead participant had not committed is gone.
Die(p) ==
  /\ pc[p].s /= "dead"
  /\ pc' = [pc EXCEPT ![p] = [s |-> "dead"]]
  /\ IF holder = p THEN holder' = 0 /\ wrk' = com ELSE UNCHANGED <<holder, wrk>>
  /\ UNCHANGED <<asz, com, cur, sd, mode>>

\* May p be asleep while time passes to t?
MaySleepTo(p, t) == pc[p].s = "wait" => (pc[p].dl < 0 \/ pc[p].dl >= t \/ holder /= 0)

\* A participant may sleep forever only if nothing entitles it to go on.
MayBlock(p) ==
  CASE pc[p].s = "wait" -> \/ ~Pred(pc[p].k, pc[p].h, com) /\ ~sd[pc[p].h] /\ pc[p].dl < 0
                           \/ holder /= 0
    [] pc[p].s = "shut" -> Waiters(pc[p].h) /= {} \/ holder /= 0
    [] pc[p].s = "idle" -> holder /= 0
    [] OTHER -> FALSE
=============================================================================
