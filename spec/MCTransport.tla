----------------------------- MODULE MCTransport -----------------------------
(* Exhaustive exploration of small transports.                               *)
EXTENDS Transport

CONSTANTS Sizes, ArenaSizes, MaxSeq, WithWait

VARIABLE hist    \* every frame ever committed: sequence number -> <<size, payload>>
mvars == <<tvars, hist>>

HandleOf(p) == IF p \in Handles THEN p ELSE 1

MCInit == \E s \in ArenaSizes : TInit(s, "shared") /\ hist = <<>>

\* remember what gets committed
Remember == hist' = IF com'.hi > Len(hist)
                    THEN hist \o [i \in 1..(com'.hi - Len(hist)) |->
                           LET f == FrameAt(com', Len(hist) + i) IN <<f.n, f.d>>]
                    ELSE hist

OneOutstanding(n, off) == ~Dirty \/ ~MustEvict(wrk, off, FH + n)

Ops(p) == LET h == HandleOf(p) IN
  \/ Lock(p, h) \/ Unlock(p, h) \/ Commit(p, h)
  \/ \E n \in Sizes : \E off \in Slots(wrk, n, asz) : ~Dirty /\ wrk.hi < MaxSeq /\ Alloc(p, h, n, off)
  \/ \E d \in 1..2 : ~IsEmpty(wrk) /\ TailF(wrk).d = -1 /\ Fill(p, h, d)
  \/ ~Dirty /\ ~IsEmpty(wrk) /\ Clear(p, h)
  \/ \E n \in ArenaSizes : Resize(p, h, n)
  \/ ~Dirty /\ (JumpHead(p, h) \/ JumpTail(p, h) \/ StepNext(p, h) \/ StepPrev(p, h))
  \/ WithWait /\ ~Dirty /\ \E k \in {"nonempty", "has_next"} : WaitCall(p, h, k, -1)
  \/ WithWait /\ ~Dirty /\ ShutdownCall(p, h)
  \/ WaitOk(p) \/ WaitShutdown(p) \/ ShutdownRet(p)
  \/ WithWait /\ Die(p)

MCNext == \E p \in Procs : Ops(p) /\ Remember
MCSpec == MCInit /\ [][MCNext]_mvars

LogsWellFormed == WellFormed(com, asz) /\ WellFormed(wrk, asz)

\* The retained frames are exactly the newest committed ones, unaltered.
SuffixOfHistory ==
  \A i \in 1..Len(com.fr) : com.fr[i].seq <= Len(hist) /\ hist[com.fr[i].seq] = <<com.fr[i].n, com.fr[i].d>>

\* Sequence numbers neither repeat nor skip; only the oldest frames disappear.
Monotone ==
  [][/\ com'.lo >= com.lo
     /\ com'.hi \in {com.hi, com.hi + 1}
     /\ \A i \in 1..Len(com'.fr) : com'.fr[i].seq <= com.hi => com'.fr[i] = FrameAt(com, com'.fr[i].seq)]_mvars

\* Only the holder changes anything.
OnlyHolderWrites == [][com' /= com => holder /= 0 /\ pc[holder].s = "cs"]_mvars

\* Uncommitted work never outlives its author's critical section.
CleanWhenFree == holder = 0 => wrk = com

CursorSane == \A h \in Handles : cur[h] <= com.hi

NoStuckWaiter == \A p \in Procs : pc[p].s \in {"wait", "shut"} /\ holder = 0 /\ ~MayBlock(p) => ENABLED (WaitOk(p) \/ WaitShutdown(p) \/ ShutdownRet(p))
=============================================================================
