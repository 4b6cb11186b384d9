---------------------------- MODULE TransportImpl ----------------------------
(* How the shared memory of a transport represents its log, one store at a    *)
(* time: two pages of bookkeeping of which one is current, and frames linked  *)
(* by offsets. The stores of one phase happen in any order; a death may come  *)
(* between any two of them. What anybody finds through the current page is    *)
(* the committed log of Transport.                                            *)
EXTENDS TransportCore, TLC

CONSTANTS Sizes, Arena, MaxSeq

VARIABLES
  pg,      \* the two pages
  ci,      \* which of them is current
  mem,     \* offset -> frame header and payload, or Garbage
  pend,    \* stores of the present phase still to be made
  pc,      \* the phase
  arg,     \* the allocation being made
  hist     \* what was ever committed: sequence -> <<size, payload>>

vars == <<pg, ci, mem, pend, pc, arg, hist>>

Garbage == [seq |-> -1, off |-> -1, next |-> -1, prev |-> -1, n |-> 0, d |-> -2]
Offs == {o \in HDR..Arena : o % AL = 0}

Fields == {"lo", "hi", "head", "tail", "hwm"}
ZeroPage == [lo |-> 0, hi |-> 0, head |-> 0, tail |-> 0, hwm |-> HDR]
NoArg == [n |-> 0, off |-> 0, d |-> 0]

W == 3 - ci    \* the other page

\* The log that a page describes.
RECURSIVE Walk(_, _)
Walk(o, k) == IF k = 0 THEN <<>>
              ELSE IF o \notin Offs \/ mem[o] = Garbage THEN <<[seq |-> -1, off |-> 0, n |-> 0, d |-> 0]>>
              ELSE <<[seq |-> mem[o].seq, off |-> mem[o].off, n |-> mem[o].n, d |-> mem[o].d]>> \o Walk(mem[o].next, k - 1)

PageEmpty(p) == p.hi = 0 \/ p.lo > p.hi
LogOf(p) == [lo |-> p.lo, hi |-> p.hi, fr |-> IF PageEmpty(p) THEN <<>> ELSE Walk(p.head, p.hi - p.lo + 1)]
Com == LogOf(pg[ci])
Wrk == LogOf(pg[W])

\* The same log, read backwards.
RECURSIVE WalkBack(_, _)
WalkBack(o, k) == IF k = 0 THEN <<>>
                  ELSE IF o \notin Offs \/ mem[o] = Garbage THEN <<-1>>
                  ELSE WalkBack(mem[o].prev, k - 1) \o <<mem[o].seq>>

Init == /\ pg = <<ZeroPage, ZeroPage>> /\ ci = 1 /\ mem = [o \in Offs |-> Garbage]
        /\ pend = {} /\ pc = "free" /\ arg = NoArg /\ hist = <<>>

PageStore(i, f, v) == [t |-> "page", a |-> i, f |-> f, v |-> v]
MemStore(o, f, v)  == [t |-> "mem", a |-> o, f |-> f, v |-> v]
CopyStores(from, to) == {PageStore(to, f, pg[from][f]) : f \in Fields}

\* One store.
Do(s) ==
  /\ s \in pend /\ pend' = pend \ {s}
  /\ IF s.t = "page" THEN pg' = [pg EXCEPT ![s.a][s.f] = s.v] /\ UNCHANGED mem
                     ELSE mem' = [mem EXCEPT ![s.a][s.f] = s.v] /\ UNCHANGED pg
  /\ UNCHANGED <<ci, pc, arg, hist>>

Goto(l, stores) == pc' = l /\ pend' = stores

\* Taking the lock discards what somebody else left unfinished.
Lock == /\ pc = "free" /\ Goto("cs", CopyStores(ci, W))
        /\ UNCHANGED <<pg, ci, mem, arg, hist>>

Unlock == /\ pc = "cs" /\ pend = {} /\ Goto("unlocking", CopyStores(ci, W))
          /\ UNCHANGED <<pg, ci, mem, arg, hist>>

Unlocked == /\ pc = "unlocking" /\ pend = {} /\ Goto("free", {}) /\ arg' = NoArg
            /\ UNCHANGED <<pg, ci, mem, hist>>

\* An allocation first removes what is in the way, one frame and one commit at a time.
Alloc(n, off, d) ==
  /\ pc = "cs" /\ pend = {} /\ arg = NoArg /\ pg[W].hi < MaxSeq
  /\ off \in Slots(Wrk, n, Arena)
  /\ arg' = [n |-> n, off |-> off, d |-> d] /\ Goto("evict", {})
  /\ UNCHANGED <<pg, ci, mem, hist>>

EvictOne ==
  /\ pc = "evict" /\ pend = {} /\ MustEvict(Wrk, arg.off, FH + arg.n)
  /\ LET p == pg[W]
         h == mem[p.head]
     IN  Goto("evicted", {PageStore(W, "lo", p.lo + 1)} \cup
           (IF p.head = p.tail
            THEN {PageStore(W, "head", 0), PageStore(W, "tail", 0), PageStore(W, "hwm", HDR)}
            ELSE {PageStore(W, "head", h.next)} \cup
                 (IF p.hwm = p.head + FH + h.n
                  THEN {PageStore(W, "hwm", p.tail + FH + mem[p.tail].n)} ELSE {})))
  /\ UNCHANGED <<pg, ci, mem, arg, hist>>

\* The commit is the single store that makes the other page the current one.
Flip(from, to) ==
  /\ pc = from /\ pend = {}
  /\ ci' = W
  /\ hist' = IF pg[W].hi > Len(hist) THEN Append(hist, <<mem[pg[W].tail].n, mem[pg[W].tail].d>>) ELSE hist
  /\ pc' = to /\ pend' = {PageStore(ci, f, pg[W][f]) : f \in Fields}
  /\ UNCHANGED <<pg, mem, arg>>

Scribble(off, fs) == [o \in Offs |-> IF mem[o] /= Garbage /\ o /= off /\ off < o + FH + mem[o].n /\ o < off + fs THEN Garbage ELSE mem[o]]

\* With the room made, the frame's header is written and the page updated.
Place ==
  /\ pc = "evict" /\ pend = {} /\ ~MustEvict(Wrk, arg.off, FH + arg.n)
  /\ mem' = [Scribble(arg.off, FH + arg.n) EXCEPT ![arg.off] = [Garbage EXCEPT !.n = arg.n, !.off = arg.off, !.seq = 0, !.next = 0, !.prev = 0]]
  /\ LET p == pg[W]
         e == arg.off + FH + arg.n
     IN  Goto("placed",
           {MemStore(arg.off, "seq", p.hi + 1), PageStore(W, "hi", p.hi + 1), PageStore(W, "tail", arg.off)}
           \cup (IF p.lo = 0 THEN {PageStore(W, "lo", p.hi + 1)} ELSE {})
           \cup (IF p.head = 0 THEN {PageStore(W, "head", arg.off)} ELSE {})
           \cup (IF p.tail /= 0 THEN {MemStore(p.tail, "next", arg.off), MemStore(arg.off, "prev", p.tail)} ELSE {})
           \cup (IF p.hwm < e THEN {PageStore(W, "hwm", e)} ELSE {}))
  /\ UNCHANGED <<pg, ci, arg, hist>>

\* Then the payload ... and the commit, or no commit.
Fill ==
  /\ pc = "placed" /\ pend = {} /\ Goto("filled", {MemStore(arg.off, "d", arg.d)})
  /\ UNCHANGED <<pg, ci, mem, arg, hist>>

Abandon ==
  /\ pc = "filled" /\ pend = {} /\ Goto("unlocking", CopyStores(ci, W))
  /\ UNCHANGED <<pg, ci, mem, arg, hist>>

Clear ==
  /\ pc = "cs" /\ pend = {} /\ arg = NoArg
  /\ Goto("cleared", {PageStore(W, "lo", pg[W].hi + 1), PageStore(W, "head", 0), PageStore(W, "tail", 0), PageStore(W, "hwm", HDR)})
  /\ UNCHANGED <<pg, ci, mem, arg, hist>>

Die ==
  /\ pc /= "free"
  /\ Goto("free", {}) /\ arg' = NoArg
  /\ UNCHANGED <<pg, ci, mem, hist>>

Committed == /\ pc = "committed" /\ pend = {} /\ Goto("cs", {}) /\ arg' = NoArg
             /\ UNCHANGED <<pg, ci, mem, hist>>

Next ==
  \/ Lock \/ Unlock \/ Unlocked \/ Clear \/ EvictOne \/ Place \/ Fill \/ Abandon \/ Committed \/ Die
  \/ \E s \in pend : Do(s)
  \/ \E n \in Sizes : \E off \in Slots(Wrk, n, Arena) : Alloc(n, off, pg[W].hi + 10)
  \/ Flip("evicted", "evict") \/ Flip("filled", "committed") \/ Flip("cleared", "committed")

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* At every instant, whatever was done or left undone:
CommittedIntact ==
  /\ WellFormed(Com, Arena)
  /\ \A i \in 1..Len(Com.fr) : hist[Com.fr[i].seq] = <<Com.fr[i].n, Com.fr[i].d>>
  /\ ~PageEmpty(pg[ci]) => WalkBack(pg[ci].tail, Len(Com.fr)) = [i \in 1..Len(Com.fr) |-> Com.fr[i].seq]
  /\ pg[ci].hwm = UsedSpace(Com)
  /\ Com.hi = Len(hist)

\* A user that has just got the lock sees exactly the committed log.
CleanStart == pc = "cs" /\ pend = {} => Wrk = Com

\* The committed log changes only as a Transport's does: one frame more, the oldest gone, or all gone.
Steps ==
  [][Com' /= Com =>
       \/ Com.fr /= <<>> /\ Com' = DropHead(Com)
       \/ Com' = Cleared(Com)
       \/ Com'.hi = Com.hi + 1 /\ Len(Com'.fr) = Len(Com.fr) + 1 /\ SubSeq(Com'.fr, 1, Len(Com.fr)) = Com.fr]_vars
=============================================================================
