---------------------------- MODULE TransportCore ----------------------------
(* The ring of frames of one transport, as pure operators.                   *)
(*                                                                           *)
(* A "log" is a record [lo, hi, fr]: lo and hi are the lowest and highest    *)
(* sequence numbers, fr the retained frames, oldest first. A frame is        *)
(* [seq, off, n, d]: its sequence number, its byte offset in the arena, its  *)
(* payload size and an abstract payload identity.                            *)
EXTENDS Integers, Sequences, FiniteSets

HDR == 144        \* first byte available to frames
FH  == 40         \* bytes of bookkeeping in front of each payload
AL  == 16         \* alignment of frames

Align(x) == ((x + AL - 1) \div AL) * AL

EmptyLog == [lo |-> 0, hi |-> 0, fr |-> <<>>]

IsEmpty(l)   == l.fr = <<>>
HeadF(l)     == l.fr[1]
TailF(l)     == l.fr[Len(l.fr)]
EndOf(f)     == f.off + FH + f.n
FrameAt(l, s) == l.fr[s - l.lo + 1]
Retained(l, s) == ~IsEmpty(l) /\ l.lo <= s /\ s <= l.hi

SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x

\* Bytes of the arena in use: up to the end of the furthest retained frame.
UsedSpace(l) == IF IsEmpty(l) THEN HDR ELSE SetMax({EndOf(l.fr[i]) : i \in 1..Len(l.fr)})

\* Offsets at which a frame with an n byte payload may be placed (without regard to what is there). A frame that
\* would end exactly at the end of the arena may be put there or wrapped to the start.
\* n < 0 stands for a size larger than any arena.
Slots(l, n, asz) ==
  IF n < 0 THEN {}
  ELSE LET fs  == FH + n
           nxt == Align(EndOf(TailF(l)))
           wrap == IF HDR + fs <= asz THEN {HDR} ELSE {}
       IN  IF IsEmpty(l) THEN wrap
           ELSE IF nxt + fs < asz THEN {nxt}
           ELSE IF nxt + fs = asz THEN {nxt} \cup wrap
           ELSE wrap

\* Does putting fs bytes at off require the removal of the oldest frame?
\* Either it is in the way, or it is left over, past the wrap, ahead of a ring that starts over.
MustEvict(l, off, fs) ==
  /\ ~IsEmpty(l)
  /\ \/ off < EndOf(HeadF(l)) /\ HeadF(l).off < off + fs
     \/ TailF(l).off < HeadF(l).off /\ off = HDR

DropHead(l) == [lo |-> l.lo + 1, hi |-> l.hi, fr |-> Tail(l.fr)]

\* The successive logs while room is made for fs bytes at off.
RECURSIVE EvictChain(_, _, _)
EvictChain(l, off, fs) ==
  IF MustEvict(l, off, fs)
  THEN LET m == DropHead(l) IN <<m>> \o EvictChain(m, off, fs)
  ELSE <<>>

AfterEvict(l, off, fs) == LET c == EvictChain(l, off, fs) IN IF c = <<>> THEN l ELSE c[Len(c)]

AppendFrame(l, off, n, d) ==
  [lo |-> IF l.lo = 0 THEN l.hi + 1 ELSE l.lo,
   hi |-> l.hi + 1,
   fr |-> Append(l.fr, [seq |-> l.hi + 1, off |-> off, n |-> n, d |-> d])]

\* The payload of the newest frame is filled in after it was allocated.
FillTail(l, d) == [l EXCEPT !.fr[Len(l.fr)].d = d]

Cleared(l) == [lo |-> l.hi + 1, hi |-> l.hi, fr |-> <<>>]

-----------------------------------------------------------------------------
(* Cursors: a cursor is the sequence number it points to, 0 if never set.   *)

IterValid(l, c) == l.lo <= c /\ c <= l.hi
HasNext(l, c)   == ~IsEmpty(l) /\ c < l.hi
HasPrev(l, c)   == ~IsEmpty(l) /\ c > l.lo
NextOf(l, c)    == IF c < l.lo THEN l.lo ELSE c + 1
PrevOf(l, c)    == c - 1

-----------------------------------------------------------------------------
(* Well-formedness, checked as an invariant of the state machine.            *)

WellFormed(l, asz) ==
  /\ IsEmpty(l) => (l.lo = l.hi + 1 \/ (l.lo = 0 /\ l.hi = 0))
  /\ ~IsEmpty(l) => l.hi = l.lo + Len(l.fr) - 1 /\ l.lo >= 1
  /\ \A i \in 1..Len(l.fr) :
        LET f == l.fr[i] IN
        /\ f.seq = l.lo + i - 1
        /\ f.off >= HDR /\ f.off % AL = 0
        /\ EndOf(f) <= asz
        /\ \A j \in 1..Len(l.fr) : i /= j => (EndOf(f) <= l.fr[j].off \/ EndOf(l.fr[j]) <= f.off)

\* Everything that can have been committed, at any instant of a script of operations run inside one critical
\* section: the possible <<committed log, arena size>> a death may leave behind.
RECURSIVE CrashStates(_, _, _, _)
CrashStates(c, w, asz, ops) ==
  {<<c, asz>>} \cup
  (IF ops = <<>> THEN {}
   ELSE LET op == Head(ops) IN
    CASE op.o = "alloc" ->
           IF Slots(w, op.n, asz) = {} THEN CrashStates(c, w, asz, Tail(ops))
           ELSE UNION { LET ch == EvictChain(w, off, FH + op.n)
                            w2 == AfterEvict(w, off, FH + op.n)
                            c2 == IF ch = <<>> THEN c ELSE w2
                        IN  {<<ch[i], asz>> : i \in 1..Len(ch)}
                            \cup CrashStates(c2, AppendFrame(w2, off, op.n, op.d), asz, Tail(ops))
                        : off \in Slots(w, op.n, asz) }
      [] op.o = "commit" -> CrashStates(w, w, asz, Tail(ops))
      [] op.o = "clear"  -> CrashStates(Cleared(w), Cleared(w), asz, Tail(ops))
      [] op.o = "resize" -> IF op.n < UsedSpace(w) THEN CrashStates(c, w, asz, Tail(ops))
                            ELSE CrashStates(c, w, op.n, Tail(ops))
      [] op.o = "unlock" -> CrashStates(c, c, asz, Tail(ops))
      [] OTHER -> CrashStates(c, w, asz, Tail(ops)))
=============================================================================
