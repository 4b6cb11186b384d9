------------------------------- MODULE Upgrade -------------------------------
(* A transport whose life began under the previous version of the format.    *)
(* That version kept the same two pages and the same frames, but no high     *)
(* water mark. Its users append, evict, give up and die as TransportImpl's   *)
(* do; then, at an instant when nobody uses it, somebody opens it with the   *)
(* present version: the current page is taken over into both pages of the    *)
(* new header, the space in use being taken for the whole arena, and from    *)
(* there the users are those of the present version.                         *)
EXTENDS TransportImpl

VARIABLE fmt    \* the version that last wrote the header

uvars == <<vars, fmt>>

UInit == Init /\ fmt = "old"

\* Only what the old pages record survives; which page was current does not matter any more.
TakenOver == [pg[ci] EXCEPT !.hwm = Arena]

\* Nobody is inside; what somebody dead left in the other page is lost, as are their pending stores.
UpgradeHdr ==
  /\ fmt = "old" /\ pc = "free"
  /\ fmt' = "new" /\ ci' = 1 /\ pg' = <<TakenOver, TakenOver>>
  /\ UNCHANGED <<mem, pend, pc, arg, hist>>

\* Whoever opens it later, or opens a transport of the present version, changes nothing.
UNext == UpgradeHdr \/ (Next /\ UNCHANGED fmt)

USpec == UInit /\ [][UNext]_uvars

-----------------------------------------------------------------------------
\* As CommittedIntact, the space in use being known only from above after an upgrade, and not at all before.
Intact ==
  /\ WellFormed(Com, Arena)
  /\ \A i \in 1..Len(Com.fr) : hist[Com.fr[i].seq] = <<Com.fr[i].n, Com.fr[i].d>>
  /\ ~PageEmpty(pg[ci]) => WalkBack(pg[ci].tail, Len(Com.fr)) = [i \in 1..Len(Com.fr) |-> Com.fr[i].seq]
  /\ Com.hi = Len(hist)
  /\ fmt = "new" => UsedSpace(Com) <= pg[ci].hwm /\ pg[ci].hwm <= Arena

\* The upgrade is invisible to readers.
UpgradeKeeps == [][fmt' /= fmt => Com' = Com /\ Wrk' = Com]_uvars

\* Once the log has been emptied, the space in use is known exactly again.
EmptyExact == fmt = "new" /\ Com.fr = <<>> /\ Com.hi > 0 /\ pg[ci].hwm /= Arena => pg[ci].hwm = HDR
=============================================================================
