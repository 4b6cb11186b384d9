------------------------------ MODULE TreeTrace ------------------------------
(* Every operation is followed by a look at the whole tree. *)
EXTENDS Tree, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i

At(s) == {s[k] : k \in 1..Len(s)}
TreeOf(ns) == [q \in {n.p : n \in At(ns)} |-> CHOOSE n \in At(ns) : n.p = q]

TraceInit == \E t \in 1..Len(Traces) : ti = t /\ i = 1 /\ tree = TreeOf(Traces[t].cfg.tree)

Evs == Traces[ti].ev
E == Evs[i]
There == {n.p : n \in At(E.after)}
Gone == DOMAIN tree \ There
\* nothing new, nothing changed
Same == \A n \in At(E.after) : n.p \in DOMAIN tree /\ tree[n.p].t = n.t /\ tree[n.p].id = n.id

Event ==
  CASE E.o = "rmall" -> Same /\ RemoveAll(E.p, E.slash, E.ok, Gone, E.hard, FALSE)
    [] E.o = "rm"    -> Same /\ Remove(E.p, E.slash, E.ok, Gone, E.hard, E.lenient)
    [] E.o = "list"  -> Same /\ Gone = {} /\ List(E.p, E.ok, E.ents, E.done, E.hard)
    [] OTHER -> FALSE

Finished == i > Len(Evs)

TraceNext == ~Finished /\ UNCHANGED ti /\ Event /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<tree, ti, i>>

Report == /\ (Finished => PrintT(<<"ACC", ti>>))
          /\ (Len(Traces) = 1 => PrintT(<<"POS", i - 1>>))
=============================================================================
