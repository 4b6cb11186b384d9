---------------------------- MODULE PacketTrace ----------------------------
EXTENDS Packet, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i

TraceInit == \E t \in 1..Len(Traces) : ti = t /\ i = 1 /\ PacketInit

Evs == Traces[ti].ev
E == Evs[i]

Event ==
  CASE E.o = "make"   -> Make(E.h, E.id, E.hs, E.pay)
    [] E.o = "fresh"  -> FreshId(E.id, E.cs)
    [] E.o = "cmake"  -> MakeFresh(E.h, E.id, E.cs, E.hs, E.pay)
    [] E.o = "derive" -> Derive(E.k, E.h, E.h2, E.e, E.r, E.dirty, E.n, E.m)
    [] E.o = "stats"  -> Stats(E.h, E.n, E.c, E.s)
    [] E.o = "obs"    -> Observe(E.h, E.id, E.hs, E.pay)
    [] E.o = "bag"    -> ObserveBag(E.h, E.id, E.hs, E.pay)
    [] E.o = "hdr"    -> Header(E.h, E.n, E.r, E.hdr)
    [] E.o = "it"     -> IterOpen(E.it, E.h)
    [] E.o = "next"   -> NextMatch(E.it, TRUE, "", E.r, E.hdr)
    [] E.o = "match"  -> NextMatch(E.it, FALSE, E.key, E.r, E.hdr)
    [] E.o = "num"    -> E.n = Len(obj[E.h].hs) /\ UNCHANGED pvars
    [] E.o = "released" -> E.n = 1 /\ UNCHANGED pvars   \* the deleter ran exactly once, after the last copy went
    [] E.o = "held"   -> E.n = 0 /\ UNCHANGED pvars
    [] OTHER -> FALSE

Finished == i > Len(Evs)

TraceNext == ~Finished /\ Event /\ i' = i + 1 /\ UNCHANGED ti

TraceSpec == TraceInit /\ [][TraceNext]_<<pvars, ti, i>>

Report == /\ (Finished => PrintT(<<"ACC", ti>>))
          /\ (Len(Traces) = 1 => PrintT(<<"POS", i - 1>>))
=============================================================================
