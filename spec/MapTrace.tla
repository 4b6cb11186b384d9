------------------------------ MODULE MapTrace ------------------------------
EXTENDS Map, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i

TraceInit == \E t \in 1..Len(Traces) : ti = t /\ i = 1 /\ MapInit

Evs == Traces[ti].ev
E == Evs[i]

Event ==
  CASE E.o = "put"  -> Put(E.k, E.v, E.r)
    [] E.o = "del"  -> Del(E.k, E.r)
    [] E.o = "pop"  -> Pop(E.k, E.r, E.v)
    [] E.o = "get"  -> Get(E.k, E.r, E.v)
    [] E.o = "poke" -> Poke(E.k, E.v)
    [] E.o = "has"  -> Has(E.k, E.b)
    [] E.o = "size" -> Size(E.n, E.e)
    [] E.o = "iter" -> Iter(E.es)
    [] E.o = "reset" -> Clear
    [] E.o = "cmp"  -> Compare(E.a, E.b, E.s, E.t, E.h) /\ UNCHANGED m
    [] E.o = "big"  -> E.bad = 0 /\ E.n = E.want /\ UNCHANGED m
    [] OTHER -> FALSE

Finished == i > Len(Evs)

TraceNext == ~Finished /\ Event /\ i' = i + 1 /\ UNCHANGED ti

TraceSpec == TraceInit /\ [][TraceNext]_<<m, ti, i>>

Report == /\ (Finished => PrintT(<<"ACC", ti>>))
          /\ (Len(Traces) = 1 => PrintT(<<"POS", i - 1>>))
=============================================================================
