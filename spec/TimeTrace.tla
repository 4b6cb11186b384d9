------------------------------ MODULE TimeTrace ------------------------------
EXTENDS Time, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i

TraceInit == \E t \in 1..Len(Traces) : ti = t /\ i = 1

Evs == Traces[ti].ev
E == Evs[i]

Event ==
  CASE E.o = "mstr"   -> PrintMono(E.t, E.r, E.s)
    [] E.o = "mparse" -> ParseMono(E.s, E.r, E.t)
    [] E.o = "madd"   -> AddMono(E.t, E.d, E.r, E.u)
    [] E.o = "msub"   -> SubMono(E.t, E.d, E.r, E.u)
    [] E.o = "mcmp"   -> CompareMono(E.a, E.b, E.lt, E.le, E.eq, E.ne, E.ge, E.gt)
    [] E.o = "wstr"   -> PrintWall(E.w, E.r, E.s)
    [] E.o = "wparse" -> ParseWall(E.s, E.r, E.w)
    [] OTHER -> FALSE

Finished == i > Len(Evs)

TraceNext == ~Finished /\ Event /\ i' = i + 1 /\ UNCHANGED ti

TraceSpec == TraceInit /\ [][TraceNext]_<<ti, i>>

Report == /\ (Finished => PrintT(<<"ACC", ti>>))
          /\ (Len(Traces) = 1 => PrintT(<<"POS", i - 1>>))
=============================================================================
