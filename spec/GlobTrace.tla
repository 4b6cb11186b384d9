------------------------------ MODULE GlobTrace ------------------------------
EXTENDS Glob, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i

TraceInit == \E t \in 1..Len(Traces) : ti = t /\ i = 1

Evs == Traces[ti].ev
E == Evs[i]

Event ==
  CASE E.o = "try" -> Try(E.root, E.p, E.s, E.rp, E.rs, E.yes)
       \* one pattern against all the paths of the trace; m: 1 for a match
    [] E.o = "row" -> LET ps == Segments(E.p)
                          ss == Traces[ti].cfg.paths
                      IN \A j \in 1..Len(ss) : (E.m[j] = 1) = Match(ps, Segments(ss[j]))
    [] OTHER -> FALSE

Finished == i > Len(Evs)

TraceNext == ~Finished /\ Event /\ i' = i + 1 /\ UNCHANGED ti

TraceSpec == TraceInit /\ [][TraceNext]_<<ti, i>>

Report == /\ (Finished => PrintT(<<"ACC", ti>>))
          /\ (Len(Traces) = 1 => PrintT(<<"POS", i - 1>>))
=============================================================================
