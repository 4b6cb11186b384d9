------------------------------ MODULE TopicTrace ------------------------------
EXTENDS Topic, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES ti, i

TraceInit == \E t \in 1..Len(Traces) : ti = t /\ i = 1

Evs == Traces[ti].ev
E == Evs[i]

Event ==
  CASE E.o = "tpath" -> TopicPath(E.tmpl, E.topic, E.r, E.s)
    [] E.o = "topen" -> TopicOpened(E.root, E.tmpl, E.topic, E.r, E.path, E.made)
    [] E.o = "proto" -> TopicOpened(E.root, Template(E.proto, E.tmpl), E.topic, E.r, None, E.made)
       \* the same topic again: no other file appears
    [] E.o = "again" -> E.r = "ok" /\ E.made = <<>>
    [] E.o = "fopen" -> Opened(E.root, E.p, E.r, E.path, E.made)
    [] E.o = "fop"   -> Acted(E.root, E.p, E.r, E.hit, E.op = "remove" /\ E.cpp)
    [] OTHER -> FALSE

Finished == i > Len(Evs)

TraceNext == ~Finished /\ Event /\ i' = i + 1 /\ UNCHANGED ti

TraceSpec == TraceInit /\ [][TraceNext]_<<ti, i>>

Report == /\ (Finished => PrintT(<<"ACC", ti>>))
          /\ (Len(Traces) = 1 => PrintT(<<"POS", i - 1>>))
=============================================================================
