------------------------------ MODULE FileImpl ------------------------------
(* How files are opened: look, else build a complete temporary file and link it to the name, else look again.  Every system call
   is one step; any may fail, and a process may die before any.  What File.tla demands of every implementation is checked here
   of this one, for every interleaving. *)
EXTENDS Naturals, FiniteSets

CONSTANTS Procs, MaxFaults, MaxDeaths, MaxRemoves
VARIABLES name,   \* file at the name, 0 if none
          whole,  \* files with their size and mode set
          tmps,   \* temporary names by file
          pc, got, tmp, fds, maps, faults, deaths, removes, next
vars == <<name, whole, tmps, pc, got, tmp, fds, maps, faults, deaths, removes, next>>

Init == /\ name = 0 /\ whole = {} /\ tmps = {} /\ pc = [p \in Procs |-> "open"] /\ got = [p \in Procs |-> 0] /\ tmp = [p \in Procs |-> 0]
        /\ fds = [p \in Procs |-> 0] /\ maps = [p \in Procs |-> 0] /\ faults = 0 /\ deaths = 0 /\ removes = 0 /\ next = 1

Go(p, l) == pc' = [pc EXCEPT ![p] = l]
Fs == <<name, whole, tmps, next>>
Bk == <<faults, deaths, removes>>

Open(p) == /\ pc[p] = "open"
           /\ IF name # 0 THEN got' = [got EXCEPT ![p] = name] /\ fds' = [fds EXCEPT ![p] = 1] /\ Go(p, "map")
              ELSE Go(p, "mktmp") /\ UNCHANGED <<got, fds>>
           /\ UNCHANGED <<Fs, Bk, tmp, maps>>
Map(p) == pc[p] = "map" /\ maps' = [maps EXCEPT ![p] = 1] /\ Go(p, "ok") /\ UNCHANGED <<Fs, Bk, got, tmp, fds>>
Mktmp(p) == /\ pc[p] = "mktmp" /\ next' = next + 1 /\ tmps' = tmps \cup {next} /\ tmp' = [tmp EXCEPT ![p] = next] /\ fds' = [fds EXCEPT ![p] = 1]
            /\ Go(p, "size") /\ UNCHANGED <<name, whole, Bk, got, maps>>
Size(p) == pc[p] = "size" /\ whole' = whole \cup {tmp[p]} /\ Go(p, "tmap") /\ UNCHANGED <<name, tmps, next, Bk, got, tmp, fds, maps>>
Tmap(p) == pc[p] = "tmap" /\ maps' = [maps EXCEPT ![p] = 1] /\ Go(p, "link") /\ UNCHANGED <<Fs, Bk, got, tmp, fds>>
Link(p) == /\ pc[p] = "link"
           /\ IF name = 0 THEN name' = tmp[p] /\ got' = [got EXCEPT ![p] = tmp[p]] /\ Go(p, "unlink") ELSE Go(p, "lost") /\ UNCHANGED <<name, got>>
           /\ UNCHANGED <<whole, tmps, next, Bk, tmp, fds, maps>>
Unlink(p) == pc[p] = "unlink" /\ tmps' = tmps \ {tmp[p]} /\ Go(p, "ok") /\ UNCHANGED <<name, whole, next, Bk, got, tmp, fds, maps>>
Lost(p) == /\ pc[p] = "lost" /\ tmps' = tmps \ {tmp[p]} /\ fds' = [fds EXCEPT ![p] = 0] /\ maps' = [maps EXCEPT ![p] = 0] /\ tmp' = [tmp EXCEPT ![p] = 0]
           /\ Go(p, "open") /\ UNCHANGED <<name, whole, next, Bk, got>>
\* a system call fails
Fail(p) == /\ faults < MaxFaults /\ faults' = faults + 1
           /\ pc[p] \in {"open", "map", "mktmp", "size", "tmap", "link"}
           /\ Go(p, "clean") /\ UNCHANGED <<Fs, deaths, removes, got, tmp, fds, maps>>
Clean(p) == /\ pc[p] = "clean" /\ tmps' = tmps \ {tmp[p]} /\ fds' = [fds EXCEPT ![p] = 0] /\ maps' = [maps EXCEPT ![p] = 0] /\ got' = [got EXCEPT ![p] = 0]
            /\ Go(p, "failed") /\ UNCHANGED <<name, whole, next, Bk, tmp>>
Die(p) == /\ deaths < MaxDeaths /\ pc[p] \notin {"ok", "failed", "dead"} /\ deaths' = deaths + 1
          /\ Go(p, "dead") /\ fds' = [fds EXCEPT ![p] = 0] /\ maps' = [maps EXCEPT ![p] = 0] /\ UNCHANGED <<Fs, faults, removes, got, tmp>>
Remove == removes < MaxRemoves /\ name # 0 /\ name' = 0 /\ removes' = removes + 1 /\ UNCHANGED <<whole, tmps, next, faults, deaths, pc, got, tmp, fds, maps>>

Step(p) == Open(p) \/ Map(p) \/ Mktmp(p) \/ Size(p) \/ Tmap(p) \/ Link(p) \/ Unlink(p) \/ Lost(p) \/ Clean(p)
Next == Remove \/ \E p \in Procs : Step(p) \/ Fail(p) \/ Die(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

Whole == name # 0 => name \in whole
Same == removes = 0 => \A p, q \in Procs : (pc[p] = "ok" /\ pc[q] = "ok") => got[p] = got[q]
Complete == \A p \in Procs : pc[p] = "ok" => got[p] \in whole /\ fds[p] = 1 /\ maps[p] = 1
Nothing == \A p \in Procs : pc[p] = "failed" => got[p] = 0 /\ fds[p] = 0 /\ maps[p] = 0 /\ tmp[p] \notin tmps /\ (name = tmp[p] => name = 0)
Leftover == (\A p \in Procs : pc[p] \in {"ok", "failed", "dead"}) => Cardinality(tmps) <= deaths
Ends == <>(\A p \in Procs : pc[p] \in {"ok", "failed", "dead"})
=============================================================================
