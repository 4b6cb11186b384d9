-------------------------------- MODULE File --------------------------------
(* One name in a directory and the processes opening it.  A file is [size, mode, c] with c a digest of its content, "zero" for
   nothing but zeros; a process that opens has asked for a size and a mode in case there is no file yet. *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES name,    \* the file at the name, "" if there is none
          files,   \* what is known about files
          ops,     \* running and finished operations by process
          faults,  \* errors of system calls during the operation, by process
          excused  \* leftovers explained by deaths and failing removals

fvars == <<name, files, ops, faults, excused>>

None == [x \in {} |-> x]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Idle == [k |-> "idle", size |-> 0, mode |-> 0, ro |-> FALSE, can |-> "", cand |-> {}, ino |-> "", begun |-> FALSE]
Op(p) == Get(ops, p, Idle)
Running(k) == {p \in DOMAIN ops : ops[p].k = k /\ ops[p].begun}

FileInit == name = "" /\ files = None /\ ops = None /\ faults = None /\ excused = 0

\* everybody opening now may get the file that is there now
Offer(i) == [p \in DOMAIN ops |-> IF ops[p].k = "open" /\ ops[p].begun /\ i # "" THEN [ops[p] EXCEPT !.cand = @ \cup {i}] ELSE ops[p]]

\* what was there before anybody came
Before(i, f) == i # "" /\ name' = i /\ files' = Put(files, i, f) /\ UNCHANGED <<ops, faults, excused>>
\* p makes the name appear: at once with all it asked for
Create(p, i, f) ==
  /\ name = "" /\ i # "" /\ p \in Running("open")
  /\ f = [size |-> ops[p].size, mode |-> ops[p].mode, c |-> "zero"]
  /\ name' = i /\ files' = Put(files, i, f) /\ ops' = [Offer(i) EXCEPT ![p].ino = i] /\ UNCHANGED <<faults, excused>>
Vanish(p) == name # "" /\ p \in Running("remove") /\ name' = "" /\ ops' = [ops EXCEPT ![p].ino = name] /\ UNCHANGED <<files, faults, excused>>
See(p, i, f) == IF i = "" THEN Vanish(p) ELSE Create(p, i, f)

Begin(p, k, size, mode, ro, can) ==
  /\ ~Op(p).begun
  /\ ops' = Put(ops, p, [k |-> k, size |-> size, mode |-> mode, ro |-> ro, can |-> can, cand |-> IF k = "open" /\ name # "" THEN {name} ELSE {},
                         ino |-> IF k = "open" THEN "" ELSE Op(p).ino, begun |-> TRUE])
  /\ faults' = Put(faults, p, {}) /\ UNCHANGED <<name, files, excused>>
Fault(p, r, un) == faults' = Put(faults, p, Get(faults, p, {}) \cup {r}) /\ excused' = excused + (IF un THEN 1 ELSE 0) /\ UNCHANGED <<name, files, ops>>
Die(p) == ops' = Put(ops, p, Idle) /\ excused' = excused + 1 /\ UNCHANGED <<name, files, faults>>

Opened(p, i, same, size, shared, wr, c, fds, maps) ==
  LET o == Op(p) IN
  /\ o.k = "open" /\ o.begun /\ o.can # "no"
  /\ i \in o.cand /\ same /\ size = files[i].size /\ c = files[i].c
  /\ shared = ~o.ro /\ (shared => wr) /\ fds = 1 /\ maps = 1
  /\ ops' = [ops EXCEPT ![p].begun = FALSE, ![p].ino = i] /\ UNCHANGED <<name, files, faults, excused>>
\* a failing open says why, and leaves nothing
OpenFailed(p, r, fds, maps) ==
  LET o == Op(p) IN
  /\ o.k = "open" /\ o.begun /\ o.ino = "" /\ r # "ok"
  /\ r \in Get(faults, p, {}) \/ o.can \in {"no", "any"}
  /\ fds = 0 /\ maps = 0
  /\ ops' = [ops EXCEPT ![p].begun = FALSE] /\ UNCHANGED <<name, files, faults, excused>>
Closed(p, r, fds, maps) ==
  LET o == Op(p) IN
  /\ o.k = "close" /\ o.begun /\ fds = 0 /\ maps = 0 /\ r = "ok"
  /\ ops' = [ops EXCEPT ![p].begun = FALSE, ![p].ino = ""] /\ UNCHANGED <<name, files, faults, excused>>
\* there is nothing to close
Again(p, r) == Op(p).ino = "" /\ ~Op(p).begun /\ r = "EBADF" /\ UNCHANGED fvars
Removed(p, r) ==
  LET o == Op(p) IN
  /\ o.k = "remove" /\ o.begun
  /\ IF r = "ok" THEN o.ino # "" ELSE o.ino = "" /\ (r = "ENOENT" \/ r \in Get(faults, p, {}))
  /\ ops' = [ops EXCEPT ![p].begun = FALSE] /\ UNCHANGED <<name, files, faults, excused>>
\* a log read through a readonly file shows what is committed
Touched(p, n, frames) == Op(p).k = "touch" /\ Op(p).begun /\ frames = n
                         /\ ops' = [ops EXCEPT ![p].begun = FALSE] /\ UNCHANGED <<name, files, faults, excused>>
End(extra) == extra <= excused /\ (\A p \in DOMAIN ops : ~ops[p].begun) /\ UNCHANGED fvars
=============================================================================
