---------------------------- MODULE DiscoveryImpl ----------------------------
(* How files are found: watch a directory, then read it, descend; afterwards    *)
(* follow the notifications, which come from the directory itself (not its       *)
(* name) in the order of the changes. The pattern is "files anywhere under the   *)
(* directory 1"; the deepest part of that path that exists is where it starts.   *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Names, Depth, MaxActs,
          ByName,      \* a directory is watched once per name, as it used to be
          RootAgain,   \* the start is looked for again when it is removed
          WatchFirst   \* watch before reading, not after

VARIABLES ino,      \* directory path -> identity, 0 if absent
          file,     \* directories that hold a file
          acts, fresh,
          watch,    \* identity -> path it was watched by, <<0>> for none; the start is marked
          names,    \* names ever watched
          queue, stack, found
ivars == <<ino, file, acts, fresh, watch, names, queue, stack, found>>

Dirs == UNION {[1..n -> Names] : n \in 0..Depth}
None == [p |-> <<0>>, top |-> FALSE]
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Last(p) == p[Len(p)]
Exists(p) == ino[p] # 0
Below(p) == {q \in Dirs : Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p}
Kids(p) == {q \in Dirs : Len(q) = Len(p) + 1 /\ Parent(q) = p /\ Exists(q)}
Watched(p) == Exists(p) /\ watch[ino[p]] # None
Root == <<>>
Start == <<1>>

Init ==
  /\ \E S \in SUBSET {q \in Dirs : Len(q) \in 1..2} :
       /\ \A q \in S : Len(q) = 2 => Parent(q) \in S
       /\ Cardinality(S) <= 1
       /\ ino = [p \in Dirs |-> IF p = Root THEN 1 ELSE IF p \in S THEN 2 ELSE 0]
       /\ file \in {{}, S}
  /\ acts = 0 /\ fresh = 3
  /\ watch = [n \in 1..MaxActs + 3 |-> None] /\ names = {}
  /\ queue = <<>> /\ found = {}
  /\ stack = <<[st |-> "start", p |-> <<>>, todo |-> {}, top |-> TRUE]>>

Tell(t, p, q) == IF Watched(p) THEN <<[t |-> t, w |-> ino[p], n |-> Last(q)]>> ELSE <<>>

\* ---- what others do
MkDir(p) == /\ p # Root /\ ~Exists(p) /\ Exists(Parent(p))
            /\ ino' = [ino EXCEPT ![p] = fresh] /\ fresh' = fresh + 1
            /\ queue' = queue \o Tell("dir", Parent(p), p)
            /\ UNCHANGED <<file, watch>>
MkFile(p) == /\ p # Root /\ Exists(p) /\ p \notin file
             /\ file' = file \cup {p}
             /\ queue' = queue \o (IF Watched(p) THEN <<[t |-> "file", w |-> ino[p], n |-> 0]>> ELSE <<>>)
             /\ UNCHANGED <<ino, fresh, watch>>
RmFile(p) == /\ p \in file /\ file' = file \ {p} /\ UNCHANGED <<ino, fresh, queue, watch>>
RmDir(p) == /\ p # Root /\ Exists(p) /\ Kids(p) = {} /\ p \notin file
            /\ ino' = [ino EXCEPT ![p] = 0]
            /\ queue' = queue \o (IF Watched(p) THEN <<[t |-> "gone", w |-> ino[p], n |-> 0]>> ELSE <<>>)
            /\ UNCHANGED <<file, fresh, watch>>
Others == /\ acts < MaxActs /\ acts' = acts + 1
          /\ \E p \in Dirs : MkDir(p) \/ MkFile(p) \/ RmFile(p) \/ RmDir(p)
          /\ UNCHANGED <<names, stack, found>>

\* ---- the thread: a stack of scans
Top == stack[1]
Replace(f) == <<f>> \o Tail(stack)
Look == /\ stack # <<>> /\ Top.st = "start"
        /\ stack' = Replace([Top EXCEPT !.p = IF Exists(Start) THEN Start ELSE Root, !.st = IF WatchFirst THEN "watch" ELSE "read"])
        /\ UNCHANGED <<ino, file, acts, fresh, watch, names, queue, found>>
After(f, st) == [f EXCEPT !.st = st]
AddWatch ==
  /\ stack # <<>> /\ Top.st = "watch"
  /\ LET p == Top.p
         next == IF WatchFirst THEN "read" ELSE "each" IN
     IF ByName /\ p \in names THEN stack' = Replace(After(Top, next)) /\ UNCHANGED <<watch, names>>
     ELSE IF Exists(p)
     THEN /\ watch' = IF watch[ino[p]] = None THEN [watch EXCEPT ![ino[p]] = [p |-> p, top |-> Top.top]] ELSE watch
          /\ names' = names \cup {p}
          /\ stack' = Replace(After(Top, next))
     ELSE /\ stack' = IF Top.top /\ RootAgain THEN Replace(After(Top, "start")) ELSE Replace(After(Top, next))
          /\ UNCHANGED <<watch, names>>
  /\ UNCHANGED <<ino, file, acts, fresh, queue, found>>
Read ==
  /\ stack # <<>> /\ Top.st = "read"
  /\ LET p == Top.p IN
     IF ~Exists(p) THEN stack' = Tail(stack) /\ UNCHANGED found
     ELSE /\ stack' = Replace([Top EXCEPT !.todo = Kids(p), !.st = IF WatchFirst THEN "each" ELSE "watch"])
          /\ found' = IF p \in file THEN found \cup {p} ELSE found
  /\ UNCHANGED <<ino, file, acts, fresh, watch, names, queue>>
Each ==
  /\ stack # <<>> /\ Top.st = "each"
  /\ IF Top.todo = {} THEN stack' = Tail(stack)
     ELSE \E q \in Top.todo :
            stack' = <<[st |-> IF WatchFirst THEN "watch" ELSE "read", p |-> q, todo |-> {}, top |-> FALSE]>> \o Replace([Top EXCEPT !.todo = @ \ {q}])
  /\ UNCHANGED <<ino, file, acts, fresh, watch, names, queue, found>>
Event ==
  /\ stack = <<>> /\ queue # <<>>
  /\ queue' = Tail(queue)
  /\ LET e == Head(queue)
         by == watch[e.w] IN
     CASE e.t = "dir"  -> /\ stack' = <<[st |-> IF WatchFirst THEN "watch" ELSE "read", p |-> Append(by.p, e.n), todo |-> {}, top |-> FALSE]>>
                          /\ UNCHANGED <<found, watch>>
       [] e.t = "file" -> found' = found \cup {by.p} /\ UNCHANGED <<stack, watch>>
       [] e.t = "gone" -> /\ watch' = [watch EXCEPT ![e.w] = None]
                          /\ stack' = IF by.top /\ RootAgain THEN <<[st |-> "start", p |-> <<>>, todo |-> {}, top |-> TRUE]>> ELSE <<>>
                          /\ UNCHANGED found
  /\ UNCHANGED <<ino, file, acts, fresh, names>>

Next == Others \/ Look \/ AddWatch \/ Read \/ Each \/ Event
Spec == Init /\ [][Next]_ivars

\* whenever it has nothing to do, it has found all there is
Complete == (stack = <<>> /\ queue = <<>>) => \A p \in file : (Len(p) >= 1 /\ p[1] = 1) => p \in found
=============================================================================
