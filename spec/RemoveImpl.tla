----------------------------- MODULE RemoveImpl -----------------------------
(* How a tree is removed: the entries of a directory are read in some order,   *)
(* directories are descended into, everything is removed on the way back;      *)
(* failures on the way are ignored, the last removal tells the result. Checked *)
(* against Tree for every small tree and path.                                 *)
EXTENDS Tree, TLC

CONSTANTS Names, Targets, Modes, Follow      \* Follow: descend into links, to see that it would be noticed

VARIABLES now, cs, slash, stack, ok, ph
ivars == <<tree, now, cs, slash, stack, ok, ph>>

\* the links a tree may hold; the first is absolute
Link(k) == CASE k = 1 -> [to |-> <<1>>, abs |-> TRUE] [] k = 2 -> [to |-> <<2>>, abs |-> TRUE]
             [] k = 3 -> [to |-> <<1, 2>>, abs |-> TRUE] [] k = 4 -> [to |-> <<2>>, abs |-> FALSE]
             [] k = 5 -> [to |-> <<Up, 1>>, abs |-> FALSE]
Node(t, m, l) == [t |-> t, id |-> 0, m |-> m, to |-> l.to, abs |-> l.abs]
Plain == [to |-> <<>>, abs |-> FALSE]
Dirs == {Node("d", m, Plain) : m \in Modes}
Others(top) == {Node("f", "rw", Plain)} \cup {Node("l", "rw", Link(k)) : k \in IF top THEN Targets \ {5} ELSE Targets}
None == [t |-> "-"]

Kids == [Names -> {None} \cup Dirs \cup Others(FALSE)]
Empty == [n \in Names |-> None]
Tops == [n : {None} \cup Others(TRUE), k : {Empty}] \cup [n : Dirs, k : Kids]
TreeFrom(f) ==
  LET top == {n \in Names : f[n].n.t # "-"}
      low == {x \in Names \X Names : x[1] \in top /\ f[x[1]].k[x[2]].t # "-"} IN
  [q \in {<<>>} \cup {<<n>> : n \in top} \cup low |->
     IF q = <<>> THEN Node("d", "rw", Plain) ELSE IF Len(q) = 1 THEN f[q[1]].n ELSE f[q[1]].k[q[2]]]

Paths == {<<n>> : n \in Names} \cup {<<n, m>> : n \in Names, m \in Names} \cup {<<n, m, 1>> : n \in Names, m \in Names}
         \cup {<<n, Dot>> : n \in Names} \cup {<<n, m, Up>> : n \in Names, m \in Names}

Init ==
  /\ \E f \in [Names -> Tops] : tree = TreeFrom(f)
  /\ cs \in Paths /\ slash \in BOOLEAN
  /\ now = tree /\ stack = <<>> /\ ok = FALSE /\ ph = "go"

\* the same walk, in the tree as it is now
Walk2(p, follow) == LET T == INSTANCE Tree WITH tree <- now IN T!Find(p, follow)
KidsOf(p) == {q \in DOMAIN now : Len(q) = Len(p) + 1 /\ Parent(q) = p}
\* one entry removed: a directory only if it is empty
CanRemove(p) == p # <<>> /\ now[Parent(p)].m = "rw" /\ KidsOf(p) = {}
Without(p) == [q \in DOMAIN now \ {p} |-> now[q]]
IsDir(p) == now[p].t = "d" /\ now[p].m # "no"
At(p) == IF Follow /\ now[p].t = "l" /\ Walk2(p, TRUE).r = "ok" THEN Walk2(p, TRUE).p ELSE p

Start ==
  /\ ph = "go"
  /\ LET w == Walk2(cs, FALSE) IN
     IF w.r # "ok" THEN ph' = "done" /\ ok' = FALSE /\ UNCHANGED <<now, stack>>
     ELSE IF IsDir(At(w.p))
     THEN ph' = "walk" /\ stack' = <<[p |-> At(w.p), todo |-> KidsOf(At(w.p))]>> /\ UNCHANGED <<now, ok>>
     ELSE ph' = "done" /\ ok' = CanRemove(w.p) /\ now' = (IF CanRemove(w.p) THEN Without(w.p) ELSE now) /\ UNCHANGED stack
  /\ UNCHANGED <<tree, cs, slash>>

Entry ==
  /\ ph = "walk" /\ stack[1].todo # {}
  /\ \E q \in stack[1].todo :
       LET rest == <<[stack[1] EXCEPT !.todo = @ \ {q}]>> \o Tail(stack) IN
       IF q \in DOMAIN now /\ IsDir(At(q)) /\ Len(stack) < 6
       THEN stack' = <<[p |-> At(q), todo |-> KidsOf(At(q))]>> \o rest /\ UNCHANGED now
       ELSE stack' = rest /\ now' = (IF q \in DOMAIN now /\ CanRemove(q) THEN Without(q) ELSE now)
  /\ UNCHANGED <<tree, cs, slash, ok, ph>>

\* the last removal takes the path as it was given: one that ends in dots is refused
Back ==
  /\ ph = "walk" /\ stack[1].todo = {}
  /\ LET p == stack[1].p
         can == p \in DOMAIN now /\ CanRemove(p) /\ (Len(stack) = 1 => Named(cs)) IN
     /\ now' = (IF can THEN Without(p) ELSE now)
     /\ IF Len(stack) = 1 THEN ok' = can /\ ph' = "done" /\ stack' = <<>>
        ELSE stack' = Tail(stack) /\ UNCHANGED <<ok, ph>>
  /\ UNCHANGED <<tree, cs, slash>>

Next == Start \/ Entry \/ Back
Spec == Init /\ [][Next]_ivars

Right == ph = "done" => RemoveAllOk(cs, slash, ok, DOMAIN tree \ DOMAIN now, FALSE, FALSE)
=============================================================================
