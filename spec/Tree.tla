-------------------------------- MODULE Tree --------------------------------
(* A directory tree, and what removing and listing a path in it does.          *)
(* A place in the tree is the sequence of names that leads to it; the root is   *)
(* the empty sequence. A node: t its kind ("d" directory, "l" link, anything    *)
(* else has no children), id its identity, m what may be done with a directory  *)
(* ("rw" anything, "ro" its entries cannot be removed, "no" nothing), and for    *)
(* a link to: the path it holds, abs: whether from the root.                    *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE tree

Dot == -1
Up == -2
MaxLinks == 40

Parent(p) == SubSeq(p, 1, Len(p) - 1)
Last(s) == s[Len(s)]
Under(p) == {q \in DOMAIN tree : Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p}
Children(p) == {q \in DOMAIN tree : Len(q) = Len(p) + 1 /\ Parent(q) = p}

\* where a path leads from a place, following links on the way, and at the end if asked to; via: the places it leads through
RECURSIVE Walk(_, _, _, _, _)
Walk(at, cs, follow, n, via) ==
  IF cs = <<>> THEN [r |-> "ok", p |-> at, via |-> via]
  ELSE IF tree[at].t # "d" \/ tree[at].m = "no" THEN [r |-> "no", p |-> at, via |-> via]
  ELSE IF Head(cs) = Dot THEN Walk(at, Tail(cs), follow, n, via)
  ELSE IF Head(cs) = Up THEN Walk(Parent(at), Tail(cs), follow, n, via)
  ELSE LET q == Append(at, Head(cs)) IN
       IF q \notin DOMAIN tree THEN [r |-> "no", p |-> at, via |-> via]
       ELSE IF tree[q].t = "l" /\ (follow \/ Len(cs) > 1)
       THEN IF n = 0 THEN [r |-> "no", p |-> at, via |-> via]
            ELSE Walk(IF tree[q].abs THEN <<>> ELSE at, tree[q].to \o Tail(cs), follow, n - 1, via \cup {q})
       ELSE Walk(q, Tail(cs), follow, n, via \cup {q})
Find(cs, follow) == Walk(<<>>, cs, follow, MaxLinks, {})

Fixed(p) == p = <<>> \/ tree[Parent(p)].m # "rw"
Hindered(p) == Fixed(p) \/ \E q \in Under(p) : tree[q].t = "d" /\ tree[q].m # "rw"
Inside(w) == w.via \cap (Under(w.p) \ {w.p}) # {}        \* the path leads through what it names
Named(cs) == cs # <<>> /\ Last(cs) \notin {Dot, Up}

\* The removal of a path that ends in a slash or not, gone being what is no longer there. hard: a path is longer than the
\* system takes, or the system failed. lenient: that there is nothing is no error.
RemoveAllOk(cs, slash, ok, gone, hard, lenient) ==
  LET w == Find(cs, FALSE) IN
  IF w.r # "ok" THEN gone = {} /\ (ok => lenient)
  ELSE IF tree[w.p].t # "d"
  THEN \/ ok /\ gone = {w.p}
       \/ ~ok /\ gone = {} /\ (slash \/ hard \/ Fixed(w.p))
  ELSE \/ ok /\ gone = Under(w.p)
       \/ ~ok /\ gone \subseteq Under(w.p) \ {w.p} /\ (hard \/ Hindered(w.p) \/ ~Named(cs) \/ Inside(w))

RemoveOk(cs, slash, ok, gone, hard, lenient) ==
  LET w == Find(cs, FALSE) IN
  IF w.r # "ok" THEN gone = {} /\ (ok => lenient)
  ELSE IF tree[w.p].t # "d"
  THEN \/ ok /\ gone = {w.p}
       \/ ~ok /\ gone = {} /\ (slash \/ hard \/ Fixed(w.p))
  ELSE \/ ok /\ gone = {w.p} /\ Children(w.p) = {}
       \/ ~ok /\ gone = {}

Remaining(gone) == tree' = [q \in DOMAIN tree \ gone |-> tree[q]]
RemoveAll(cs, slash, ok, gone, hard, lenient) == RemoveAllOk(cs, slash, ok, gone, hard, lenient) /\ Remaining(gone)
Remove(cs, slash, ok, gone, hard, lenient) == RemoveOk(cs, slash, ok, gone, hard, lenient) /\ Remaining(gone)

\* Listing: ents the entries in the order given, each with its name, kind, the identity of what its full path names, and
\* whether that path is absolute; done: the end was reached without an error.
Entries(p) == {[n |-> Last(q), t |-> tree[q].t, id |-> tree[q].id, full |-> TRUE] : q \in Children(p)}
List(cs, ok, ents, done, hard) ==
  /\ UNCHANGED tree
  /\ LET w == Find(cs, TRUE)
         l == Find(cs, FALSE)
         got == {ents[i] : i \in 1..Len(ents)} IN
     IF w.r # "ok" \/ (w.r = "ok" /\ tree[w.p].t # "d") THEN ~ok
     ELSE IF ~ok THEN hard \/ tree[w.p].m = "no" \/ l.p # w.p      \* a link itself may be refused
     ELSE /\ Cardinality(got) = Len(ents)
          /\ got \subseteq Entries(w.p)
          /\ IF done THEN got = Entries(w.p) ELSE hard
=============================================================================
