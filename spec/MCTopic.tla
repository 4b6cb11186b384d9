------------------------------- MODULE MCTopic -------------------------------
(* Every template and pair of names up to a length, with every kind of root:  *)
(* names stay apart, and where a file lies follows from root and name alone.  *)
(* The search for the placeholder is stepped through as strstr does it.       *)
EXTENDS Topic, TLC

CONSTANTS MaxTmpl, MaxName

\* a template is put together from these pieces, a name from these characters
Pieces == {Hole, <<123>>, <<97>>, <<47>>, <<125>>, SubSeq(Hole, 1, 6)}
Chars == {<<97>>, <<46>>, <<47>>, <<123>>}
RECURSIVE Strings(_, _)
Strings(P, n) == IF n = 0 THEN {<<>>} ELSE LET S == Strings(P, n - 1) IN S \cup {s \o p : s \in S, p \in P}
Templates == Strings(Pieces, MaxTmpl)
Names == Strings(Chars, MaxName)
Roots == {None, <<>>, <<47>>, <<47, 97>>, <<47, 97, 47>>, <<97>>}

VARIABLES tmpl, at, k, found

vars == <<tmpl, at, k, found>>

Init == tmpl \in Templates /\ at = 1 /\ k = 0 /\ found = 0

\* strstr: compare at a position, move on at the first difference
Next ==
  /\ found = 0 /\ at <= Len(tmpl)
  /\ IF k = Len(Hole) THEN found' = at /\ UNCHANGED <<tmpl, at, k>>
     ELSE IF at + k <= Len(tmpl) /\ tmpl[at + k] = Hole[k + 1]
          THEN k' = k + 1 /\ UNCHANGED <<tmpl, at, found>>
          ELSE at' = at + 1 /\ k' = 0 /\ UNCHANGED <<tmpl, found>>

Spec == Init /\ [][Next]_vars

Done == found # 0 \/ at > Len(tmpl)

FindsFirst == Done => IF Holes(tmpl) = {} THEN found = 0 ELSE found = First(Holes(tmpl))

Good == {n \in Names : GoodTopic(tmpl, n)}

Apart == Done => \A x, y \in Good : x # y =>
           /\ Substituted(tmpl, x) # Substituted(tmpl, y)
           /\ SubstitutedAll(tmpl, x) # SubstitutedAll(tmpl, y)

\* a refused name is refused under every template, and an absolute template ignores the root
Placed == Done => \A x \in Good : \A env \in Roots :
            LET p == Substituted(tmpl, x) IN
            /\ (Absolute(p) <=> Absolute(tmpl))
            /\ Absolute(p) => GoodPath(env, p) /\ Full(env, p) = p
            /\ ~Absolute(p) /\ GoodPath(env, p) => Absolute(Full(env, p)) /\ SubSeq(Full(env, p), 1, Len(Root(env))) = Root(env)
            /\ ~Absolute(p) => (GoodPath(env, p) <=> Absolute(Root(env)))
=============================================================================
