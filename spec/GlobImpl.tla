------------------------------ MODULE GlobImpl ------------------------------
(* The matcher as a machine that walks both sequences and falls back only to  *)
(* the most recent star. It gives the same answer as Glob's definition: this  *)
(* is what makes the single fall-back point enough.                           *)
EXTENDS Glob
CONSTANTS MaxP, MaxS
\* "a" and "b" are literal segments, "*" any one segment, "**" any number; kept as one-element code sequences
Lit == {97, 98}
PSeg == {<<c>> : c \in Lit} \cup {<<Star>>, <<Star, Star>>}
SSeg == {<<c>> : c \in Lit}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 1..n}

VARIABLES ps, ss, gi, ri, sg, sr, answer
vars == <<ps, ss, gi, ri, sg, sr, answer>>

Init == /\ ps \in SeqsUpTo(PSeg, MaxP) /\ ss \in SeqsUpTo(SSeg, MaxS)
        /\ gi = 1 /\ ri = 1 /\ sg = 0 /\ sr = 0 /\ answer = "none"

Rec(g) == g < Len(ps) /\ ps[g] = <<Star, Star>>
Step == /\ answer = "none" /\ ri <= Len(ss)
        /\ IF gi <= Len(ps) /\ Rec(gi)
           THEN gi' = gi + 1 /\ sg' = gi + 1 /\ sr' = ri /\ UNCHANGED <<ri, answer>>
           ELSE IF gi <= Len(ps) /\ SegMatch(ps[gi], ss[ri])
           THEN gi' = gi + 1 /\ ri' = ri + 1 /\ UNCHANGED <<sg, sr, answer>>
           ELSE IF sg = 0 THEN answer' = "no" /\ UNCHANGED <<gi, ri, sg, sr>>
           ELSE sr' = sr + 1 /\ ri' = sr + 1 /\ gi' = sg /\ UNCHANGED <<sg, answer>>
        /\ UNCHANGED <<ps, ss>>
End == /\ answer = "none" /\ ri > Len(ss)
       /\ answer' = IF \A g \in gi..Len(ps) : Rec(g) THEN "yes" ELSE "no"
       /\ UNCHANGED <<ps, ss, gi, ri, sg, sr>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == answer # "none" => (answer = "yes") = Match(ps, ss)
Ends == <>(answer # "none")
=============================================================================
