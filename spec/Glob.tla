-------------------------------- MODULE Glob --------------------------------
(* Which paths a pattern describes. Texts are sequences of character codes.   *)
EXTENDS Integers, Sequences, FiniteSets

Slash == 47
Star == 42
MaxDepth == 32      \* deeper patterns and paths may be refused

RECURSIVE Split(_, _, _)
Split(s, j, cur) == IF j > Len(s) THEN <<cur>>
                    ELSE IF s[j] = Slash THEN <<cur>> \o Split(s, j + 1, <<>>)
                    ELSE Split(s, j + 1, Append(cur, s[j]))
Segments(s) == Split(s, 2, <<>>)        \* s starts with a slash

\* a segment: literal characters, stars for any run of characters
RECURSIVE SegMatch(_, _)
SegMatch(p, s) ==
  IF p = <<>> THEN s = <<>>
  ELSE IF Head(p) = Star THEN SegMatch(Tail(p), s) \/ (s # <<>> /\ SegMatch(p, Tail(s)))
  ELSE s # <<>> /\ Head(p) = Head(s) /\ SegMatch(Tail(p), Tail(s))

\* a double star stands for any number of segments unless it names the last one
Recursive(ps) == Len(ps) > 1 /\ Head(ps) = <<Star, Star>>
RECURSIVE Match(_, _)
Match(ps, ss) ==
  IF ps = <<>> THEN ss = <<>>
  ELSE IF Recursive(ps) THEN Match(Tail(ps), ss) \/ (ss # <<>> /\ Match(ps, Tail(ss)))
  ELSE ss # <<>> /\ SegMatch(Head(ps), Head(ss)) /\ Match(Tail(ps), Tail(ss))

Absolute(s) == s # <<>> /\ s[1] = Slash
\* root: the configured root, an absolute path; <<>> if there is none
Usable(root, s) == s # <<>> /\ (Absolute(s) \/ Absolute(root))
Full(root, s) == IF Absolute(s) THEN s ELSE root \o <<Slash>> \o s

\* one pattern against one path: result of making the pattern, result of the match, answer
Try(root, p, s, rp, rs, yes) ==
  IF ~Usable(root, p) THEN rp # "ok"
  ELSE LET pp == Segments(Full(root, p)) IN
       IF rp # "ok" THEN Len(pp) > MaxDepth
       ELSE IF ~Usable(root, s) THEN rs # "ok"
       ELSE LET ss == Segments(Full(root, s)) IN
            IF rs # "ok" THEN Len(ss) > MaxDepth ELSE yes = Match(pp, ss)
=============================================================================
