-------------------------------- MODULE Topic --------------------------------
(* Which file a topic or a path means. Texts are sequences of character       *)
(* codes; a missing text is <<-1>>.                                           *)
EXTENDS Integers, Sequences, FiniteSets

Slash == 47
None == <<-1>>
Hole == <<123, 116, 111, 112, 105, 99, 125>>      \* {topic}

\* where the placeholder starts, 0 if there is none
Holes(t) == {j \in 1..(Len(t) - Len(Hole) + 1) : SubSeq(t, j, j + Len(Hole) - 1) = Hole}
First(S) == CHOOSE j \in S : \A k \in S : j <= k

GoodTopic(tmpl, topic) == /\ tmpl # None /\ topic # None /\ topic # <<>>
                          /\ topic[1] # Slash /\ Holes(tmpl) # {}
Substituted(tmpl, topic) == LET j == First(Holes(tmpl))
                            IN SubSeq(tmpl, 1, j - 1) \o topic \o SubSeq(tmpl, j + Len(Hole), Len(tmpl))
\* A template may repeat the placeholder; whether the name then stands for the first or for each is left open.
RECURSIVE SubstitutedAll(_, _)
SubstitutedAll(tmpl, topic) == IF Holes(tmpl) = {} THEN tmpl
                               ELSE LET j == First(Holes(tmpl))
                                    IN SubSeq(tmpl, 1, j - 1) \o topic \o SubstitutedAll(SubSeq(tmpl, j + Len(Hole), Len(tmpl)), topic)
Expansions(tmpl, topic) == {Substituted(tmpl, topic), SubstitutedAll(tmpl, topic)}

Absolute(s) == s # <<>> /\ s[1] = Slash
DefaultRoot == <<47, 100, 101, 118, 47, 115, 104, 109, 47, 97, 108, 101, 112, 104, 97, 122, 101, 114, 111>>   \* /dev/shm/alephzero
Root(env) == IF env = None THEN DefaultRoot ELSE env
GoodPath(env, p) == p # None /\ p # <<>> /\ (Absolute(p) \/ Absolute(Root(env)))
Full(env, p) == IF Absolute(p) THEN p ELSE Root(env) \o <<Slash>> \o p

\* repeated slashes mean one
RECURSIVE Clean(_)
Clean(s) == IF Len(s) < 2 THEN s
            ELSE IF s[1] = Slash /\ s[2] = Slash THEN Clean(Tail(s)) ELSE <<s[1]>> \o Clean(Tail(s))

Suffix(proto) ==
  CASE proto = "cfg"     -> <<46, 99, 102, 103, 46, 97, 48>>
    [] proto = "deadman" -> <<46, 100, 101, 97, 100, 109, 97, 110>>
    [] proto = "log"     -> <<46, 108, 111, 103, 46, 97, 48>>
    [] proto = "prpc"    -> <<46, 112, 114, 112, 99, 46, 97, 48>>
    [] proto = "pubsub"  -> <<46, 112, 117, 98, 115, 117, 98, 46, 97, 48>>
    [] proto = "rpc"     -> <<46, 114, 112, 99, 46, 97, 48>>
Template(proto, env) == IF env = None THEN Hole \o Suffix(proto) ELSE env

--------------------------------------------------------------------------
(* What the operations may answer *)

TopicPath(tmpl, topic, r, s) == IF GoodTopic(tmpl, topic) THEN r = "ok" /\ s \in Expansions(tmpl, topic) ELSE r # "ok"

\* path: what the handle reports; made: the files that appeared (without doubled slashes)
Opened(env, p, r, path, made) ==
  IF GoodPath(env, p) THEN r = "ok" /\ path \in {None, Full(env, p)} /\ made = <<Clean(Full(env, p))>>
  ELSE r # "ok" /\ made = <<>>
TopicOpened(env, tmpl, topic, r, path, made) ==
  IF GoodTopic(tmpl, topic) THEN \E p \in Expansions(tmpl, topic) : Opened(env, p, r, path, made) ELSE r # "ok" /\ made = <<>>

\* an operation on the file or directory at p: hit says which of the existing ones it acted on
\* lenient: the operation does not report what it does not find
Acted(env, p, r, hit, lenient) == IF GoodPath(env, p) THEN r = "ok" /\ hit = <<Clean(Full(env, p))>>
                                  ELSE (r # "ok" \/ lenient) /\ hit = <<>>

\* no two protocols and no two names share a file (with the default templates)
Separate == \A a, b \in {"cfg", "deadman", "log", "prpc", "pubsub", "rpc"} :
              a # b => \A x, y \in {<<97>>, <<97, 98>>, <<97, 46, 97, 48>>} :
                 Substituted(Template(a, None), x) # Substituted(Template(b, None), y)
ASSUME Separate
=============================================================================
