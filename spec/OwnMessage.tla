------------------------------ MODULE OwnMessage ------------------------------
(* The messages of the OpenWebNet protocol: from wire text to message (Parse)
   and back (Render).  Anchored in pyown/messages/*.py and docs/original/intro.md.

   A parsed message is a record
     [ok    |-> TRUE, type |-> ..., who, what, where, dim : text, values : Seq(text),
      tags  |-> the tags of the message as the library exposes them]
   with absent parts equal to Absent.                                          *)
EXTENDS OwnText

Absent == <<0 - 1>>

WhoCode == {NatText(n) : n \in {0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 14, 15, 16, 17, 18, 22, 24, 25,
                                1001, 1004, 1013, 1018}}

Terminator == <<Hash, Hash>>

\* ---- tags -------------------------------------------------------------------
ValidTag(t) == AllIn(t, TagChar) /\ ~HasTerminator(t)

\* ---- one frame ----------------------------------------------------------------
\* A text is one frame when it is '*', a body without terminator, and the terminator.
IsFrame(t) ==
  /\ Len(t) >= 3
  /\ t[1] = Star
  /\ EndsWith(t, Terminator)
  /\ LET body == SubSeq(t, 2, Len(t) - 2)
     IN  AllIn(body, BodyChar) /\ ~HasTerminator(body)

Body(t) == SubSeq(t, 2, Len(t) - 2)

\* A body that ends in '#' ("*1###"): the text is ambiguous, see DESIGN.md.
Ambiguous(t) == LET s == Strip(t) IN Len(s) >= 3 /\ EndsWith(s, <<Hash, Hash, Hash>>)

Unprefix(t) == IF t # <<>> /\ Head(t) = Hash THEN Tail(t) ELSE t

Msg(type, who, what, where, dim, values, tags) ==
  [ok |-> TRUE, type |-> type, who |-> who, what |-> what, where |-> where, dim |-> dim,
   values |-> values, tags |-> tags]

Ack     == Msg("ACK", Absent, Absent, Absent, Absent, <<>>, << <<Hash>>, <<49>> >>)
Nack    == Msg("NACK", Absent, Absent, Absent, Absent, <<>>, << <<Hash>>, <<48>> >>)
Normal(who, what, where)   == Msg("NORMAL", who, what, where, Absent, <<>>, <<who, what, where>>)
Status(who, where)         == Msg("STATUS REQUEST", who, Absent, where, Absent, <<>>, <<who, where>>)
DimReq(who, where, dim)    == Msg("DIMENSION REQUEST", who, Absent, where, dim, <<>>, <<who, where, dim>>)
DimWrite(who, where, dim, values) ==
  Msg("DIMENSION WRITING", who, Absent, where, dim, values, <<who, where, dim>> \o values)
DimResp(who, where, dim, values) ==
  Msg("DIMENSION RESPONSE", who, Absent, where, dim, values, <<who, where, dim>> \o values)
Generic(tags) == Msg("GENERIC", Absent, Absent, Absent, Absent, <<>>, tags)
Rejected      == [ok |-> FALSE]

\* The class that the syntax prescribes, for the tags of a frame.
Classify(tags) ==
  LET n      == Len(tags)
      first  == tags[1]
      asked  == Len(first) >= 2 /\ Head(first) = Hash         \* "#WHO"
      who    == IF asked THEN Tail(first) ELSE first
      known  == who \in WhoCode
      third  == tags[3]
  IN  CASE tags = Ack.tags  -> Ack
        [] tags = Nack.tags -> Nack
        [] asked /\ known /\ n = 2 -> Status(who, tags[2])
        [] asked /\ known /\ n = 3 /\ (third = <<>> \/ Head(third) # Hash) ->
             DimReq(who, tags[2], third)
        [] asked /\ known /\ n >= 3 /\ third # <<>> /\ Head(third) = Hash ->
             DimWrite(who, tags[2], Tail(third), SubSeq(tags, 4, n))
        [] asked /\ known /\ n >= 4 /\ (third = <<>> \/ Head(third) # Hash) ->
             DimResp(who, tags[2], third, SubSeq(tags, 4, n))
        [] ~asked /\ known /\ n = 3 -> Normal(who, tags[2], tags[3])
        [] OTHER -> Generic(tags)

Parse(text) ==
  LET t == Strip(text)
  IN  IF IsFrame(t) THEN Classify(Split(Body(t), Star)) ELSE Rejected

\* ---- back to text --------------------------------------------------------------
Render(m) ==
  CASE m.type = "ACK"  -> <<Star, Hash, Star, 49, Hash, Hash>>
    [] m.type = "NACK" -> <<Star, Hash, Star, 48, Hash, Hash>>
    [] m.type = "NORMAL" -> Prefixed(Star, <<m.who, m.what, m.where>>) \o Terminator
    [] m.type = "STATUS REQUEST" -> <<Star, Hash>> \o m.who \o <<Star>> \o m.where \o Terminator
    [] m.type = "DIMENSION REQUEST" ->
         <<Star, Hash>> \o m.who \o Prefixed(Star, <<m.where, m.dim>>) \o Terminator
    [] m.type = "DIMENSION WRITING" ->
         <<Star, Hash>> \o m.who \o <<Star>> \o m.where \o <<Star, Hash>> \o m.dim
           \o Prefixed(Star, m.values) \o Terminator
    [] m.type = "DIMENSION RESPONSE" ->
         <<Star, Hash>> \o m.who \o Prefixed(Star, <<m.where, m.dim>> \o m.values) \o Terminator
    [] OTHER -> <<Star>> \o Join(Star, m.tags) \o Terminator

\* The messages whose text is unambiguous: valid tags, none ending in '#'.
CleanTag(t) == ValidTag(t) /\ (t = <<>> \/ t[Len(t)] # Hash)

WellBuilt(m) ==
  /\ \A i \in 1..Len(m.tags) : CleanTag(m.tags[i]) \/ m.type \in {"ACK", "NACK"}
  /\ m.type \in {"NORMAL", "STATUS REQUEST", "DIMENSION REQUEST", "DIMENSION WRITING", "DIMENSION RESPONSE"}
       => m.who \in WhoCode
  /\ m.type = "DIMENSION REQUEST" => m.dim # <<>> /\ Head(m.dim) # Hash
  \* a dimension starting with '#' would read as a writing, a response without value as a request
  /\ m.type = "DIMENSION RESPONSE" => m.values # <<>> /\ (m.dim = <<>> \/ Head(m.dim) # Hash)
  /\ m.type = "DIMENSION WRITING" => /\ m.dim = <<>> \/ Head(m.dim) # Hash
                                     /\ m.dim # <<>> \/ m.values # <<>>
  /\ m.type = "GENERIC" => m.tags # <<>> /\ Classify(m.tags) = m
===============================================================================
