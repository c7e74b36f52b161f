------------------------------- MODULE OwnCustom -------------------------------
(* The messages that any item can be asked to build and to send (C26).
   Anchored in pyown/items/base.py (the create and send methods).

   An item is [who, where]; a call is [m, tag, values]: m is the kind of message, tag the
   WHAT or the DIMENSION (Absent for a status request).                                 *)
EXTENDS OwnMessage

Calls == {"normal", "status", "request", "writing"}
Asks(m) == m \in {"status", "request"}

MessageOf(item, call) ==
  CASE call.m = "normal"  -> Normal(item.who, call.tag, item.where)
    [] call.m = "status"  -> Status(item.who, item.where)
    [] call.m = "request" -> DimReq(item.who, item.where, call.tag)
    [] call.m = "writing" -> DimWrite(item.who, item.where, call.tag, call.values)

\* an answer: the frames before the acknowledgement, all of the kind that was asked for
AnswerType(m) == IF m = "status" THEN "NORMAL" ELSE "DIMENSION RESPONSE"
===============================================================================
