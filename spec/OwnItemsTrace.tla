----------------------------- MODULE OwnItemsTrace -----------------------------
(* Items of the real library judged by OwnItems.
   res "ok" "tag" "other"; kind "" where the item has none; after: the address, kind
   and client once more, after the client was replaced                             *)
EXTENDS OwnItems, OwnVerdict
If(c, name) == IF c THEN {} ELSE {name}
ItemBad(r) ==
  LET m == Made(r.cls, r.in)
  IN  If(m = "ok" => r.res = "ok", "rejected") \cup If(m = "tag" => r.res = "tag", "accepted")
      \cup If(r.res \in {"ok", "tag"}, "raised")
      \cup IF r.res # "ok" THEN If(r.frames = <<>>, "sent")
           ELSE If(r.where = AddressOf(r.cls, r.in), "address") \cup If(r.client = "own", "client")
                \cup If(r.kind # "" => r.kind = KindOf(r.in), "kind") \cup If((r.cls \in {"EnergyManagement", "StopGo"}) = (r.kind # ""), "no kind")
                \cup If(r.after.where = r.where /\ r.after.kind = r.kind, "changed") \cup If(r.after.client = "new", "client replaced")
                \cup If(r.frames = <<>>, "sent")
\* the driver visited the whole table
Seen(c) == {Trace[i].in : i \in {j \in 1..Total : Trace[j].cls = c}}
ASSUME Documented \subseteq Seen("EnergyManagement") /\ Documented \subseteq Seen("StopGo")
===============================================================================
