---------------------------- MODULE OwnEventsTrace ----------------------------
(* Histories of real event loops judged by OwnEvents.  After each operation: the
   callbacks entered (with the item and the values they got), the slow callbacks that
   finished, and the state of each client's loop().                                   *)
EXTENDS OwnEvents, OwnVerdict
If(c, name) == IF c THEN {} ELSE {name}
At(s, c, f(_)) == [s EXCEPT !.cl[c] = f(@)]

\* ---- what an operation makes the loops dispatch ---------------------------------------
Dispatching(s, o) == \/ o.op = "loop"
                     \/ o.op = "recv" /\ s.cl[o.c].run = "running"
Frames(s, o) == CASE o.op = "loop" -> s.cl[o.c].queue
                  [] o.op = "recv" /\ s.cl[o.c].run = "running" -> o.frames
                  [] OTHER -> <<>>
Binding(s, o) == IF o.op = "loop" THEN o.bind ELSE s.cl[o.c].bind

\* ---- the calls ------------------------------------------------------------------------
Size(gs, j) == FoldLeft(LAMBDA a, i : a + Len(gs[i].to), 0, [i \in 1..j |-> i])
CbSet(g) == {g.to[i].cb : i \in 1..Len(g.to)}
Slice(calls, gs, i) == SubSeq(calls, Size(gs, i - 1) + 1, Size(gs, i))
GroupBad(calls, gs, i) ==
  LET g == gs[i]
      cs == Slice(calls, gs, i)
      m == M!Parse(g.f)
  IN  If({cs[k].cb : k \in 1..Len(cs)} = CbSet(g), "order")
      \cup If(\A k \in 1..Len(cs) : cs[k].vals = g.vals, "values")
      \cup If(\A k \in 1..Len(cs) : cs[k].item.cls = ClassOf(m.who) /\ cs[k].item.w = m.where, "item")
\* closers of this client
Stops(g, c) == \E i \in 1..Len(g.to) : g.to[i].kind = "close" /\ g.to[i].d = c
Allowed(gs, c) == LET k == {i \in 1..Len(gs) : Stops(gs[i], c)}
                  IN  IF k = {} THEN {Len(gs)} ELSE (CHOOSE i \in k : \A j \in k : i <= j)..Len(gs)
Fit(gs, c, n) == {j \in Allowed(gs, c) : Size(gs, j) = n}
CallsBad(s, o, gs) ==
  LET n == Len(o.calls)
      J == Fit(gs, o.c, n)
      known == UNION {CbSet(gs[i]) : i \in 1..Len(gs)}
  IN  IF J # {} THEN UNION {GroupBad(o.calls, gs, i) : i \in 1..(CHOOSE j \in J : TRUE)}
      ELSE IF \E k \in 1..n : o.calls[k].cb \notin known THEN {"called for something else"}
      ELSE IF n < Size(gs, Len(gs)) THEN {"event lost"} ELSE {"called again"}

\* ---- the items (C24) --------------------------------------------------------------------
\* s.items: set of [key, id, bind]; s.maybe: set of <<key, bind>>
Seen(s, key) == {x \in s.items : x.key = key}
ItemBad(s, key, it, bind) ==
  LET old == Seen(s, key)
  IN  IF old # {} THEN If(\A x \in old : x.id = it.id, "item.changed") \cup If(\A x \in old : x.bind = it.bind, "item.client changed")
      ELSE If(\A x \in s.items : x.id # it.id, "item.shared")
           \cup If(it.bind = bind \/ <<key, it.bind>> \in s.maybe, "item.client")
           \cup If(it.cls = ClassOf(key[2]) /\ it.who = key[2] /\ it.w = (IF key[2] = T(13) THEN <<>> ELSE key[3]), "item.address")
Note(s, key, it) == IF Seen(s, key) # {} THEN s ELSE [s EXCEPT !.items = @ \cup {[key |-> key, id |-> it.id, bind |-> it.bind]}]
RECURSIVE ItemsWalk(_, _, _, _, _)
\* <<clauses, state>> after the items of calls i.. of the groups
ItemsWalk(s, o, gs, j, i) ==
  IF i > j THEN <<{}, s>>
  ELSE LET key == KeyOf(o.c, gs[i].f)
           cs == Slice(o.calls, gs, i)
           bad == UNION {ItemBad(s, key, cs[k].item, Binding(s, o)) : k \in 1..Len(cs)} \cup
                  If(\A k \in 1..Len(cs) : cs[k].item = cs[1].item, "item.changed")
       IN  IF bad # {} THEN <<bad, s>> ELSE ItemsWalk(Note(s, key, cs[1].item), o, gs, j, i + 1)
\* frames that reached no callback may have created their item
Silent(s, o, frames) == {<<KeyOf(o.c, frames[i]), Binding(s, o)>> : i \in {i \in 1..Len(frames) : Named(frames[i])}}

\* ---- the state after the operation -------------------------------------------------------
Sleepers(s, o, gs, j) ==
  Cat([i \in 1..j |-> LET sl == SelectSeq(gs[i].to, LAMBDA r : r.kind = "slow")
                      IN  [k \in 1..Len(sl) |-> [cb |-> sl[k].cb, until |-> s.now + sl[k].d, c |-> o.c, sure |-> TRUE]]])
ClosedBy(gs, j) == UNION {{gs[i].to[k].d : k \in {k \in 1..Len(gs[i].to) : gs[i].to[k].kind = "close"}} : i \in 1..j}
End(s, c, ph) == IF s.cl[c].ph = "up" THEN [s EXCEPT !.cl[c].ph = ph, !.cl[c].at = s.now]
                 ELSE IF ph = "closed" THEN [s EXCEPT !.cl[c].ph = "closed"] ELSE s
RECURSIVE EndAll(_, _)
EndAll(s, C) == IF C = {} THEN s ELSE LET c == CHOOSE c \in C : TRUE IN EndAll(End(s, c, "closed"), C \ {c})

Unsure(s) == [s EXCEPT !.sleep = [i \in 1..Len(@) |-> [@[i] EXCEPT !.sure = @ /\ s.cl[s.sleep[i].c].ph = "up"]]]
Basic(s, o) ==
  CASE o.op = "reg" -> [s EXCEPT !.regs = Append(@, [ev |-> o.ev, cb |-> o.cb, kind |-> o.kind, d |-> o.d])]
    [] o.op = "start" -> [s EXCEPT !.cl[o.c] = [NewClient EXCEPT !.ph = "up", !.run = s.cl[o.c].run]]
    [] o.op = "loop" -> LET t == [s EXCEPT !.cl[o.c].run = "running", !.cl[o.c].bind = o.bind, !.cl[o.c].queue = <<>>]
                        IN  IF s.cl[o.c].ph = "up" THEN t ELSE [t EXCEPT !.cl[o.c].at = s.now]
    [] o.op = "recv" -> LET t == IF s.cl[o.c].run = "running" THEN s ELSE [s EXCEPT !.cl[o.c].queue = @ \o o.frames]
                        IN  IF o.end = "none" THEN t ELSE End(t, o.c, "ended")
    [] o.op = "close" -> End(s, o.c, "closed")
    \* closed and started again at once; seen a while later
    [] o.op = "reopen" -> Unsure([End(s, o.c, "closed") EXCEPT !.now = @ + o.d])
    [] o.op = "wait" -> [s EXCEPT !.now = @ + o.d]
    [] OTHER -> s

\* ---- slow callbacks ------------------------------------------------------------------------
Due(s, cb) == Cardinality({i \in 1..Len(s.sleep) : s.sleep[i].cb = cb /\ s.sleep[i].until <= s.now})
Sure(s, cb) == Cardinality({i \in 1..Len(s.sleep) : s.sleep[i].cb = cb /\ s.sleep[i].until <= s.now /\ s.sleep[i].sure})
Told(o, cb) == Cardinality({i \in 1..Len(o.done) : o.done[i] = cb})
DoneBad(s, o) ==
  LET cbs == {s.sleep[i].cb : i \in 1..Len(s.sleep)} \cup {o.done[i] : i \in 1..Len(o.done)}
  IN  If(\A cb \in cbs : Told(o, cb) >= Sure(s, cb), "callback interrupted") \cup If(\A cb \in cbs : Told(o, cb) <= Due(s, cb), "callback finished early")
Wake(s) == [s EXCEPT !.sleep = SelectSeq(@, LAMBDA x : x.until > s.now)]
\* the new session that a client has after reopen
Reopened(s, o) == IF o.op # "reopen" THEN s ELSE [s EXCEPT !.cl[o.c] = [NewClient EXCEPT !.ph = "up", !.run = s.cl[o.c].run]]

\* ---- the loops --------------------------------------------------------------------------------
LoopBad(s, c, seen) ==
  LET k == s.cl[c]
  IN  IF k.run # "running" THEN If(seen = k.run, "loop.state")
      ELSE IF k.ph = "up" THEN If(seen = "running", IF seen = "ok" THEN "loop.ended" ELSE "loop.raised")
      ELSE IF seen = "running" THEN If(s.now < k.at + Soon, "loop.not ended")
      ELSE If(seen = "ok", "loop.raised")
LoopsSeen(s, o) == [s EXCEPT !.cl = [c \in DOMAIN @ |-> IF @[c].run = "running" THEN [@[c] EXCEPT !.run = o.loops[c]] ELSE @[c]]]

GetBad(s, o) ==
  IF o.op # "get" THEN {}
  ELSE LET want == GetOutcome(o.who, o.w)
       IN  If(o.st = want, "get.outcome") \cup (IF o.st = "ok" /\ want = "ok" THEN ItemBad(s, <<o.c, o.who, o.w>>, o.item, o.bind) ELSE {})
Got(s, o) == IF o.op = "get" /\ o.st = "ok" THEN Note(s, <<o.c, o.who, o.w>>, o.item) ELSE s

\* acc: the clauses broken so far and the state
Step(acc, o) ==
  IF acc.bad # {} THEN acc
  ELSE LET s == acc.s
           frames == Frames(s, o)
           gs == TLCEval(Groups(s, frames))
           bad1 == IF frames # <<>> THEN CallsBad(s, o, gs) ELSE If(o.calls = <<>>, "called for something else")
       IN  IF bad1 # {} THEN [bad |-> bad1, s |-> s]
           ELSE LET j == IF frames = <<>> THEN 0 ELSE CHOOSE j \in Fit(gs, o.c, Len(o.calls)) : TRUE
                    s1 == IF frames = <<>> THEN s ELSE [s EXCEPT !.maybe = @ \cup Silent(s, o, frames)]
                    iw == TLCEval(ItemsWalk(s1, o, gs, j, 1))
                    s2 == [iw[2] EXCEPT !.sleep = @ \o (IF j = 0 THEN <<>> ELSE Sleepers(s, o, gs, j))]
                    s3 == TLCEval(EndAll(Basic(s2, o), IF j = 0 THEN {} ELSE ClosedBy(gs, j)))
                    bad2 == iw[1] \cup DoneBad(s3, o) \cup UNION {LoopBad(s3, c, o.loops[c]) : c \in DOMAIN s3.cl} \cup GetBad(s3, o)
                IN  IF bad2 # {} THEN [bad |-> bad2, s |-> s]
                    ELSE [bad |-> {}, s |-> TLCEval(Reopened(Unsure(Wake(LoopsSeen(Got(s3, o), o))), o))]
\* many items of one client, asked for again: the same object for the same place, never another's
ManyBad(r) ==
  LET n == Len(r.keys)
  IN  If(\A i \in 1..n : r.first[i].who = r.keys[i].who /\ r.first[i].w = r.keys[i].w, "item.address")
      \cup If(Cardinality({r.first[i].id : i \in 1..n}) = n, "item.shared")
      \cup If(\A j \in 1..Len(r.again) : r.again[j].it = r.first[r.again[j].i], "item.changed")
EventsBad(r) == IF r.k = "many" THEN ManyBad(r) ELSE IF r.k # "events" THEN {} ELSE FoldLeft(Step, [bad |-> {}, s |-> Fresh(r.n)], r.ops).bad
Identity == {"item.changed", "item.client changed", "item.shared", "item.client", "item.address", "get.outcome"}
LoopOnly == {"loop.state", "loop.ended", "loop.raised", "loop.not ended", "event lost"}
C21Clauses(r) == EventsBad(r) \ Identity
C22Clauses(r) == EventsBad(r) \ Identity
C23Clauses(r) == EventsBad(r) \cap LoopOnly
C24Clauses(r) == EventsBad(r) \cap Identity
===============================================================================
