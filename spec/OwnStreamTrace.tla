---------------------------- MODULE OwnStreamTrace ----------------------------
(* Records of the real protocol or client judged by OwnStream.
   packets[i]: bytes fed; got[i]: the texts (and types[i]: the classes) readable
   after it; err[i]: "no", "parse", "ascii", "other"; closed[i]: the gateway saw the
   connection closed (client records).                                          *)
EXTENDS OwnStream, OwnVerdict
If(c, name) == IF c THEN {} ELSE {name}

\* after a malformed byte, the frames that start again after the next terminator may be
\* delivered or dropped: the rest of that packet is not specified further
RECURSIVE After(_, _)
After(s, bytes) ==      \* bytes of the packet after the first malformed one
  IF bytes = <<>> THEN <<>>
  ELSE LET t == Byte1(s, Head(bytes)) IN IF t.dead # "no" THEN Tail(bytes) ELSE After(t, Tail(bytes))
Tails(rest) == LET fs == FramesOf(rest) IN IF fs = <<>> THEN <<>> ELSE Tail(fs)

HasAscii(p) == \A i \in 1..Len(p) : p[i] < 128

PacketBad(s, t, r, i) ==
  LET p == r.packets[i]
      got == r.got[i]
  IN  IF t.dead = "no"
      THEN If(got = t.out, "frames")
           \cup If(r.err[i] = "no" /\ ~r.closed[i], "error without cause")
           \cup If(\A j \in 1..Len(got) : j <= Len(t.out) /\ Parse(t.out[j]).ok => r.types[i][j] = Parse(t.out[j]).type,
                   "type")
      ELSE If(StartsWith(got, t.out), "frames before the error")
           \cup If(got = t.out \/ got = t.out \o Tails(After([s EXCEPT !.out = <<>>], p)), "invented")
           \cup IF r.via = "client"
                THEN If(r.closed[i], "connection kept")
                ELSE If(r.err[i] = t.dead \/ (~HasAscii(p) /\ r.err[i] \in {"parse", "ascii"}), "error kind")

RECURSIVE Judge(_, _, _)
Judge(s, r, i) ==
  IF i > Len(r.packets) \/ s.q = "open" THEN {}
  ELSE LET t == Packet([s EXCEPT !.dead = "no"], r.packets[i])
       IN  IF t.q = "open" THEN {}
           ELSE PacketBad([s EXCEPT !.dead = "no"], t, r, i)
                \cup (IF t.dead # "no" /\ r.via = "client" THEN {} ELSE Judge(t, r, i + 1))

\* long frames and long streams: texts are coded as runs <<character, count>>
RunLen(f) == FoldLeft(LAMBDA a, x : a + x[2], 0, f)
BulkBad(r) ==
  LET es == Ends([i \in 1..Len(r.frames) |-> RunLen(r.frames[i])], r.gaps)
      upto(j) == IF j = 0 THEN 0 ELSE Completed(es, r.ends[j])
  IN  UNION {If(r.got[j] = SubSeq(r.frames, upto(j - 1) + 1, upto(j)), "frames")
             \cup If(r.err[j] = "no" /\ ~r.closed[j], "error without cause") : j \in 1..Len(r.ends)}

C03Clauses(r) == IF r.k = "bulk" THEN BulkBad(r) ELSE Judge(Start, r, 1)
C04Clauses(r) == Judge(Start, r, 1)
===============================================================================
