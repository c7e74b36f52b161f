------------------------------- MODULE OwnStream -------------------------------
(* Framing of the byte stream (C03, C04).  Anchored in pyown/protocol/protocol.py.

   The receiver is an automaton over bytes.  q is
     "idle"  between frames (blanks allowed)
     "body"  inside a frame, the last byte was not '#'
     "hash"  inside a frame, the last byte was '#'
     "open"  the stream left what is specified (a stray '#' between frames or an
             exotic blank): nothing is claimed about the rest of it
   A byte that cannot belong to a frame kills the packet it is in: the frames
   completed before are delivered, the rest of the packet is malformed and the
   receiver starts afresh.                                                       *)
EXTENDS OwnMessage

SureBlank == {9, 10, 13, 32}
OddBlank  == {11, 12, 28, 29, 30, 31}

Start == [q |-> "idle", part |-> <<>>, out |-> <<>>, dead |-> "no"]

Byte1(s, b) ==
  LET push(q) == [s EXCEPT !.q = q, !.part = Append(@, b)]
      die     == [s EXCEPT !.q = "idle", !.part = <<>>, !.dead = IF b > 127 THEN "ascii" ELSE "parse"]
  IN  IF s.dead # "no" \/ s.q = "open" THEN s
      ELSE IF s.q = "idle" THEN
             IF b = Star THEN push("body")
             ELSE IF b \in SureBlank THEN s
             ELSE IF b \in OddBlank \cup {Hash} THEN [s EXCEPT !.q = "open"]
             ELSE die
      ELSE IF b = Hash THEN
             IF s.q = "hash"
             THEN [s EXCEPT !.q = "idle", !.part = <<>>, !.out = Append(@, Append(s.part, b))]
             ELSE push("hash")
      ELSE IF b \in Digit \cup {Star} THEN push("body")
      ELSE die

\* One packet: the deliveries of the packet alone, and the state after it.
Packet(s, bytes) == FoldLeft(Byte1, [s EXCEPT !.out = <<>>, !.dead = "no"], bytes)

\* The same stream read as a whole: the texts between terminators.
RECURSIVE FramesOf(_)
FramesOf(t) ==
  LET S == {i \in 1..(Len(t) - 1) : t[i] = Hash /\ t[i + 1] = Hash}
  IN  IF S = {} THEN <<>>
      ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j
           IN  <<Strip(Take(t, i + 1))>> \o FramesOf(Drop(t, i + 1))
RECURSIVE RestOf(_)
RestOf(t) ==
  LET S == {i \in 1..(Len(t) - 1) : t[i] = Hash /\ t[i + 1] = Hash}
  IN  IF S = {} THEN Strip(t)
      ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN RestOf(Drop(t, i + 1))

\* A long stream of complete frames, given by the length of every frame and of the blanks
\* after it: the frames (by number) that a packet ending at byte ends[j] completes.
Ends(lens, gaps) ==
  FoldLeft(LAMBDA a, i : [at |-> a.at + lens[i] + gaps[i], ends |-> Append(a.ends, a.at + lens[i])],
           [at |-> 0, ends |-> <<>>], [i \in 1..Len(lens) |-> i]).ends
\* how many frames are complete once the first p bytes have arrived
RECURSIVE CountUpTo(_, _, _, _)
CountUpTo(es, p, lo, hi) ==          \* es ascending; the answer lies in lo..hi
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN  IF es[mid] <= p THEN CountUpTo(es, p, mid, hi) ELSE CountUpTo(es, p, lo, mid - 1)
Completed(es, p) == CountUpTo(es, p, 0, Len(es))
=============================================================================
