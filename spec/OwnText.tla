------------------------------- MODULE OwnText -------------------------------
(* Text of the OpenWebNet wire as sequences of character codes, and the total
   string operators the other modules are built from.                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

Star  == 42
Hash  == 35
Zero  == 48
Digit == 48..57

\* What Python's str.strip() and \s treat as blank.
Blank == (9..13) \cup (28..32) \cup {133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)

TagChar  == Digit \cup {Hash}
BodyChar == TagChar \cup {Star}

AllIn(s, S) == \A i \in 1..Len(s) : s[i] \in S

Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p)   == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

\* Does a "##" occur in s?
HasTerminator(s) == \E i \in 1..(Len(s) - 1) : s[i] = Hash /\ s[i + 1] = Hash

\* Strip blanks on both sides.
Strip(s) ==
  LET ns == {i \in 1..Len(s) : s[i] \notin Blank}
  IN  IF ns = {} THEN <<>>
      ELSE SubSeq(s, CHOOSE i \in ns : \A j \in ns : i <= j,
                     CHOOSE i \in ns : \A j \in ns : i >= j)

\* Split s at every occurrence of the character c: always at least one part.
Split(s, c) ==
  FoldLeft(LAMBDA acc, x : IF x = c THEN Append(acc, <<>>)
                           ELSE [acc EXCEPT ![Len(acc)] = Append(@, x)],
           <<<<>>>>, s)

Cat(parts) == FoldLeft(LAMBDA a, b : a \o b, <<>>, parts)

\* Each part preceded by the character c.
Prefixed(c, parts) == FoldLeft(LAMBDA a, b : a \o <<c>> \o b, <<>>, parts)

\* Parts separated by the character c.
Join(c, parts) == IF parts = <<>> THEN <<>> ELSE Head(parts) \o Prefixed(c, Tail(parts))

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

\* Decimal text of a natural number, and its value back (texts of at most 9 digits).
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<Zero + n>> ELSE Append(NatText(n \div 10), Zero + (n % 10))

NatVal(s) == FoldLeft(LAMBDA a, d : a * 10 + (d - Zero), 0, s)

\* n written with at least w digits
Pad(n, w) == LET t == NatText(n) IN [i \in 1..Max2(0, w - Len(t)) |-> Zero] \o t

IsNatText(s) == Len(s) \in 1..9 /\ AllIn(s, Digit)
=============================================================================
