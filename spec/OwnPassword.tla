----------------------------- MODULE OwnPassword -----------------------------
(* The OPEN password algorithm (C08): 32-bit words as sequences of 32 bits, most
   significant first.  Anchored in pyown/auth/open.py; the operations are those
   of the published OPEN algorithm.                                             *)
EXTENDS OwnText

Bits == 32
RotL(w, n) == SubSeq(w, n + 1, Bits) \o SubSeq(w, 1, n)
RotR(w, n) == RotL(w, Bits - n)
Byte(w, i) == SubSeq(w, 8 * (3 - i) + 1, 8 * (4 - i))      \* byte 3 is the most significant
Word(b3, b2, b1, b0) == b3 \o b2 \o b1 \o b0
Not(w) == [i \in 1..Bits |-> 1 - w[i]]

Apply(w, digit) ==
  CASE digit = 1 -> RotR(w, 7)
    [] digit = 2 -> RotR(w, 4)
    [] digit = 3 -> RotR(w, 3)
    [] digit = 4 -> RotL(w, 1)
    [] digit = 5 -> RotL(w, 5)
    [] digit = 6 -> RotL(w, 12)
    [] digit = 7 -> Word(Byte(w, 0), Byte(w, 3), Byte(w, 1), Byte(w, 2))
    [] digit = 8 -> Word(Byte(w, 1), Byte(w, 0), Byte(w, 2), Byte(w, 3))
    [] digit = 9 -> Not(w)
    [] OTHER -> w

Answer(w, nonce) == FoldLeft(LAMBDA a, d : Apply(a, d - Zero), w, nonce)

\* Decimal text of a word, by doubling a number held as decimal digits (least significant first).
DoubleAdd(ds, bit) ==
  LET go == FoldLeft(LAMBDA acc, d : [c |-> (2 * d + acc.c) \div 10, o |-> Append(acc.o, (2 * d + acc.c) % 10)],
                     [c |-> bit, o |-> <<>>], ds)
  IN  IF go.c = 0 THEN go.o ELSE Append(go.o, go.c)
Decimal(w) == LET ds == FoldLeft(LAMBDA acc, b : DoubleAdd(acc, b), <<>>, w)
              IN  IF ds = <<>> THEN <<Zero>> ELSE [i \in 1..Len(ds) |-> Zero + ds[Len(ds) + 1 - i]]
===============================================================================
