---------------------------- MODULE OwnPasswordMC ----------------------------
(* Words evolving under nonce digits: all operations permute or complement bits. *)
EXTENDS OwnPassword
CONSTANT MaxDigits
VARIABLES word, first, nonce
Hot(i) == [j \in 1..Bits |-> IF j = i THEN 1 ELSE 0]
Init == /\ word \in {Hot(i) : i \in 1..Bits} \cup {[j \in 1..Bits |-> 0], [j \in 1..Bits |-> j % 2]}
        /\ first = word /\ nonce = <<>>
Next == /\ Len(nonce) < MaxDigits
        /\ \E d \in 0..9 : word' = Apply(word, d) /\ nonce' = Append(nonce, Zero + d)
        /\ UNCHANGED first
Ones(w) == Cardinality({i \in 1..Bits : w[i] = 1})
Nines == Cardinality({i \in 1..Len(nonce) : nonce[i] = Zero + 9})
Typed == Len(word) = Bits /\ \A i \in 1..Bits : word[i] \in 0..1
Conserved == Ones(word) = IF Nines % 2 = 0 THEN Ones(first) ELSE Bits - Ones(first)
Function == word = Answer(first, nonce)
LeadingZeros == word = Answer(first, <<Zero, Zero>> \o nonce)
Texts == Len(Decimal(word)) \in 1..10 /\ AllIn(Decimal(word), Digit)
===============================================================================
