------------------------------- MODULE OwnSecret -------------------------------
(* What the password is allowed to leave behind (C28).  Symbolic: a term is an atom, a
   list of terms, or the image of a list under a one-way function.
     open: the answer of the OPEN algorithm, hash: SHA-1 or SHA-256
   Anchored in pyown/client/base.py (_authenticate_open, _authenticate_hmac), pyown/auth,
   docs/original/hmac.md.                                                                *)
EXTENDS Integers, Sequences, FiniteSets

Atom(a)    == [f |-> "atom", a |-> a, ts |-> <<>>]
Open(ts)   == [f |-> "open", a |-> "", ts |-> ts]
HashOf(ts) == [f |-> "hash", a |-> "", ts |-> ts]

Password  == Atom("password")
KabTerm   == HashOf(<<Password>>)
Secrets   == {Password, KabTerm}

\* what the client says in each phase of the handshake
Announce            == <<Atom("session")>>
OpenAnswer(nonce)   == <<Open(<<Password, nonce>>)>>
KeyAndProof(ra, rb) == <<rb, HashOf(<<ra, rb, Atom("A"), Atom("B"), KabTerm>>)>>
Says(phase, ra, rb) ==
  CASE phase = "announce" -> Announce
    [] phase = "open"     -> OpenAnswer(ra)
    [] phase = "proof"    -> KeyAndProof(ra, rb)
    [] phase = "accept"   -> <<Atom("ack")>>
    [] phase = "refuse"   -> <<Atom("nack")>>

\* what can be made of a set of terms: one-way functions can be applied, not undone.  Only
\* the terms in `goal` are looked for, so applying is the same as having all the arguments.
RECURSIVE Derives(_, _)
Derives(known, t) ==
  t \in known \/ (t.f # "atom" /\ \A i \in 1..Len(t.ts) : Derives(known, t.ts[i]))
===============================================================================
