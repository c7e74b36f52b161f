------------------------------- MODULE OwnTagsMC -------------------------------
(* Exploration of tags: tags grown by parameters, every address of the WHERE
   table with every local bus suffix, every hexadecimal text up to a length.     *)
EXTENDS OwnTags
CONSTANTS Bases, Parms, MaxParams, HexAlphabet, MaxHex
MCBases == {<<>>, <<49>>, <<48, 48>>, <<49, 48, 48, 48>>}
MCParms == {<<49>>, <<48, 48>>, <<52>>, <<50, 53, 53>>}
ASSUME {NatText(WhoTable[a]) : a \in DOMAIN WhoTable} = WhoCode
VARIABLES kind, t, parts
vars == <<kind, t, parts>>

Init == \/ kind = "tag" /\ t \in Bases /\ parts = <<>>
        \/ kind = "where" /\ t \in Addresses \cup {<<>>} /\ parts = <<>>
        \/ kind = "hex" /\ t = <<>> /\ parts = <<>>
Next == \/ /\ kind = "tag" /\ Len(parts) < MaxParams
           /\ \E p \in Parms : t' = WithParam(t, p) /\ parts' = Append(parts, p)
           /\ UNCHANGED kind
        \/ /\ kind = "where" /\ parts = <<>>
           /\ \E i \in Interfaces : t' = LocalBus(t, i) /\ parts' = <<i>>
           /\ UNCHANGED kind
        \/ /\ kind = "hex" /\ Len(t) < MaxHex
           /\ \E c \in HexAlphabet : t' = Append(t, c)
           /\ UNCHANGED <<kind, parts>>
Spec == Init /\ [][Next]_vars

Decomposes == kind = "tag" => /\ Params(t) = parts
                              /\ Base(t) \in Bases
                              /\ t = Join(Hash, <<Base(t)>> \o Params(t))
                              /\ ValidTag(t)
Classified == kind = "where" /\ t # <<>> =>
                 Kind(t) \in {"GENERAL", "AMBIENT", "LIGHT_POINT", "GROUP", "LOCAL_BUS"}
\* the sets of the table do not overlap
Disjoint == kind = "where" /\ parts = <<>> /\ t # <<>> =>
              Cardinality({S \in {General, Areas, Points, Groups} : t \in S}) = 1
Lossless == kind = "hex" => /\ IsDigitsOfHex(ToDigits(t))
                            /\ ToHex(ToDigits(t)) = Lower(t)
                            /\ Len(ToDigits(t)) = 2 * Len(t)
===============================================================================
