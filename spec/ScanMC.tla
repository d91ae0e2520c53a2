------------------------------- MODULE ScanMC --------------------------------
(* Every text of up to MaxLen pieces, after each of the prefixes; grown piece  *)
(* by piece.  A piece is one symbol, or a whole comment, string or gap.       *)
EXTENDS Scanner, Json, TLC
CONSTANTS Pieces, MaxLen, Show
One(S) == {<<c>> : c \in S}
Full == One({"/", "*", "\"", "'", "\\", "\n", " ", "x", "service", "{", "}", ";"})
Odd == One({"/", "*", "\n", "\r", "\t", "<nbsp>", "<eacute>", "<digit>", "x", "_", "\"", "<quote>"})
Whole == One({" ", "\t", "\n", "x", "{", "}"}) \cup {<<" ", " ">>, <<"\t", " ">>, <<"/", "*", "x", "*", "/">>, <<"/", "*", "\n", "*", "/">>, <<"/", "/", "x", "\n">>, <<"/", "/", "\n">>, <<"\"", "x", "\"">>}
VARIABLE text, n
Heads == {<<>>, <<"service", " ", "x", "{">>}
Out == [t |-> text, us |-> [i \in 1..Len(Units(text)) |-> [v |-> Units(text)[i].v, l |-> Units(text)[i].line]],
        ts |-> [i \in 1..Len(Tokens(text)) |-> [v |-> Tokens(text)[i].v, t |-> Tokens(text)[i].t, l |-> Tokens(text)[i].line]],
        bal |-> Balanced(Units(text))]
Init == n = 0 /\ text \in Heads
Next == n < MaxLen /\ n' = n + 1 /\ \E c \in Pieces : text' = text \o c
Spec == Init /\ [][Next]_<<text, n>>
Inv == ScannerOk(text) /\ (IF Show THEN PrintT("@@" \o ToJson(Out)) ELSE TRUE)
=============================================================================
