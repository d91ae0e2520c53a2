----------------------------- MODULE ScanSession -----------------------------
(* Reading with push-back.  A reader (scanner or lexer) holds the items of a *)
(* text; pos of them have been read.  The properties: what a read returns    *)
(* depends only on pos, whatever reads and push-backs led there.             *)
EXTENDS Scanner, Json, TLC
CONSTANTS Alphabet, MaxLen, MaxOps
Full == {"/", "*", "\"", "'", "\n", "\r", " ", "x", "<eacute>", "service", "{", "}", ";"}
Few == {"/", " ", "x", "\n"}
VARIABLES text, kind, items, at, pos, hist, phase   \* at: where each unit stands
vars == <<text, kind, items, at, pos, hist, phase>>

Skip == CASE kind = "lex" -> {"G", "GW", "GI"} [] OTHER -> {"R"}
IsLayoutTok(x) == x.t \in {"WHITESPACE", "COMMENT"}

(* The position of the item a read returns; Len + 1 at the end of input.     *)
RECURSIVE Find(_, _)
Find(p, op) ==
  IF p > Len(items) THEN p
  ELSE CASE op = "GW" /\ items[p].t = "WHITESPACE" -> Find(p + 1, op)
         [] op = "GI" /\ IsLayoutTok(items[p]) -> Find(p + 1, op)
         [] OTHER -> p

Res(p) == IF p > Len(items) THEN [eof |-> TRUE, v |-> <<>>, t |-> "EOF", l |-> 0]
          ELSE [eof |-> FALSE, v |-> items[p].v,
                t |-> IF kind = "lex" THEN items[p].t ELSE "", l |-> items[p].line]

Read(op) == LET p == Find(pos + 1, op) IN
  /\ pos' = IF p > Len(items) THEN Len(items) ELSE p
  /\ hist' = Append(hist, [op |-> op, k |-> 0, pos |-> pos', err |-> FALSE, res |-> Res(p)])
Unread ==
  /\ pos' = IF pos = 0 THEN 0 ELSE pos - 1
  /\ hist' = Append(hist, [op |-> "U", k |-> 0, pos |-> pos', err |-> pos = 0, res |-> Res(Len(items) + 1)])
BackTo(k) ==
  /\ k <= pos
  /\ pos' = k
  /\ hist' = Append(hist, [op |-> "P", k |-> k, pos |-> k, err |-> FALSE, res |-> Res(Len(items) + 1)])
(* To the next service definition, unless within one.                        *)
Forward ==
  LET p == IF Inside(at, pos) THEN pos ELSE NextStart(at, pos) - 1 IN
  /\ kind = "scan"
  /\ pos' = p
  /\ hist' = Append(hist, [op |-> "F", k |-> 0, pos |-> p, err |-> ~Inside(at, pos) /\ p = Len(items), res |-> Res(Len(items) + 1)])

Init == text \in {<<>>, <<"service", " ", "x", " ", "{">>} /\ kind \in {"scan", "lex"}
        /\ items = <<>> /\ at = <<>> /\ pos = 0 /\ hist = <<>> /\ phase = "text"
Grow == /\ phase = "text" /\ Len(text) < MaxLen
        /\ \E c \in Alphabet : text' = Append(text, c)
        /\ UNCHANGED <<kind, items, at, pos, hist, phase>>
Load == /\ phase = "text" /\ Len(text) >= MaxLen
        /\ phase' = "ops"
        /\ items' = IF kind = "lex" THEN Tokens(text) ELSE Units(text)
        /\ at' = IF kind = "scan" /\ Balanced(Units(text)) THEN Where(Units(text)).all ELSE <<>>
        /\ UNCHANGED <<text, kind, pos, hist>>
Op == /\ phase = "ops" /\ Len(hist) < MaxOps
      /\ \/ \E op \in Skip : Read(op)
         \/ Unread
         \/ \E k \in 0..pos : BackTo(k)
         \/ Len(at) = Len(items) /\ Forward
      /\ UNCHANGED <<text, kind, items, at, phase>>
Done == /\ phase = "ops" /\ Len(hist) = MaxOps /\ phase' = "done"
        /\ PrintT("@@" \o ToJson([text |-> text, kind |-> kind, bal |-> Balanced(Units(text)), ops |-> hist]))
        /\ UNCHANGED <<text, kind, items, at, pos, hist>>
Next == Grow \/ Load \/ Op \/ Done
Spec == Init /\ [][Next]_vars

(* Reads between push-backs visit consecutive items, and every read of the   *)
(* same position gives the same result.                                      *)
SameAgain == \A i, j \in 1..Len(hist) :
  (hist[i].op \in {"R", "G"} /\ hist[j].op \in {"R", "G"} /\ hist[i].pos = hist[j].pos
     /\ hist[i].res.eof = hist[j].res.eof) => hist[i].res = hist[j].res
(* Going forward twice is going forward once.                                *)
ForwardOk == \A i \in 1..Len(hist) : (i > 1 /\ hist[i].op = "F" /\ hist[i-1].op = "F") => hist[i].pos = hist[i-1].pos
PosOk == pos \in 0..Len(items)
=============================================================================
