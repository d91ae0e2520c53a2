------------------------------- MODULE Scanner -------------------------------
(* What the definition reader sees of a text: units (scanner) and tokens      *)
(* (lexer).  A text is a sequence of symbols; a symbol is one character or,   *)
(* to keep texts short, a whole word or the plain content of a string.        *)
(* The scanner is a machine that takes one symbol at a time.                  *)
EXTENDS Naturals, Sequences, SequencesExt
CONSTANT Words                     \* symbols made of identifier characters

Cls(c) == CASE c \in {" ", "\n", "\t", "\r", "<nbsp>"} -> "ws"
            [] c = "/" -> "slash"
            [] c \in {"\"", "'"} -> "quote"
            [] c \in Words -> "id"
            [] OTHER -> "sym"

---------------------------------------------------------------------------
(* The scanning machine.  cur is the unit being read, mode what it is.       *)
Scan0 == [us |-> <<>>, cur |-> <<>>, mode |-> "none", q |-> "", line |-> 1]

Emit(st) == [st EXCEPT !.us = Append(@, [v |-> st.cur, k |-> st.mode, line |-> st.line]),
                       !.cur = <<>>, !.mode = "none"]
More(st, c, m) == [st EXCEPT !.cur = Append(@, c), !.mode = m,
                             !.line = @ + (IF c = "\n" THEN 1 ELSE 0)]
Begin(st, c) ==
  CASE Cls(c) = "ws" -> More(st, c, "ws")
    [] Cls(c) = "id" -> More(st, c, "id")
    [] Cls(c) = "slash" -> More(st, c, "slash")
    [] Cls(c) = "quote" -> [More(st, c, "str") EXCEPT !.q = c]
    [] OTHER -> Emit(More(st, c, "sym"))

(* One symbol of input.                                                      *)
Step(st, c) ==
  CASE st.mode = "none" -> Begin(st, c)
    [] st.mode = "ws"    -> IF Cls(c) = "ws" THEN More(st, c, "ws") ELSE Begin(Emit(st), c)
    [] st.mode = "id"    -> IF Cls(c) = "id" THEN More(st, c, "id") ELSE Begin(Emit(st), c)
    [] st.mode = "slash" -> CASE c = "/" -> More(st, c, "line")
                              [] c = "*" -> More(st, c, "block")
                              [] OTHER -> Begin(Emit([st EXCEPT !.mode = "sym"]), c)
    [] st.mode = "line"  -> IF c = "\n" THEN Emit(More(st, c, "line")) ELSE More(st, c, "line")
    [] st.mode = "block" -> More(st, c, IF c = "*" THEN "star" ELSE "block")
    [] st.mode = "star"  -> CASE c = "/" -> Emit(More(st, c, "block"))
                              [] c = "*" -> More(st, c, "star")
                              [] OTHER -> More(st, c, "block")
    [] st.mode = "str"   -> CASE c = "\\" -> More(st, c, "esc")
                              [] c = st.q -> Emit(More(st, c, "str"))
                              [] OTHER -> More(st, c, "str")
    [] st.mode = "esc"   -> More(st, c, "str")

Canon(k) == CASE k = "slash" -> "sym" [] k = "star" -> "block" [] k = "esc" -> "str" [] OTHER -> k
(* The end of the text ends whatever was being read.                         *)
Finish(st) == IF st.mode = "none" THEN st.us
              ELSE Emit([st EXCEPT !.mode = Canon(@)]).us
Units(t) == Finish(FoldLeft(Step, Scan0, t))

Comment(u) == u.k \in {"line", "block"}
Layout(u) == u.k = "ws" \/ Comment(u)
Word(u, w) == u.k = "id" /\ u.v = <<w>>

---------------------------------------------------------------------------
(* Which units belong to a service definition.  The word "service" begins   *)
(* one if it stands outside all braces and the next thing is a name.         *)
RECURSIVE NextIsName(_, _)
NextIsName(us, k) == /\ k <= Len(us)
                     /\ \/ us[k].k = "id"
                        \/ Layout(us[k]) /\ NextIsName(us, k + 1)
Brace(u, b) == u.k = "sym" /\ u.v = <<b>>

(* State after each unit: brace level, between "service" and its brace,      *)
(* inside its body, and whether the unit belongs to a service.               *)
Where(us) ==
  LET Go(st, k) ==
        LET u == us[k]
            start == Word(u, "service") /\ st.lev = 0 /\ NextIsName(us, k + 1)
            lev == IF Brace(u, "{") THEN st.lev + 1 ELSE IF Brace(u, "}") THEN st.lev - 1 ELSE st.lev
            def == CASE start -> TRUE [] Brace(u, "{") -> FALSE [] OTHER -> st.def
            body == CASE Brace(u, "{") /\ st.def -> TRUE
                      [] Brace(u, "}") /\ lev = 0 -> FALSE
                      [] OTHER -> st.body
            here == st.on \/ start
        IN [lev |-> lev, def |-> def, body |-> body, start |-> start,
            here |-> here, on |-> here /\ ~(lev = 0 /\ ~def /\ ~body),
            low |-> st.low \/ lev < 0,
            all |-> Append(st.all, [lev |-> lev, def |-> def, body |-> body, start |-> start, here |-> here, on |-> here /\ ~(lev = 0 /\ ~def /\ ~body)])]
  IN FoldLeft(Go, [lev |-> 0, def |-> FALSE, body |-> FALSE, start |-> FALSE, here |-> FALSE,
                   on |-> FALSE, low |-> FALSE, all |-> <<>>], [k \in 1..Len(us) |-> k])
\* After unit k, the reader is within a service definition; where the next begins.
Inside(w, k) == k > 0 /\ (w[k].def \/ w[k].body)
NextStart(w, k) == CHOOSE j \in k+1..Len(w)+1 : /\ (j <= Len(w) => w[j].start)
                                               /\ \A i \in k+1..j-1 : ~w[i].start
Balanced(us) == ~Where(us).low     \* no closing brace without an opening one

---------------------------------------------------------------------------
(* Tokens: the units of the service definitions, with runs of comments      *)
(* joined unless an empty line or other text stands between them.            *)
TokKind(u) ==
  CASE u.k = "ws" -> "WHITESPACE" [] u.k = "id" -> "IDENT" [] u.k = "str" -> "STRING_LITERAL"
    [] Comment(u) -> "COMMENT"
    [] Brace(u, "(") -> "OPEN_PAREN" [] Brace(u, ")") -> "CLOSE_PAREN"
    [] Brace(u, "{") -> "OPEN_BRACE" [] Brace(u, "}") -> "CLOSE_BRACE"
    [] OTHER -> "SYMBOL"
Has(v, c) == \E i \in 1..Len(v) : v[i] = c
TokensOf(us) ==
  LET w == Where(us).all
      Go(ts, k) ==
        LET n == Len(ts)
            tok(v) == [t |-> TokKind(us[k]), v |-> v, line |-> us[k].line]
        IN IF ~w[k].here THEN ts
           ELSE IF Comment(us[k]) /\ n >= 1 /\ ts[n].t = "COMMENT" /\ w[k-1].here
                THEN SubSeq(ts, 1, n - 1) \o <<tok(ts[n].v \o us[k].v)>>
           ELSE IF Comment(us[k]) /\ n >= 2 /\ ts[n].t = "WHITESPACE" /\ ts[n-1].t = "COMMENT" /\ ~Has(ts[n].v, "\n")
                THEN SubSeq(ts, 1, n - 2) \o <<tok(ts[n-1].v \o ts[n].v \o us[k].v)>>
           ELSE Append(ts, tok(us[k].v))
  IN FoldLeft(Go, <<>>, [k \in 1..Len(us) |-> k])
Tokens(t) == TokensOf(Units(t))

---------------------------------------------------------------------------
(* Properties of the machine (C09).                                          *)
Concat(ss) == FoldLeft(LAMBDA a, u : a \o u.v, <<>>, ss)
Newlines(s) == Len(SelectSeq(s, LAMBDA c : c = "\n"))
Lossless(t) == Concat(Units(t)) = t
OneUnitEach(t) ==                  \* maximal runs; nothing empty
  LET us == Units(t) IN
  /\ \A k \in 1..Len(us) : us[k].v # <<>>
  /\ \A k \in 2..Len(us) : us[k].k \in {"ws", "id"} => us[k-1].k # us[k].k
  /\ \A k \in 1..Len(us) :
       LET v == us[k].v  n == Len(v) IN
       CASE us[k].k = "ws" -> \A i \in 1..n : Cls(v[i]) = "ws"
         [] us[k].k = "id" -> \A i \in 1..n : Cls(v[i]) = "id"
         [] us[k].k = "sym" -> n = 1
         [] us[k].k = "line" -> /\ v[1] = "/" /\ v[2] = "/"
                                /\ \A i \in 1..n-1 : v[i] # "\n"
                                /\ (k < Len(us) => v[n] = "\n")
         [] us[k].k = "block" -> /\ v[1] = "/" /\ v[2] = "*"
                                 /\ \A i \in 3..n-2 : ~(v[i] = "*" /\ v[i+1] = "/")
                                 /\ (k < Len(us) => n >= 4 /\ v[n-1] = "*" /\ v[n] = "/")
         [] us[k].k = "str" -> /\ v[1] \in {"\"", "'"}
                               /\ (k < Len(us) => n >= 2 /\ v[n] = v[1])
LinesRight(t) ==
  LET us == Units(t) IN
  \A k \in 1..Len(us) : us[k].line = 1 + Newlines(Concat(SubSeq(us, 1, k)))
(* Tokens are a contiguous reading of the service definitions.               *)
TokensRight(t) ==
  LET us == Units(t)  w == Where(us).all
      kept == FoldLeft(LAMBDA a, k : IF w[k].here THEN a \o us[k].v ELSE a, <<>>, [k \in 1..Len(us) |-> k])
  IN Concat(TokensOf(us)) = kept
ScannerOk(t) == Lossless(t) /\ OneUnitEach(t) /\ LinesRight(t) /\ TokensRight(t)
=============================================================================
