-------------------------------- MODULE Yang --------------------------------
(***************************************************************************)
(* YANG source text (RFC 7950, sections 6.1 to 6.3): tokens, separators,     *)
(* quoting, concatenation, and the tree of statements.                       *)
(*                                                                         *)
(* A statement is <<prefix, keyword, argument, substatements>>; the argument *)
(* is <<>> or <<text>>, prefix "" if there is none.  Parsing at position i     *)
(* gives [p |-> next position, v |-> value] or, with p = 0, an error           *)
(*   <<"end">>           the text ends too early                             *)
(*   <<"bad", lo, hi>>   the character at hi is not allowed, in a token or    *)
(*                       statement that starts at lo                         *)
(*   <<"odd">>           left open (quotes inside unquoted strings)           *)
(***************************************************************************)
EXTENDS Lex

Err(e) == [p |-> 0, v |-> e]
Fin == Err(<<"end">>)
Bad(lo, hi) == Err(<<"bad", lo, hi>>)
Ok(p, v) == [p |-> p, v |-> v]

\* position after white space and comments that start at i (0: unfinished)
RECURSIVE Skip(_, _)
Skip(s, i) ==
    IF i > Len(s) THEN i
    ELSE LET c == Ch(s, i) IN
    CASE c \in {" ", "\t", "\n"} -> Skip(s, i + 1)
      [] c = "\r" -> IF i = Len(s) THEN 0 ELSE IF Ch(s, i + 1) = "\n" THEN Skip(s, i + 2) ELSE i
      [] c = "/" -> IF i = Len(s) THEN 0
                    ELSE IF Ch(s, i + 1) = "/"
                    THEN LET k == FindFrom(s, "\n", i + 2) IN IF k = 0 THEN Len(s) + 1 ELSE Skip(s, k + 1)
                    ELSE IF Ch(s, i + 1) = "*"
                    THEN LET k == FindFrom(s, "*/", i + 2) IN IF k = 0 THEN 0 ELSE Skip(s, k + 2)
                    ELSE i
      [] OTHER -> i

\* -- strings
EscapeOf(c) == CASE c = "n" -> "\n" [] c = "t" -> "\t" [] c = "\"" -> "\"" [] c = "\\" -> "\\" [] OTHER -> ""
RECURSIVE Unescape(_)
Unescape(s) == LET k == Find(s, "\\") IN
               IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1) \o EscapeOf(Ch(s, k + 1)) \o Unescape(From(s, k + 2))
RECURSIVE Width(_), TrimEnd(_), Outdent(_, _)
Width(s) == IF s = "" THEN 0 ELSE (IF Ch(s, 1) = "\t" THEN 8 ELSE 1) + Width(From(s, 2))
TrimEnd(s) == IF s # "" /\ Ch(s, Len(s)) \in {" ", "\t"} THEN TrimEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* line without its first n columns, as far as they are blank
Outdent(s, n) == IF n = 0 \/ s = "" THEN s
                 ELSE CASE Ch(s, 1) = " " -> Outdent(From(s, 2), n - 1)
                        [] Ch(s, 1) = "\t" -> IF n >= 8 THEN Outdent(From(s, 2), n - 8)
                                              ELSE LPad("", 8 - n, " ") \o From(s, 2)
                        [] OTHER -> s
LineEnd(s) == IF EndsWith(s, "\r") THEN TrimEnd(SubSeq(s, 1, Len(s) - 1)) \o "\r" ELSE TrimEnd(s)
TrimLines(s, n) == LET ls == Split(s, "\n") IN
    Join([i \in 1..Len(ls) |-> LET x == IF i = 1 THEN ls[i] ELSE Outdent(ls[i], n) IN
                                IF i = Len(ls) THEN x ELSE LineEnd(x)], "\n")
\* column of position i (1 for the first one in its line)
RECURSIVE LineStart(_, _)
LineStart(s, i) == IF i = 1 \/ Ch(s, i - 1) = "\n" THEN i ELSE LineStart(s, i - 1)
Column(s, i) == Width(SubSeq(s, LineStart(s, i), i))

\* end of a double-quoted string (position of the quote), from position j in it
RECURSIVE DqEnd(_, _, _)
DqEnd(s, a, j) == IF j > Len(s) THEN Fin
                  ELSE CASE Ch(s, j) = "\"" -> Ok(j, "")
                         [] Ch(s, j) = "\\" -> IF j = Len(s) THEN Fin
                                               ELSE IF EscapeOf(Ch(s, j + 1)) = "" THEN Bad(a, j + 1)
                                               ELSE DqEnd(s, a, j + 2)
                         [] OTHER -> DqEnd(s, a, j + 1)
RECURSIVE UnqEnd(_, _, _)
UnqEnd(s, a, j) == IF j > Len(s) THEN Fin
                   ELSE LET c == Ch(s, j) IN
                   IF c \in {";", "{", " ", "\t", "\n", "\r"} \/ At(s, j, "//") \/ At(s, j, "/*") THEN Ok(j, SubSeq(s, a, j - 1))
                   ELSE IF c = "}" THEN Bad(a, j)
                   ELSE IF At(s, j, "*/") THEN Bad(a, j + 1)
                   ELSE IF c \in {"\"", "'"} THEN Err(<<"odd">>)
                   ELSE UnqEnd(s, a, j + 1)
\* one quoted string at a
Quoted(s, a) == IF Ch(s, a) = "'"
                THEN LET k == FindFrom(s, "'", a + 1) IN IF k = 0 THEN Fin ELSE Ok(k + 1, SubSeq(s, a + 1, k - 1))
                ELSE LET e == DqEnd(s, a, a + 1) IN
                     IF e.p = 0 THEN e
                     ELSE LET t == SubSeq(s, a + 1, e.p - 1)
                          IN Ok(e.p + 1, Unescape(IF Find(t, "\n") = 0 THEN t ELSE TrimLines(t, Column(s, a))))
Quote(s, i) == i <= Len(s) /\ Ch(s, i) \in {"\"", "'"}
\* argument at a, up to the ; or { that follows it
RECURSIVE Pieces(_, _)
Pieces(s, a) ==
    LET q == Quoted(s, a) b == Skip(s, q.p) c == Skip(s, b + 1) IN
    IF q.p = 0 THEN q
    ELSE IF b = 0 \/ b > Len(s) THEN Fin
    ELSE IF Ch(s, b) \in {";", "{"} THEN Ok(b, q.v)
    ELSE IF Ch(s, b) # "+" THEN Bad(a, b)
    ELSE IF c = 0 \/ c > Len(s) THEN Fin
    ELSE IF ~Quote(s, c) THEN Bad(a, c)
    ELSE LET r == Pieces(s, c) IN IF r.p = 0 THEN r ELSE Ok(r.p, q.v \o r.v)
Argument(s, a) ==
    IF Quote(s, a) THEN Pieces(s, a)
    ELSE LET u == UnqEnd(s, a, a) b == Skip(s, u.p) IN
         IF u.p = 0 THEN u
         ELSE IF b = 0 \/ b > Len(s) THEN Fin
         ELSE IF Ch(s, b) \in {";", "{"} THEN Ok(b, u.v) ELSE Bad(a, b)

\* -- statements
RECURSIVE Stmt(_, _), Block(_, _, _)
\* keyword at i: value <<prefix, keyword>>
Keyword(s, i) ==
    LET e == IdEnd(s, i) f == IdEnd(s, e + 1) IN
    IF i > Len(s) THEN Fin
    ELSE IF e = 0 THEN Bad(i, i)
    ELSE IF e > Len(s) THEN Fin
    ELSE IF Ch(s, e) # ":" THEN Ok(e, <<"", SubSeq(s, i, e - 1)>>)
    ELSE IF e = Len(s) THEN Fin
    ELSE IF f = 0 THEN Bad(i, e + 1)
    ELSE IF f > Len(s) THEN Fin
    ELSE Ok(f, <<SubSeq(s, i, e - 1), SubSeq(s, e + 1, f - 1)>>)
Stmt(s, i) ==
    LET k == Keyword(s, i) a == Skip(s, k.p) IN
    IF k.p = 0 THEN k
    ELSE IF a = 0 \/ a > Len(s) THEN Fin
    ELSE IF Ch(s, a) \notin {";", "{"} /\ a = k.p THEN Bad(i, a)
    ELSE LET g == IF Ch(s, a) \in {";", "{"} THEN Ok(a, "") ELSE Argument(s, a)
             arg == IF Ch(s, a) \in {";", "{"} THEN <<>> ELSE <<g.v>>
         IN IF g.p = 0 THEN g
            ELSE IF Ch(s, g.p) = ";" THEN Ok(g.p + 1, <<k.v[1], k.v[2], arg, <<>>>>)
            ELSE LET b == Block(s, g.p + 1, <<>>) IN
                 IF b.p = 0 THEN b ELSE Ok(b.p, <<k.v[1], k.v[2], arg, b.v>>)
Block(s, i, acc) ==
    LET a == Skip(s, i) IN
    IF a = 0 \/ a > Len(s) THEN Fin
    ELSE IF Ch(s, a) = "}" THEN Ok(a + 1, acc)
    ELSE LET x == Stmt(s, a) IN IF x.p = 0 THEN x ELSE Block(s, x.p, Append(acc, x.v))

FindAll(st, kw, px) == {i \in 1..Len(st[4]) : st[4][i][2] = kw /\ st[4][i][1] = px}
\* possible outcomes of parsing a (sub)module: <<"ok", tree>>, errors as above,
\* <<"name">> and <<"rev">> if it is not the expected one
Module(s, name, rev) ==
    LET a == Skip(s, 1) x == Stmt(s, a) z == Skip(s, x.p) IN
    IF a = 0 \/ a > Len(s) THEN {<<"end">>}
    ELSE IF x.p = 0 THEN {x.v}
    ELSE LET R == FindAll(x.v, "revision", "")
             r == IF R = {} THEN <<"">> ELSE x.v[4][CHOOSE i \in R : \A j \in R : i <= j][3]
             errs == (IF x.v[1] # "" \/ x.v[2] \notin {"module", "submodule"} THEN {<<"bad", a, x.p>>} ELSE {})
                     \cup If(x.v[3] # name /\ name # <<>>, <<"name">>) \cup If(r # <<rev>>, <<"rev">>)
                     \cup (IF z = 0 THEN {<<"end">>} ELSE IF z <= Len(s) THEN {<<"bad", z, z>>} ELSE {})
         IN IF errs = {} THEN {<<"ok", x.v>>} ELSE errs
LineCol(s, i) == <<Cardinality({j \in 1..(i - 1) : Ch(s, j) = "\n"}) + 1, i - LineStart(s, i)>>
=============================================================================
