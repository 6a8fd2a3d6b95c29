------------------------------- MODULE MCYang -------------------------------
(***************************************************************************)
(* Texts are written token by token.  What they mean does not depend on the  *)
(* separators, follows the token-level grammar, and strings mean the same    *)
(* however they are quoted or split.                                         *)
(***************************************************************************)
EXTENDS Yang, SequencesExt
CONSTANT MaxTok
VARIABLE tk
\* keywords, unquoted words, quoted strings, punctuation
Kws == {"a", "p:b"}
Qs == {"\"x\\\"y\"", "'\\n'"}
Toks == Kws \cup Qs \cup {"z/1", "+", ";", "{", "}"}
Init == tk = <<>>
Next == Len(tk) < MaxTok /\ \E t \in Toks : tk' = Append(tk, t)
Spec == Init /\ [][Next]_tk
Glue(q, sep) == FoldLeft(LAMBDA a, t : a \o sep \o t, "", q)
Pre == <<"module", "m", "{">>
Whole == Pre \o tk \o <<"}">>
Out(sep) == Module(Glue(Whole, sep), <<"m">>, "")
Good(o) == \E x \in o : x[1] = "ok"
TreeOf(o) == IF Good(o) THEN (CHOOSE x \in o : TRUE)[2] ELSE <<>>

\* token-level grammar: <<tree, rest>> or <<>>
Value(t) == CASE t = "\"x\\\"y\"" -> "x\"y" [] t = "'\\n'" -> "\\n" [] OTHER -> t
Kw2(t) == IF t = "p:b" THEN <<"p", "b">> ELSE <<"", t>>
RECURSIVE TStmts(_, _), TArg(_, _)
\* argument made of quoted strings: <<text, rest>>
TArg(q, acc) == IF q = <<>> \/ q[1] \notin Qs THEN <<>>
                ELSE IF Len(q) > 1 /\ q[2] = "+" THEN TArg(SubSeq(q, 3, Len(q)), acc \o Value(q[1]))
                ELSE <<acc \o Value(q[1]), Tail(q)>>
\* statements up to }
TStmts(q, acc) ==
    IF q = <<>> THEN <<>>
    ELSE IF q[1] = "}" THEN <<acc, Tail(q)>>
    ELSE IF q[1] \notin Kws \/ Len(q) = 1 THEN <<>>
    ELSE LET k == Kw2(q[1]) r == Tail(q)
             g == IF r[1] \in {";", "{"} THEN <<<<>>, r>>
                  ELSE IF r[1] \in Qs THEN LET x == TArg(r, "") IN IF x = <<>> THEN <<>> ELSE <<<<x[1]>>, x[2]>>
                  ELSE IF r[1] \in {"+", "}"} THEN IF r[1] = "+" THEN <<<<"+">>, Tail(r)>> ELSE <<>>
                  ELSE <<<<r[1]>>, Tail(r)>>
         IN IF g = <<>> \/ g[2] = <<>> THEN <<>>
            ELSE IF g[2][1] = ";" THEN TStmts(Tail(g[2]), Append(acc, <<k[1], k[2], g[1], <<>>>>))
            ELSE IF g[2][1] = "{" THEN LET b == TStmts(Tail(g[2]), <<>>) IN
                 IF b = <<>> THEN <<>> ELSE TStmts(b[2], Append(acc, <<k[1], k[2], g[1], b[1]>>))
            ELSE <<>>
Expected == LET r == TStmts(tk \o <<"}">>, <<>>) IN
            IF r = <<>> \/ r[2] # <<>> THEN <<>> ELSE <<"", "module", <<"m">>, r[1]>>
Grammar == TreeOf(Out(" ")) = Expected
Separators == \A s \in {"\n", "/* ; } ' */", " // \" {\n", "\r\n\t"} : TreeOf(Out(s)) = TreeOf(Out(" "))
\* a text that is refused for its end has a legal continuation or an unclosed string
Truncated == LET o == Module(Glue(Pre \o tk, " "), <<"m">>, "") IN Good(Out(" ")) => o = {<<"end">>}
\* quoting
RECURSIVE Escaped(_)
Escaped(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in {"\"", "\\"} THEN "\\" ELSE "") \o Ch(s, 1) \o Escaped(From(s, 2))
Dq(s) == "\"" \o Escaped(s) \o "\""
Content == Glue(tk, "")
ArgOf(s) == LET x == Stmt("k " \o s \o ";", 1) IN IF x.p = 0 THEN <<>> ELSE x.v[3]
Quoting == /\ ArgOf(Dq(Content)) = <<Content>>
           /\ Find(Content, "'") = 0 => ArgOf("'" \o Content \o "'") = <<Content>>
           /\ \A i \in 0..Len(Content) : ArgOf(Dq(SubSeq(Content, 1, i)) \o "\n+ " \o Dq(From(Content, i + 1))) = <<Content>>
=============================================================================
