----------------------------- MODULE TraceYang -----------------------------
(***************************************************************************)
(* Judges recorded parsing of YANG texts and searches in statements.        *)
(***************************************************************************)
EXTENDS Yang, TraceBase
VARIABLE l

Ev_ == Trace[l]
ErrOf(o, k) == \E x \in o : x[1] = k
ParseClauses(e) ==
    LET o == Module(e.text, e.name, e.rev) g == e.out IN
    IF \E x \in o : x[1] = "odd" THEN {}
    ELSE CASE g[1] = "ok" -> If(<<"ok", g[2]>> \notin o, Exp("parsed as something else", o))
           [] g[1] = "end" -> If(~ErrOf(o, "end"), Exp("refused (end of input)", o))
           [] g[1] = "bad" -> If(~(\E x \in o : x[1] = "bad" /\ g[2] + 1 >= x[2] /\ g[2] + 1 <= x[3])
                                    /\ ~(ErrOf(o, "end") /\ g[2] = Len(e.text)),
                                 Exp("refused at offset " \o ToString(g[2]), o))
                              \cup If(LineCol(e.text, g[2] + 1) # <<g[3][1], g[3][2]>>,
                                      Exp("wrong line or column", LineCol(e.text, g[2] + 1)))
           [] g[1] \in {"name", "rev"} -> If(<<g[1]>> \notin o, Exp("mismatch of " \o g[1], o))
           [] OTHER -> {Exp("undocumented exception " \o g[2], o)}
\* searches in the statement st; results are positions of substatements
Matching(e) == {i \in FindAll(e.st, e.kw, e.px) : e.arg = <<>> \/ e.st[4][i][3] = e.arg}
FirstOf(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
ArgOfFirst(st, kw) == LET i == FirstOf(FindAll(st, kw, "")) IN IF i = 0 THEN <<>> ELSE st[4][i][3]
SearchClauses(e) ==
    CASE e.how = "find1" ->
           LET f == FirstOf(Matching(e)) IN
           IF f = 0 /\ e.req THEN If(e.res # <<"StatementNotFound">>, Exp("required statement", "StatementNotFound"))
           ELSE If(e.res # <<"ok", f>>, Exp("first match", f))
      [] e.how = "all" -> If(e.res[1] # "ok" \/ Rng(e.res[2]) # FindAll(e.st, e.kw, e.px)
                             \/ \E i \in 1..(Len(e.res[2]) - 1) : e.res[2][i] >= e.res[2][i + 1],
                             Exp("all matches in order", FindAll(e.st, e.kw, e.px)))
      [] e.how = "info" -> If(e.res # <<ArgOfFirst(e.st, "error-app-tag"), ArgOfFirst(e.st, "error-message")>>, "error info")
      [] e.how = "str" ->     \* printed form of a statement: its keyword and argument can be read again
           LET y == Stmt(e.res, 1) IN
           If(e.st[4] = <<>> /\ (y.p # Len(e.res) + 1 \/ y.v # e.st), Exp("printed form", y))
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE Ev_.op = "parse" -> Report(l, ParseClauses(Ev_))
             [] Ev_.op = "search" -> Report(l, SearchClauses(Ev_))
=============================================================================
