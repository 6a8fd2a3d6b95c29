-------------------------- MODULE XPathGrammar --------------------------
(***************************************************************************)
(* The concrete syntax of XPath 1.0 (sections 2, 3 and 3.7).                *)
(*                                                                         *)
(* Lex(s) is the sequence of tokens of text s (<<<<"bad">>>> if there is     *)
(* none); ParseX(s, C) is a record                                          *)
(*   ok   is s an expression?                                              *)
(*   e    its abstract syntax (XPath.tla)                                   *)
(*   odd  uses constructs that an implementation for YANG may refuse:       *)
(*        predicates or paths after a literal or number                     *)
(*   uns  uses constructs that YANG implementations need not support:        *)
(*        attributes, namespaces, following, preceding, text(), comment(),   *)
(*        processing-instruction(), variables, wildcards p:*, id, lang,      *)
(*        namespace-uri                                                     *)
(* C is the context: [px |-> function from prefixes to modules, md |->       *)
(* module of unprefixed names, nn |-> are pairs of minus signs dropped?].                                             *)
(* Tokens: <<"num", text>> <<"lit", value>> <<"op", text>> <<"sym", text>>   *)
(*   <<"name", prefix, local>> <<"wild">> <<"pwild", prefix>> <<"fn", name>> *)
(*   <<"type", name>> <<"axis", name>> <<"var">>                            *)
(***************************************************************************)
EXTENDS Text

NameStart == CharsOf("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_")
NameChar == NameStart \cup DigitSet \cup {"-", "."}
RECURSIVE SpanOf(_, _, _)
\* first position >= i whose character is not in cs
SpanOf(s, i, cs) == IF i > Len(s) THEN i ELSE IF Ch(s, i) \in cs THEN SpanOf(s, i + 1, cs) ELSE i

Operand(t) == t[1] \in {"num", "lit", "name", "wild", "pwild", "var"}
              \/ t \in {<<"sym", ")">>, <<"sym", "]">>, <<"sym", ".">>, <<"sym", "..">>}
Syms2 == {"..", "::"}
Syms1 == {"(", ")", "[", "]", ",", ".", "@"}
Ops2 == {"//", "!=", "<=", ">="}
Ops1 == {"/", "|", "+", "-", "=", "<", ">"}
OpNames == {"and", "or", "mod", "div"}
NodeTypes == {"node", "text", "comment", "processing-instruction"}
Bad == <<<<"bad">>>>

RECURSIVE LexFrom(_, _, _)
LexName(s, i, acc) ==
    LET j == SpanOf(s, i, NameChar)
        nm == SubSeq(s, i, j - 1)
        k == SpanOf(s, j, WsSet)                \* next token
        two == SubSeq(s, k, Min2(Len(s), k + 1))
        qualified == j < Len(s) /\ Ch(s, j) = ":" /\ Ch(s, j + 1) # ":"
    IN IF acc # <<>> /\ Operand(acc[Len(acc)])
       THEN IF nm \in OpNames /\ ~qualified THEN LexFrom(s, j, Append(acc, <<"op", nm>>)) ELSE Bad
       ELSE IF qualified
       THEN IF Ch(s, j + 1) = "*" THEN LexFrom(s, j + 2, Append(acc, <<"pwild", nm>>))
            ELSE IF Ch(s, j + 1) \in NameStart
            THEN LET m == SpanOf(s, j + 1, NameChar) IN
                 LexFrom(s, m, Append(acc, <<"name", nm, SubSeq(s, j + 1, m - 1)>>))
            ELSE Bad
       ELSE IF k <= Len(s) /\ Ch(s, k) = "("
       THEN LexFrom(s, j, Append(acc, <<IF nm \in NodeTypes THEN "type" ELSE "fn", nm>>))
       ELSE IF two = "::" THEN LexFrom(s, j, Append(acc, <<"axis", nm>>))
       ELSE LexFrom(s, j, Append(acc, <<"name", "", nm>>))
LexFrom(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET c == Ch(s, i) two == SubSeq(s, i, Min2(Len(s), i + 1)) IN
    IF c \in WsSet THEN LexFrom(s, i + 1, acc)
    ELSE IF c \in {"'", "\""}
    THEN LET j == FindFrom(s, c, i + 1) IN
         IF j = 0 THEN Bad ELSE LexFrom(s, j + 1, Append(acc, <<"lit", SubSeq(s, i + 1, j - 1)>>))
    ELSE IF c \in DigitSet \/ (c = "." /\ i < Len(s) /\ Ch(s, i + 1) \in DigitSet)
    THEN LET j == SpanOf(s, i, DigitSet)
             m == IF j <= Len(s) /\ Ch(s, j) = "." THEN SpanOf(s, j + 1, DigitSet) ELSE j
         IN LexFrom(s, m, Append(acc, <<"num", SubSeq(s, i, m - 1)>>))
    ELSE IF c \in NameStart THEN LexName(s, i, acc)
    ELSE IF c = "*" THEN LexFrom(s, i + 1, Append(acc,
             IF acc # <<>> /\ Operand(acc[Len(acc)]) THEN <<"op", "*">> ELSE <<"wild">>))
    ELSE IF c = "$" THEN LET j == SpanOf(s, i + 1, NameChar \cup {":"}) IN
             IF j = i + 1 THEN Bad ELSE LexFrom(s, j, Append(acc, <<"var">>))
    ELSE IF two \in Ops2 THEN LexFrom(s, i + 2, Append(acc, <<"op", two>>))
    ELSE IF two \in Syms2 THEN LexFrom(s, i + 2, Append(acc, <<"sym", two>>))
    ELSE IF c \in Ops1 THEN LexFrom(s, i + 1, Append(acc, <<"op", c>>))
    ELSE IF c \in Syms1 THEN LexFrom(s, i + 1, Append(acc, <<"sym", c>>))
    ELSE Bad
Lex(s) == LexFrom(s, 1, <<>>)

\* -- numbers: <<"num", n, d>>, or <<"num", text, 0>> in normal form if long
NumTok(s) ==
    LET k == Find(s, ".")
        a == IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1)
        f == TrimR(IF k = 0 THEN "" ELSE From(s, k + 1), "0")
        i == TrimL("0" \o a, "0")
    IN IF Len(i) + Len(f) <= 9 THEN <<"num", Nat10(i \o f), Pow(10, Len(f))>>
       ELSE <<"num", i \o "." \o f, 0>>

\* -- the grammar.  Parsing functions return [ok, e, i, odd, uns], i: next token
No == [ok |-> FALSE]
Yes(e, i, f) == [ok |-> TRUE, e |-> e, i |-> i, odd |-> f[1], uns |-> f[2]]
Fl(r) == <<r.odd, r.uns>>
FlOr(f, g) == <<f[1] \/ g[1], f[2] \/ g[2]>>
None == <<FALSE, FALSE>>
Odd == <<TRUE, FALSE>>
Uns == <<FALSE, TRUE>>
Is(t, i, x) == i <= Len(t) /\ t[i] = x
Op(t, i, x) == Is(t, i, <<"op", x>>)
Sym(t, i, x) == Is(t, i, <<"sym", x>>)
Level == <<{"or"}, {"and"}, {"=", "!="}, {"<", "<=", ">", ">="}, {"+", "-"}, {"*", "div", "mod"}>>
Axes == {"child", "descendant", "parent", "ancestor", "following-sibling", "preceding-sibling",
         "self", "descendant-or-self", "ancestor-or-self"}
UnsAxes == {"attribute", "namespace", "following", "preceding"}
DescOrSelf == <<"descendant-or-self", "node", "", "", <<>>>>
\* number of arguments of the functions: <<min, max>> (-1: any)
Arity == [x \in {"last", "position", "true", "false", "current"} |-> <<0, 0>>]
    @@ [x \in {"count", "boolean", "not", "sum", "floor", "ceiling", "round", "deref", "enum-value"} |-> <<1, 1>>]
    @@ [x \in {"local-name", "name", "string", "string-length", "normalize-space", "number"} |-> <<0, 1>>]
    @@ [x \in {"starts-with", "contains", "substring-before", "substring-after", "re-match",
               "derived-from", "derived-from-or-self", "bit-is-set"} |-> <<2, 2>>]
    @@ ("substring" :> <<2, 3>>) @@ ("translate" :> <<3, 3>>) @@ ("concat" :> <<2, -1>>)
UnsFunctions == {"id", "lang", "namespace-uri"}

RECURSIVE PExpr(_, _, _, _), PBin(_, _, _, _), PUnary(_, _, _, _), PUnion(_, _, _), PPath(_, _, _),
          PSteps(_, _, _, _, _), PStep(_, _, _), PPreds(_, _, _, _, _), PArgs(_, _, _, _, _)
PExpr(t, l, i, C) == IF l = 7 THEN PUnary(t, i, 0, C) ELSE PBin(t, l, PExpr(t, l + 1, i, C), C)
PBin(t, l, r, C) ==
    IF ~r.ok THEN No
    ELSE IF r.i <= Len(t) /\ t[r.i][1] = "op" /\ t[r.i][2] \in Level[l]
    THEN LET s == PExpr(t, l + 1, r.i + 1, C) IN
         IF ~s.ok THEN No
         ELSE PBin(t, l, Yes(<<"bin", t[r.i][2], r.e, s.e>>, s.i, FlOr(Fl(r), Fl(s))), C)
    ELSE r
\* n: number of minus signs.  An even number only converts to a number; it is
\* dropped if C.nn as the implementation under test prints it that way
PUnary(t, i, n, C) ==
    IF Op(t, i, "-") THEN PUnary(t, i + 1, n + 1, C)
    ELSE LET r == PPath(t, i, C)
             u == IF r.ok THEN PUnion(t, r, C) ELSE No
         IN IF ~u.ok THEN No
            ELSE IF n % 2 = 1 THEN Yes(<<"neg", u.e>>, u.i, Fl(u))
                 ELSE IF n = 0 \/ C.nn THEN u ELSE Yes(<<"neg", <<"neg", u.e>>>>, u.i, Fl(u))
PUnion(t, r, C) ==
    IF Op(t, r.i, "|")
    THEN LET s == PPath(t, r.i + 1, C) IN
         IF ~s.ok THEN No ELSE PUnion(t, Yes(<<"union", r.e, s.e>>, s.i, FlOr(Fl(r), Fl(s))), C)
    ELSE r

\* relative location path from token i; steps: those before it
PSteps(t, i, steps, f, C) ==
    LET r == PStep(t, i, C) IN
    IF ~r.ok THEN No
    ELSE LET ss == Append(steps, r.e) g == FlOr(f, Fl(r)) IN
         IF Op(t, r.i, "/") THEN PSteps(t, r.i + 1, ss, g, C)
         ELSE IF Op(t, r.i, "//") THEN PSteps(t, r.i + 1, Append(ss, DescOrSelf), g, C)
         ELSE Yes(ss, r.i, g)
StepStart(t, i) == i <= Len(t) /\ (t[i][1] \in {"name", "wild", "pwild", "type", "axis"}
                                   \/ t[i] \in {<<"sym", ".">>, <<"sym", "..">>, <<"sym", "@">>})
PStep(t, i, C) ==
    IF i > Len(t) THEN No
    ELSE IF t[i] = <<"sym", ".">> THEN Yes(<<"self", "node", "", "", <<>>>>, i + 1, None)
    ELSE IF t[i] = <<"sym", "..">> THEN Yes(<<"parent", "node", "", "", <<>>>>, i + 1, None)
    ELSE LET at == t[i] = <<"sym", "@">>
             ax == t[i][1] = "axis"
             j == IF at THEN i + 1 ELSE IF ax THEN i + 2 ELSE i
             axis == IF ax THEN t[i][2] ELSE "child"
             f0 == IF at \/ axis \in UnsAxes THEN Uns ELSE None
         IN IF ax /\ (axis \notin Axes \cup UnsAxes \/ ~Sym(t, i + 1, "::")) THEN No
            ELSE IF j > Len(t) THEN No
            ELSE LET k == t[j] IN
            IF k[1] = "name"
            THEN IF k[2] # "" /\ k[2] \notin DOMAIN C.px THEN No
                 ELSE PPreds(t, j + 1, <<axis, "name", k[3], IF k[2] = "" THEN C.md ELSE C.px[k[2]]>>, f0, C)
            ELSE IF k[1] = "wild" THEN PPreds(t, j + 1, <<axis, "*", "", "">>, f0, C)
            ELSE IF k[1] = "pwild" THEN PPreds(t, j + 1, <<axis, "*", "", k[2]>>, Uns, C)
            ELSE IF k[1] = "type" /\ Sym(t, j + 1, "(")
            THEN LET m == IF k[2] = "processing-instruction" /\ j + 2 <= Len(t) /\ t[j + 2][1] = "lit"
                          THEN j + 3 ELSE j + 2
                 IN IF ~Sym(t, m, ")") THEN No
                    ELSE PPreds(t, m + 1, <<axis, k[2], "", "">>,
                                IF k[2] = "node" THEN f0 ELSE Uns, C)
            ELSE No
\* the predicates of a step <<axis, test, name, module>>, or (with e = <<>>) alone
PPreds(t, i, e, f, C) ==
    IF ~Sym(t, i, "[") THEN Yes(IF Len(e) = 4 THEN Append(e, <<>>) ELSE e, i, f)
    ELSE LET r == PExpr(t, 1, i + 1, C) IN
         IF ~r.ok THEN No
         ELSE IF ~Sym(t, r.i, "]") THEN No
         ELSE LET e1 == IF Len(e) = 4 THEN Append(e, <<r.e>>)
                        ELSE [e EXCEPT ![Len(e)] = Append(@, r.e)]
              IN PPreds(t, r.i + 1, e1, FlOr(f, Fl(r)), C)
PArgs(t, i, args, f, C) ==
    LET r == PExpr(t, 1, i, C) IN
    IF ~r.ok THEN No
    ELSE LET as == Append(args, r.e) g == FlOr(f, Fl(r)) IN
         IF Sym(t, r.i, ",") THEN PArgs(t, r.i + 1, as, g, C)
         ELSE IF Sym(t, r.i, ")") THEN Yes(as, r.i + 1, g)
         ELSE No

\* path expressions
PPath(t, i, C) ==
    IF i > Len(t) THEN No
    ELSE IF t[i] = <<"op", "/">>
    THEN IF StepStart(t, i + 1)
         THEN LET r == PSteps(t, i + 1, <<>>, None, C) IN
              IF ~r.ok THEN No ELSE Yes(<<"path", TRUE, r.e>>, r.i, Fl(r))
         ELSE Yes(<<"path", TRUE, <<>>>>, i + 1, None)
    ELSE IF t[i] = <<"op", "//">>
    THEN LET r == PSteps(t, i + 1, <<DescOrSelf>>, None, C) IN
         IF ~r.ok THEN No ELSE Yes(<<"path", TRUE, r.e>>, r.i, Fl(r))
    ELSE IF StepStart(t, i)
    THEN LET r == PSteps(t, i, <<>>, None, C) IN
         IF ~r.ok THEN No ELSE Yes(<<"path", FALSE, r.e>>, r.i, Fl(r))
    ELSE LET p == \* the primary expression
               CASE t[i][1] = "lit" -> Yes(<<"str", t[i][2]>>, i + 1, None)
                 [] t[i][1] = "num" -> Yes(NumTok(t[i][2]), i + 1, None)
                 [] t[i][1] = "var" -> Yes(<<"var">>, i + 1, Uns)
                 [] t[i] = <<"sym", "(">> ->
                      LET r == PExpr(t, 1, i + 1, C) IN
                      IF r.ok /\ Sym(t, r.i, ")") THEN [r EXCEPT !.i = @ + 1] ELSE No
                 [] t[i][1] = "fn" /\ Sym(t, i + 1, "(") ->
                      LET f == t[i][2]
                          r == IF Sym(t, i + 2, ")") THEN Yes(<<>>, i + 3, None)
                               ELSE PArgs(t, i + 2, <<>>, None, C)
                      IN IF ~r.ok THEN No
                         ELSE IF f \in UnsFunctions THEN Yes(<<"fn", f, r.e>>, r.i, Uns)
                         ELSE IF f \notin DOMAIN Arity THEN No
                         ELSE IF Len(r.e) >= Arity[f][1] /\ (Arity[f][2] < 0 \/ Len(r.e) <= Arity[f][2])
                         THEN Yes(<<"fn", f, r.e>>, r.i, Fl(r)) ELSE No
                 [] OTHER -> No
         IN IF ~p.ok THEN No
            ELSE LET q == PPreds(t, p.i, <<<<>>>>, Fl(p), C) IN
                 IF ~q.ok THEN No
                 ELSE LET preds == q.e[1]
                          more == Op(t, q.i, "/") \/ Op(t, q.i, "//")
                          r == IF ~more THEN Yes(<<>>, q.i, None)
                               ELSE PSteps(t, q.i + 1, IF Op(t, q.i, "//") THEN <<DescOrSelf>> ELSE <<>>, None, C)
                          o == IF t[i][1] \in {"lit", "num"} /\ (preds # <<>> \/ more) THEN Odd ELSE None
                      IN IF ~r.ok THEN No
                         ELSE IF preds = <<>> /\ r.e = <<>> THEN Yes(p.e, q.i, FlOr(o, Fl(q)))
                         ELSE Yes(<<"filt", p.e, preds, r.e>>, r.i, FlOr(o, FlOr(Fl(q), Fl(r))))

ParseX(s, C) ==
    LET t == Lex(s) IN
    IF t = Bad THEN No
    ELSE LET r == PExpr(t, 1, 1, C) IN
         IF r.ok /\ r.i = Len(t) + 1 THEN r ELSE No
=============================================================================
