------------------------------ MODULE Features ------------------------------
(***************************************************************************)
(* if-feature expressions (RFC 7950, sections 7.20.2 and 14):               *)
(*   if-feature-expr   = if-feature-term [sep "or" sep if-feature-expr]     *)
(*   if-feature-term   = if-feature-factor [sep "and" sep if-feature-term]  *)
(*   if-feature-factor = "not" sep if-feature-factor                        *)
(*                       / "(" optsep if-feature-expr optsep ")"            *)
(*                       / identifier-ref-arg                               *)
(* The recognizer returns all parses, as pairs <<end, tree>>; trees are     *)
(*   <<"f", prefix, name>> <<"not", x>> <<"and", x, y>> <<"or", x, y>>      *)
(***************************************************************************)
EXTENDS Lex

Sep == {" ", "\t", "\n"}

RECURSIVE FExpr(_, _), FTerm(_, _), FFactor(_, _)
\* position after  sep keyword sep  (0: none)
Infix(s, i, kw) == LET a == Span(s, i, Sep) b == Span(s, a + Len(kw), Sep) IN
                   IF a > i /\ At(s, a, kw) /\ b > a + Len(kw) THEN b ELSE 0
Chain(S, s, kw, Rest(_, _)) ==
    S \cup UNION {LET k == Infix(s, p[1], kw) IN
                  IF k = 0 THEN {} ELSE {<<q[1], <<kw, p[2], q[2]>>>> : q \in Rest(s, k)} : p \in S}
FExpr(s, i) == Chain(FTerm(s, i), s, "or", FExpr)
FTerm(s, i) == Chain(FFactor(s, i), s, "and", FTerm)
FFactor(s, i) ==
    LET n == Span(s, i + 3, Sep)
        neg == IF At(s, i, "not") /\ n > i + 3 THEN {<<q[1], <<"not", q[2]>>>> : q \in FFactor(s, n)} ELSE {}
        par == IF At(s, i, "(")
               THEN UNION {LET k == Span(s, q[1], Sep) IN IF At(s, k, ")") THEN {<<k + 1, q[2]>>} ELSE {} :
                           q \in FExpr(s, Span(s, i + 1, Sep))}
               ELSE {}
        e == IdEnd(s, i)
        f == IF e # 0 /\ At(s, e, ":") THEN IdEnd(s, e + 1) ELSE 0
        ref == IF e = 0 THEN {} ELSE
               IF f # 0 THEN {<<f, <<"f", SubSeq(s, i, e - 1), SubSeq(s, e + 1, f - 1)>>>>}
               ELSE {<<e, <<"f", "", SubSeq(s, i, e - 1)>>>>}
    IN neg \cup par \cup ref
ParsesOf(s) == {q[2] : q \in {p \in FExpr(s, 1) : p[1] = Len(s) + 1}}

RECURSIVE Refs(_), EvalF(_, _)
\* references <<prefix, name>> in an expression
Refs(x) == IF x[1] = "f" THEN {<<x[2], x[3]>>} ELSE UNION {Refs(x[i]) : i \in 2..Len(x)}
\* value for the set T of references to supported features
EvalF(x, T) == CASE x[1] = "f" -> <<x[2], x[3]>> \in T
                 [] x[1] = "not" -> ~EvalF(x[2], T)
                 [] x[1] = "and" -> EvalF(x[2], T) /\ EvalF(x[3], T)
                 [] x[1] = "or" -> EvalF(x[2], T) \/ EvalF(x[3], T)
\* a feature called "not" cannot be told from the keyword in some places
Plain(x) == <<"", "not">> \notin Refs(x)

\* -- modules.  F: sequence of files [n |-> name, m |-> main module, px |-> map from
\* prefixes to modules, ft |-> set of supported features of the main module]
FileOf(F, n) == F[CHOOSE i \in 1..Len(F) : F[i].n = n]
Supported(F, m) == FileOf(F, m).ft
\* references in the text of file f to supported features
TrueRefs(F, f, x) == {r \in Refs(x) : LET m == IF r[1] = "" THEN FileOf(F, f).m ELSE FileOf(F, f).px[r[1]] IN
                                      r[2] \in Supported(F, m)}
KnownPrefixes(F, f, x) == \A r \in Refs(x) : r[1] = "" \/ r[1] \in DOMAIN FileOf(F, f).px
\* outcome of an if-feature argument in file f: "yes", "no", "bad" (refused), "odd"
IfFeature(F, f, s) ==
    LET P == ParsesOf(s)
        Q == {x \in P : Plain(x)}
    IN IF P = {} THEN IF ParsesOf(Strip(s)) # {} THEN "odd" ELSE "bad"
       ELSE IF Q = {} THEN "odd"
       ELSE LET x == CHOOSE x \in Q : TRUE IN
            IF ~KnownPrefixes(F, f, x) THEN "bad"
            ELSE IF EvalF(x, TrueRefs(F, f, x)) THEN "yes" ELSE "no"
=============================================================================
