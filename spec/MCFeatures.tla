----------------------------- MODULE MCFeatures -----------------------------
(***************************************************************************)
(* Texts are built token by token.  A text has at most one reading; its      *)
(* value is the one of the usual precedence rules, computed here in another  *)
(* way (splitting at operators outside parentheses); conditions without      *)
(* "not" are monotone in the set of supported features.                      *)
(***************************************************************************)
EXTENDS Features, SequencesExt, FiniteSetsExt
CONSTANT MaxTok
VARIABLE tk
Toks == {"a", "b", "not", "and", "or", "(", ")"}
Init == tk = <<>>
Next == Len(tk) < MaxTok /\ \E t \in Toks : tk' = Append(tk, t)
Spec == Init /\ [][Next]_tk
Text1 == FoldLeft(LAMBDA a, t : a \o (IF a = "" THEN "" ELSE " ") \o t, "", tk)
\* without separators around parentheses where the grammar needs none
RECURSIVE Tight(_)
Tight(q) == IF q = <<>> THEN ""
            ELSE q[1] \o (IF Len(q) = 1 \/ q[1] = "(" \/ q[2] = ")" THEN "" ELSE " ") \o Tight(Tail(q))
Parses == {x \in ParsesOf(Text1) : Plain(x)}
Fs == {<<"", "a">>, <<"", "b">>}

\* positions of token t outside parentheses
RECURSIVE Depth(_, _)
Depth(q, i) == IF i = 0 THEN 0 ELSE Depth(q, i - 1) + (IF q[i] = "(" THEN 1 ELSE IF q[i] = ")" THEN -1 ELSE 0)
Outer(q, t) == {i \in 1..Len(q) : q[i] = t /\ Depth(q, i) = 0}
Balanced(q) == Depth(q, Len(q)) = 0 /\ \A i \in 1..Len(q) : Depth(q, i) >= 0
\* set of possible values: {} if q is not an expression
RECURSIVE SplitEval(_, _)
SplitEval(q, T) ==
    IF q = <<>> \/ ~Balanced(q) THEN {}
    ELSE IF Outer(q, "or") # {} THEN
        LET i == Max(Outer(q, "or"))
            l == SplitEval(SubSeq(q, 1, i - 1), T) r == SplitEval(SubSeq(q, i + 1, Len(q)), T)
        IN {x \/ y : x \in l, y \in r}
    ELSE IF Outer(q, "and") # {} THEN
        LET i == Max(Outer(q, "and"))
            l == SplitEval(SubSeq(q, 1, i - 1), T) r == SplitEval(SubSeq(q, i + 1, Len(q)), T)
        IN {x /\ y : x \in l, y \in r}
    ELSE IF q[1] = "not" THEN {~x : x \in SplitEval(Tail(q), T)}
    ELSE IF q[1] = "(" /\ q[Len(q)] = ")" /\ \A i \in 1..(Len(q) - 1) : Depth(q, i) > 0
    THEN SplitEval(SubSeq(q, 2, Len(q) - 1), T)
    ELSE IF Len(q) = 1 /\ q[1] \in {"a", "b"} THEN {(<<"", q[1]>> \in T)} ELSE {}
\* features called and, or, not are set aside
Ordinary(x) == \A r \in Refs(x) : r[2] \in {"a", "b"}
Unique == Cardinality({x \in Parses : Ordinary(x)}) <= 1
Precedence == \A T \in SUBSET Fs : {EvalF(x, T) : x \in {y \in Parses : Ordinary(y)}} = SplitEval(tk, T)
SpacingFree == {y \in ParsesOf(Tight(tk)) : Ordinary(y)} = {y \in Parses : Ordinary(y)}
Monotone == (\A i \in 1..Len(tk) : tk[i] # "not") =>
            \A x \in Parses, T \in SUBSET Fs, U \in SUBSET Fs : T \subseteq U /\ EvalF(x, T) => EvalF(x, U)
=============================================================================
