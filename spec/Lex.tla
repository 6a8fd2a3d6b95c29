-------------------------------- MODULE Lex --------------------------------
(* Identifiers and substrings at given positions of a text.                 *)
EXTENDS Text

\* YANG identifiers
IdStart == CharsOf("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_")
IdChar == IdStart \cup DigitSet \cup {"-", "."}
RECURSIVE Span(_, _, _)
Span(s, i, cs) == IF i <= Len(s) /\ Ch(s, i) \in cs THEN Span(s, i + 1, cs) ELSE i
\* end of an identifier that starts at i (0: none)
IdEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in IdStart THEN Span(s, i, IdChar) ELSE 0
At(s, i, t) == SubSeq(s, i, Min2(Len(s), i + Len(t) - 1)) = t
=============================================================================
