----------------------------- MODULE Identities ----------------------------
(***************************************************************************)
(* Identities and derivation (RFC 7950, section 7.18.2).  ID is a sequence  *)
(* of <<name, module, bases>> with bases a sequence of <<name, module>>.    *)
(***************************************************************************)
EXTENDS Base

IdOf(x) == <<x[1], x[2]>>
Ids(ID) == {IdOf(ID[i]) : i \in 1..Len(ID)}
BasesOf(ID, x) == UNION {Rng(ID[i][3]) : i \in {j \in 1..Len(ID) : IdOf(ID[j]) = x}}
RECURSIVE UpFrom(_, _, _)
\* all identities reached from the set X through one or more base statements
UpFrom(ID, X, acc) == LET n == UNION {BasesOf(ID, x) : x \in X} \ acc IN
                      IF n = {} THEN acc ELSE UpFrom(ID, n, acc \cup n)
IsDerived(ID, x, b) == b \in UpFrom(ID, {x}, {})
Derived(ID, b) == {x \in Ids(ID) : IsDerived(ID, x, b)}
\* derived from all of the bases bs (a non-empty set)
DerivedAll(ID, bs) == {x \in Ids(ID) : \A b \in bs : IsDerived(ID, x, b)}
=============================================================================
