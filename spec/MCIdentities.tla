---------------------------- MODULE MCIdentities ----------------------------
(***************************************************************************)
(* Identities are declared one after the other, each with any set of bases  *)
(* among those that are not derived from it (declared before or later);     *)
(* derivation is a strict partial order, the least one that contains the    *)
(* base statements, whatever the order of declaration, and what is derived  *)
(* can be computed from either end.                                         *)
(***************************************************************************)
EXTENDS Identities
CONSTANT MaxIds
VARIABLE ID
All == {<<"a", "m">>, <<"b", "m">>, <<"a", "n">>, <<"c", "n">>}
Names == CHOOSE S \in SUBSET All : Cardinality(S) = MaxIds
RECURSIVE SetToSeq_(_)
SetToSeq_(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq_(S \ {x})
Init == ID = <<>>
Cyclic(I) == \E x \in Ids(I) : IsDerived(I, x, x)
Next == \E x \in Names \ Ids(ID), B \in SUBSET Names :
          ID' = Append(ID, <<x[1], x[2], SetToSeq_(B)>>) /\ ~Cyclic(ID')
Spec == Init /\ [][Next]_ID
\* bottom-up: the identities that name b or a derived identity as base
RECURSIVE DownFrom(_, _)
DownFrom(I, acc) == LET n == {x \in Ids(I) : BasesOf(I, x) \cap acc # {}} \ acc IN
                    IF n = {} THEN acc ELSE DownFrom(I, acc \cup n)
Strict == \A x, y \in Ids(ID) : IsDerived(ID, x, y) => ~IsDerived(ID, y, x)
Transitive == \A x, y, z \in Ids(ID) : IsDerived(ID, x, y) /\ IsDerived(ID, y, z) => IsDerived(ID, x, z)
Contains == \A x \in Ids(ID) : \A b \in BasesOf(ID, x) : IsDerived(ID, x, b)
Least == \A x, y \in Ids(ID) : IsDerived(ID, x, y) =>
            y \in BasesOf(ID, x) \/ \E b \in BasesOf(ID, x) : IsDerived(ID, b, y)
BothEnds == \A b \in Names : Derived(ID, b) = DownFrom(ID, {b}) \ {b}
AllBases == \A B \in SUBSET Names : B # {} => DerivedAll(ID, B) =
               {x \in Ids(ID) : \A b \in B : x \in Derived(ID, b)}
\* declarations do not take derivation away
Monotone == [][\A x, y \in Names : IsDerived(ID, x, y) => IsDerived(ID', x, y)]_ID
=============================================================================
