------------------------------- MODULE Types ------------------------------
(* Value spaces and canonical text of YANG types.                          *)
EXTENDS Text

IntKinds == {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"}
\* a pattern is <<regular expression, inverted, error tag>>
PatOk(pt, s) == Matches(pt[1], s) # pt[2]
LengthOk(ty, s) == \E k \in 1..Len(ty.ln) : Len(s) >= ty.ln[k][1] /\ Len(s) <= ty.ln[k][2]
RECURSIVE TypeHas(_, _), TypeText(_, _), FlatTypes(_)
TypeHas(ty, v) ==
    CASE ty.b \in IntKinds -> v[1] = "i" /\ \E k \in 1..Len(ty.rg) :
                                 v[2] >= ty.rg[k][1] /\ v[2] <= ty.rg[k][2]
      [] ty.b = "string" -> v[1] = "s" /\ LengthOk(ty, v[2]) /\ \A k \in 1..Len(ty.pt) : PatOk(ty.pt[k], v[2])
      [] ty.b = "boolean" -> v[1] = "b"
      [] ty.b = "empty" -> v[1] = "e"
      [] ty.b = "enumeration" -> v[1] = "s" /\ v[2] \in Rng(ty.en)
      [] ty.b = "bits" -> v[1] = "t" /\ Rng(v[2]) \subseteq Rng(ty.bt)
      [] ty.b = "decimal64" -> v[1] = "d" /\ v[3] <= ty.fd
      [] ty.b = "identityref" -> v[1] = "t" /\ v[2] \in Rng(ty.ids)
      [] ty.b = "binary" -> v[1] = "x"
      [] ty.b = "union" -> \E k \in 1..Len(ty.u) : TypeHas(ty.u[k], v)
      [] ty.b = "leafref" -> TypeHas(ty.ty, v)
      [] ty.b = "instance-identifier" -> v[1] = "r"
      [] OTHER -> FALSE

\* member type of a union that a value belongs to; leafrefs resolved
RECURSIVE Resolve(_, _)
Resolve(ty, v) ==
    IF ty.b = "union"
    THEN LET ks == {k \in 1..Len(ty.u) : TypeHas(ty.u[k], v)} IN
         IF ks = {} THEN [b |-> "none"]
         ELSE Resolve(ty.u[CHOOSE k \in ks : \A j \in ks : k <= j], v)
    ELSE IF ty.b = "leafref" THEN Resolve(ty.ty, v) ELSE ty
\* error tags of a value outside the type: those of the restrictions that are
\* violated ("invalid-type" if none was given)
TagOr(t) == IF t = "" THEN "invalid-type" ELSE t
RECURSIVE TypeTags(_, _)
TypeTags(ty, v) ==
    CASE ty.b \in IntKinds /\ v[1] \in {"i", "I"} -> {TagOr(ty.tg)}
      [] ty.b = "string" /\ v[1] = "s" ->
            {TagOr(ty.tg) : x \in {y \in {1} : ~LengthOk(ty, v[2])}}
            \cup {TagOr(ty.pt[k][3]) : k \in {j \in 1..Len(ty.pt) : ~PatOk(ty.pt[j], v[2])}}
      [] ty.b = "leafref" -> TypeTags(ty.ty, v)
      [] OTHER -> {"invalid-type"}
\* effective (leafref-free) type
RECURSIVE EffType(_)
EffType(ty) == IF ty.b = "leafref" THEN EffType(ty.ty) ELSE ty

\* canonical text of a value (JSON naming of identities)
TypeText(ty, v) == LET t == Resolve(ty, v) IN
    CASE v[1] = "i" -> ToString(v[2])
      [] v[1] = "I" -> v[2]
      [] v[1] = "d" -> DecText(v[2], v[3])
      [] v[1] = "s" -> v[2]
      [] v[1] = "b" -> v[2]
      [] v[1] = "e" -> ""
      [] v[1] = "x" -> Base64(v[2])
      [] v[1] = "r" -> v[2]
      [] v[1] = "t" -> IF t.b = "identityref" THEN v[2][2] \o ":" \o v[2][1] 
                       ELSE Join(SelectSeq(t.bt, LAMBDA x : x \in Rng(v[2])), " ")
FlatTypes(ty) == IF ty.b = "union" THEN UNION {FlatTypes(ty.u[k]) : k \in 1..Len(ty.u)}
                 ELSE IF ty.b = "leafref" THEN FlatTypes(ty.ty) ELSE {ty.b}
=============================================================================
