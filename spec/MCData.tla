------------------------------- MODULE MCData -------------------------------
(***************************************************************************)
(* All small instance trees of several small schemas: a tree grows by one   *)
(* member or entry at a time, up to M[m].size of them.  Laws of default     *)
(* completion and validity are checked in every tree, and every tree is     *)
(* printed with all its violations and completions; the harness presents    *)
(* it to the real code.                                                     *)
(*                                                                         *)
(* IOEnv.MODEL: JSON file, one model per line: schema table, identities,    *)
(* pool of values for each leaf, leaf-list entry and anydata, size bound.   *)
(***************************************************************************)
EXTENDS Validate, Json, IOUtils, SequencesExt
VARIABLES m, t

M == ndJsonDeserialize(IOEnv.MODEL)
Pool(n) == {Val(M[m].pool[n][i]) : i \in 1..Len(M[m].pool[n])}

RECURSIVE Size(_), Grown(_, _, _)
Size(v) == CASE v[1] = "o" -> FoldSet(LAMBDA k, a : a + 1 + Size(v[2][k]), 0, DOMAIN v[2])
             [] v[1] = "a" -> FoldSet(LAMBDA k, a : a + 1 + Size(v[2][k]), -1, DOMAIN v[2])
             [] OTHER -> 0
\* first values of a node
Fresh(S, n) == CASE S[n].k = "container" -> {EmptyObj}
                 [] S[n].k = "list" -> {Arr(<<EmptyObj>>)}
                 [] S[n].k = "leaf-list" -> {Arr(<<x>>) : x \in Pool(n)}
                 [] OTHER -> Pool(n)
\* values that result from v, an instance of n, by one more member or entry
Grown(S, n, v) ==
    IF v[1] = "o" /\ IsInternal(S, n)
    THEN UNION {IF S[c].in \notin DOMAIN v[2] THEN {Obj(SetM(v[2], S[c].in, x)) : x \in Fresh(S, c)}
                ELSE {Obj(SetM(v[2], S[c].in, x)) : x \in Grown(S, c, v[2][S[c].in])} : c \in Rng(S[n].dk)}
    ELSE IF v[1] = "a"
    THEN (IF Len(v[2]) >= M[m].len THEN {}
          ELSE {Arr(Append(v[2], x)) : x \in IF S[n].k = "list" THEN {EmptyObj} ELSE Pool(n)})
         \cup UNION {{Arr(SetE(v[2], i, x)) : x \in Grown(S, n, v[2][i])} : i \in 1..Len(v[2])}
    ELSE {}

S0 == M[m].schema
NoRoutes == [x \in {} |-> {}]
ID0 == M[m].idents
Co(x, ct) == Complete(S0, x, ID0, NoRoutes, ct)
Vi(x, syn, sem, ct) == Violations(Doc(S0, x, ID0, NoRoutes), x, syn, sem, ct)
CTs == {1, 2, 3}

Init == m \in 1..Len(M) /\ t = EmptyObj
Next == /\ Size(t) < M[m].size
        /\ t' \in Grown(S0, 1, t)
        /\ UNCHANGED m

(************************** laws **************************)
\* is a contained in b, the place of entries being kept?
RECURSIVE Within(_, _)
Within(a, b) ==
    CASE a[1] = "o" -> b[1] = "o" /\ DOMAIN a[2] \subseteq DOMAIN b[2] /\ \A k \in DOMAIN a[2] : Within(a[2][k], b[2][k])
      [] a[1] = "a" -> b[1] = "a" /\ DOMAIN a[2] = DOMAIN b[2] /\ \A k \in DOMAIN a[2] : Within(a[2][k], b[2][k])
      [] OTHER -> a = b
Idempotent == \A ct \in CTs : Co(Co(t, ct), ct) = Co(t, ct)
Conservative == \A ct \in CTs : Within(t, Co(t, ct))
\* less is completed for a part of the data
Parts == \A ct \in {1, 2} : Within(Co(t, ct), Co(t, 3))
\* completion keeps valid trees valid (syntactically: a must of a container that
\* the completion creates may be false; a deprecated container need not be there,
\* but a completed one needs its content)
KeepsValid == (\A n \in 1..Len(S0) : S0[n].st = "") /\ Vi(t, TRUE, FALSE, 3) = {} => Vi(Co(t, 3), TRUE, FALSE, 3) = {}
\* what is in use does not change by making it explicit
Transparent == \A c \in {3} : Accessible(S0, Co(t, c), ID0, NoRoutes) = Accessible(S0, t, ID0, NoRoutes)
\* violations are violations of something that is there
Located == \A ct \in CTs : \A x \in Vi(t, TRUE, TRUE, ct) : Exists(t, x[3])
\* the content type has an effect on syntax only
Scopes == \A ct \in CTs : Vi(t, FALSE, TRUE, ct) = Vi(t, FALSE, TRUE, 3)
\* and only on what may or has to be there
Types == \A ct \in CTs : {x \in Vi(t, TRUE, FALSE, ct) : x[1] = "YangTypeError"} = {x \in Vi(t, TRUE, FALSE, 3) : x[1] = "YangTypeError"}
\* what is admitted in a part is admitted in the whole
Admitted == \A ct \in {1, 2} : \A x \in Vi(t, TRUE, FALSE, 3) :
    x[2] = "member-not-allowed" => x \in Vi(t, TRUE, FALSE, ct)

(************************ emission ************************)
Q(s) == SetToSeq(s)
Emit == PrintT("@@ST " \o ToJson([m |-> m, t |-> t,
            syn |-> [ct \in CTs |-> Q(Vi(t, TRUE, FALSE, ct))], sem |-> Q(Vi(t, FALSE, TRUE, 3)),
            co |-> [ct \in CTs |-> Co(t, ct)]]))
=============================================================================
