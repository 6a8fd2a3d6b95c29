----------------------------- MODULE Validate -----------------------------
(***************************************************************************)
(* Validity of instance data (RFC 7950 section 8).                         *)
(*                                                                         *)
(* Violations(D0, t, syn, sem, ct) is the set of all violations of tree t,  *)
(* each a triple <<exception class, error tag, position>>: the tree is     *)
(* valid iff the set is empty, and an error that is reported must be one    *)
(* of the set.  D0 is a document without tree (schema, identities, routes). *)
(***************************************************************************)
EXTENDS Defaults

V(c, t, p) == <<c, t, p>>

\* -- must data node c be present when its parent (or its case) is?
\* (for containers without presence, see Missing)
Required(S, c, ct) ==
    /\ Adm(S, c, ct) /\ ~Gone(S, c) /\ ~Became(S, c, "deprecated")
    /\ CASE S[c].k \in {"leaf", "anydata"} -> S[c].mand \/ c \in Rng(S[S[c].dp].ky)
         [] S[c].k \in {"list", "leaf-list"} -> S[c].mn > 0
         [] S[c].k = "choice" -> S[c].mand /\ \E a \in Rng(S[c].c) : ~Gone(S, a) /\ \E d \in Rng(S[a].c) : ~Gone(S, d)
         [] OTHER -> FALSE

\* choices and cases around a data node, innermost first
RECURSIVE Around(_, _)
Around(S, c) == LET p == S[c].p IN
    IF S[p].k \in {"choice", "case"} THEN <<p>> \o Around(S, p) ELSE <<>>

\* why member m of the object o at p must not be there
Forbidden(D, n, o, p, m, ct) == LET S == D.S c == Kid(S, n, m) IN
    \/ c = 0
    \/ ~Adm(S, c, ct)
    \/ Gone(S, c)
    \/ Definite(CondsHold(D, c, p)) = "f"
    \/ \E i \in 1..Len(Around(S, c)) : LET a == Around(S, c)[i] IN
         \/ Gone(S, a) \/ Definite(CondsHold(D, a, p)) = "f"
         \/ S[a].k = "case" /\ \E b \in Rng(S[S[a].p].c) \ {a} :
              \E d \in Rng(S[b].dk) : S[d].in \in DOMAIN o[2]

\* is something missing among the schema nodes ks?
RECURSIVE Missing(_, _, _, _, _)
HasData(S, n, o) == IF IsData(S, n) THEN S[n].in \in DOMAIN o[2]
                    ELSE \E d \in Rng(S[n].dk) : S[d].in \in DOMAIN o[2]
Missing(D, ks, o, p, ct) == LET S == D.S IN \E i \in 1..Len(ks) : LET c == ks[i] IN
    IF S[c].k = "case" THEN FALSE
    ELSE IF S[c].k = "choice"
    THEN LET a == ActiveCase(S, c, o) IN
         IF a = 0 THEN Required(S, c, ct) /\ Definite(CondsHold(D, c, p)) = "t"
         ELSE Missing(D, S[a].c, o, p, ct)
    ELSE IF S[c].k = "container" /\ ~S[c].pres
    THEN \* it need not be there if nothing is required inside
         /\ Adm(S, c, ct) /\ ~Gone(S, c) /\ ~Became(S, c, "deprecated") /\ S[c].in \notin DOMAIN o[2]
         /\ Definite(CondsHold(D, c, p)) = "t"
         /\ Missing(D, S[c].c, EmptyObj, Append(p, S[c].in), ct)
    ELSE Required(S, c, ct) /\ S[c].in \notin DOMAIN o[2] /\ Definite(CondsHold(D, c, p)) = "t"

\* -- leaf references
LinkOk(D, n, p) == LET r == Deref(D, p) IN r[1] # "ns" \/ r[2] # {}

Musts(D, n, p) == UNION {
    LET m == D.S[n].mu[i] h == Definite(Holds(D, m.x, p)) IN
    IF h = "f" THEN {V("SemanticError", IF "tag" \in DOMAIN m THEN m.tag ELSE "must-violation", p)} ELSE {}
    : i \in 1..Len(D.S[n].mu)}

\* value of the descendant leaf reached from entry e (position p of D.T, with
\* defaults) by the chain of schema nodes to leaf u; {} or {value}
RECURSIVE ChainTo(_, _, _)
ChainTo(S, l, u) == IF u = l THEN <<>> ELSE Append(ChainTo(S, l, S[u].dp), S[u].in)
LeafAt(D, p, ch) == IF Exists(D.T, p \o ch) THEN {At(D.T, p \o ch)} ELSE {}

SeqViol(D, n, v, p, ct) == LET S == D.S cnt == Len(v[2]) IN
    If(cnt < S[n].mn, V("SemanticError", "too-few-elements", p))
    \cup If(S[n].mx >= 0 /\ cnt > S[n].mx, V("SemanticError", "too-many-elements", p))
    \cup (IF S[n].k = "leaf-list"
          THEN If(S[n].cfg /\ Cardinality(Rng(v[2])) < cnt, V("SemanticError", "repeated-leaf-list-values", p))
          ELSE LET ks == KeyNames(S, n)
                   nokey == {i \in 1..cnt : \E k \in Rng(ks) : k \notin DOMAIN v[2][i][2]}
                   key(i) == [j \in 1..Len(ks) |-> v[2][i][2][ks[j]]]
               IN {V("SchemaError", "list-key-missing", Append(p, i)) : i \in nokey}
                  \cup If(ks # <<>> /\ \E i, j \in (1..cnt) \ nokey : i < j /\ key(i) = key(j),
                          V("SemanticError", "non-unique-key", p))
                  \cup If(\E q \in 1..Len(S[n].uq) : \E i, j \in 1..cnt : i < j /\
                             LET us == S[n].uq[q]
                                 tup(e) == [x \in 1..Len(us) |-> LeafAt(D, Append(p, e), ChainTo(S, n, us[x]))]
                             IN tup(i) = tup(j) /\ \A x \in 1..Len(us) : tup(i)[x] # {},
                          V("SemanticError", "data-not-unique", p)))

RECURSIVE Viol(_, _, _, _, _, _, _)
\* D: accessible tree; v: value at p (without defaults), n: its schema node
Viol(D, n, v, p, syn, sem, ct) == LET S == D.S IN
    IF v[1] = "a" /\ IsSeqNode(S, n)
    THEN (IF sem THEN SeqViol(D, n, v, p, ct) ELSE {})
         \cup UNION {Viol(D, n, v[2][i], Append(p, i), syn, sem, ct) : i \in 1..Len(v[2])}
    ELSE (IF sem THEN Musts(D, n, p) ELSE {})
         \cup
         (IF S[n].k \in {"leaf", "leaf-list"}
          THEN (IF syn /\ ~TypeHas(S[n].ty, v) THEN {V("YangTypeError", tag, p) : tag \in TypeTags(S[n].ty, v)} ELSE {})
               \cup (IF sem /\ S[n].ty.b \in {"leafref", "instance-identifier"} /\ S[n].ty.req
                     THEN If(~LinkOk(D, n, p), V("SemanticError", "instance-required", p)) ELSE {})
          ELSE IF S[n].k = "anydata" THEN {}
          ELSE (IF syn
                THEN If(\E m \in DOMAIN v[2] : Forbidden(D, n, v, p, m, ct), V("SchemaError", "member-not-allowed", p))
                     \cup If(Missing(D, S[n].c, v, p, ct), V("SchemaError", "missing-data", p))
                ELSE {})
               \cup UNION {Viol(D, Kid(S, n, m), v[2][m], Append(p, m), syn, sem, ct)
                           : m \in {x \in DOMAIN v[2] : Kid(S, n, x) # 0}})

Violations(D0, t, syn, sem, ct) ==
    Viol([D0 EXCEPT !.T = Accessible(D0.S, t, D0.ID, D0.RT)], 1, t, <<>>, syn, sem, ct)
=============================================================================
