------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Instance data as JSON (RFC 7951, metadata RFC 7952) and XML documents.   *)
(*                                                                         *)
(* JSON: <<"obj", map>> <<"arr", seq>> <<"str", s>> <<"num", digits>>       *)
(*       <<"flt">> <<"bool", "true">> <<"null">>                            *)
(* XML element: [ns, nm, env, at, tx, ks] with env the prefix bindings in   *)
(* scope ("" = default) and ns, env in terms of modules ("" = no namespace, *)
(* "?" = a namespace of no module), at the attributes <<<<module, name,     *)
(* text>>...>>.                                                             *)
(* Values are those of the other modules; objects may have members "@" and  *)
(* "@name" with metadata.  AN maps annotation names to types.               *)
(*                                                                         *)
(* Must: errors a reader has to report (one of them); May: errors it may    *)
(* report (values out of the restrictions of their types, and encodings     *)
(* the standards leave open).  Errors are <<class, pointer with indices,    *)
(* pointer with keys>>, a pointer "?" is not compared.                      *)
(***************************************************************************)
EXTENDS Ids

Str_(j) == CASE j[1] \in {"str", "num"} -> j[2]
             [] j[1] = "bool" -> IF j[2] = "true" THEN "True" ELSE "False"
             [] j[1] = "null" -> "None"
             [] OTHER -> "?"
Err(c, p) == <<c, p[1], p[2]>>
Sub(p, s) == <<p[1] \o s, IF p[2] = "?" THEN "?" ELSE p[2] \o s>>
\* pointer of entry i (from 0) of list n
EntryPtr(S, n, p, i, j) ==
    LET ks == [x \in 1..(IF j[1] = "obj" THEN Len(S[n].ky) ELSE 0) |->
                 LET nm == S[S[n].ky[x]].nm IN
                 IF nm \in DOMAIN j[2] THEN Str_(j[2][nm]) ELSE "<missing>"]
    IN <<p[1] \o "/" \o ToString(i),
         IF p[2] = "?" \/ \E x \in 1..Len(ks) : ks[x] = "?" THEN "?"
         ELSE IF j[1] # "obj" /\ S[n].ky # <<>> THEN p[2] \o "/" \o ToString(i)
         ELSE p[2] \o "=" \o Join(ks, ",")>>

\* child named in a JSON object, 0 if there is none
JKid(S, n, name) == LET k == Find(name, ":") IN
    IF k = 0 THEN (IF n = 1 THEN 0 ELSE Child(S, n, "", name))
    ELSE Child(S, n, SubSeq(name, 1, k - 1), From(name, k + 1))
JMembers(j) == {m \in DOMAIN j[2] : At_(m, 1) # "@"}
Metas(j) == {m \in DOMAIN j[2] : At_(m, 1) = "@"}
\* encodings refused whatever the restrictions of the type are
RECURSIVE Shapeless(_, _, _)
Shapeless(t, j, C) ==
    CASE t.b = "union" -> FALSE
      [] IsIntT(t.b) /\ t.b \notin {"int64", "uint64"} -> j[1] \notin {"num", "flt"}
      [] t.b \in {"int64", "uint64"} -> j[1] # "str" \/ ~IsIntText(j[2])
      [] t.b = "decimal64" -> j[1] # "str" \/ ~IsDecText(j[2])
      [] t.b \in {"string", "enumeration", "identityref", "bits"} -> j[1] # "str"
      [] t.b = "binary" -> j[1] # "str" \/ ParseB64(j[2]).k = "no"
      [] t.b = "boolean" -> j[1] # "bool"
      [] t.b = "empty" -> j # <<"arr", <<<<"null">>>>>>
      [] t.b = "instance-identifier" -> j[1] # "str" \/ InstanceId(j[2]).k = "bad"
      [] OTHER -> FALSE
LeafErr(S, n, j, p) ==
    LET t == S[n].et r == ParseJson(t, j, [md |-> S[n].md]) IN
    IF t.b = "instance-identifier" THEN [must |-> Shapeless(t, j, 0), may |-> TRUE]
    ELSE [must |-> r.k = "no" /\ (t.b = "union" \/ Shapeless(t, j, 0)), may |-> r.k # "yes"]
\* -- metadata
MetaErrs(AN, j, p) ==      \* of one metadata object
    IF j[1] # "obj" THEN {Err("RawTypeError", p)}
    ELSE UNION {IF a \notin DOMAIN AN
                THEN IF Find(a, ":") = 0 THEN {Err("?UndefinedAnnotation", p), Err("?AnnotationTypeError", p)}
                     ELSE {Err("UndefinedAnnotation", p)}
                ELSE LET r == ParseJson(AN[a], j[2][a], [md |-> SubSeq(a, 1, Find(a, ":") - 1)]) IN
                     IF r.k = "no" THEN {Err("AnnotationTypeError", p)}
                     ELSE IF r.k = "odd" THEN {Err("?AnnotationTypeError", p)} ELSE {}
                : a \in DOMAIN j[2]}
\* member "@m" of the object j; m = "" for the object itself
Metadata(AN, S, n, j, m, p) ==
    LET x == j[2]["@" \o m] c == IF m = "" THEN n ELSE JKid(S, n, m) q == IF m = "" THEN p ELSE Sub(p, "/" \o m) IN
    IF m # "" /\ m \notin DOMAIN j[2] THEN {Err("MissingAnnotationTarget", p)}
    ELSE IF x[1] = "arr" /\ c # 0 /\ S[c].k = "leaf-list"
    THEN UNION {IF x[2][i] = <<"null">> THEN {}
                ELSE {<<e[1], "?", "?">> : e \in MetaErrs(AN, x[2][i], q)} : i \in 1..Len(x[2])}
    ELSE MetaErrs(AN, x, q)
MetaOpen(S, n, j, m) ==    \* not covered by RFC 7952
    LET c == JKid(S, n, m) IN
    /\ m # "" /\ m \in DOMAIN j[2]
    /\ c # 0 => \/ S[c].k \notin {"leaf", "leaf-list"}
                \/ S[c].k = "leaf-list" /\ LET x == j[2]["@" \o m] IN
                     ~(x[1] = "arr" /\ j[2][m][1] = "arr" /\ Len(x[2]) = Len(j[2][m][2]))
                \/ m # S[c].in
RECURSIVE JErrs(_, _, _, _, _), JNode(_, _, _, _, _)
\* all errors; those with "?" before the class are optional
JErrs(S, AN, n, j, p) ==
    IF j[1] # "obj" THEN {Err("RawTypeError", p)}
    ELSE UNION {LET c == JKid(S, n, m) q == Sub(p, "/" \o m)
                    dup == \E m2 \in JMembers(j) : m2 # m /\ JKid(S, n, m2) = c
                IN IF c = 0 THEN {Err("RawMemberError", q)}
                   ELSE LET e == JNode(S, AN, c, j[2][m], q) IN
                        IF m # S[c].in THEN e \cup {Err("?RawMemberError", q)} ELSE e : m \in JMembers(j)}
         \cup UNION {LET m == From(a, 2) IN
                     IF MetaOpen(S, n, j, m) THEN {<<"?" \o (IF At_(e[1], 1) = "?" THEN From(e[1], 2) ELSE e[1]), "?", "?">> :
                                                   e \in Metadata(AN, S, n, j, m, p) \cup
                                                       {<<c, "", "">> : c \in {"RawTypeError", "UndefinedAnnotation", "AnnotationTypeError"}}}
                     ELSE Metadata(AN, S, n, j, m, p) : a \in Metas(j)}
JNode(S, AN, n, j, p) ==
    CASE S[n].k = "container" -> JErrs(S, AN, n, j, p)
      [] S[n].k = "list" -> IF j[1] # "arr" THEN {Err("RawTypeError", p)}
                            ELSE UNION {JErrs(S, AN, n, j[2][i], EntryPtr(S, n, p, i - 1, j[2][i])) : i \in 1..Len(j[2])}
      [] S[n].k = "leaf-list" -> IF j[1] # "arr" THEN {Err("RawTypeError", p)}
                            ELSE UNION {LET r == LeafErr(S, n, j[2][i], p) q == Sub(p, "/" \o ToString(i - 1)) IN
                                        IF r.must THEN {Err("RawTypeError", q)} ELSE IF r.may THEN {Err("?RawTypeError", q)} ELSE {}
                                        : i \in 1..Len(j[2])}
      [] S[n].k = "leaf" -> LET r == LeafErr(S, n, j, p) IN
                            IF r.must THEN {Err("RawTypeError", p)} ELSE IF r.may THEN {Err("?RawTypeError", p)} ELSE {}
      [] OTHER -> IF j[1] = "obj" THEN {} ELSE {Err("?RawTypeError", p)}
Definite(es) == {e \in es : At_(e[1], 1) # "?"}
Explains(es, c, p) == \E e \in es : /\ c = (IF At_(e[1], 1) = "?" THEN From(e[1], 2) ELSE e[1])
                                    /\ (e[2] = "?" \/ e[3] = "?" \/ p \in {e[2], e[3]})

\* instance-identifiers up to redundant qualifiers: explicit modules everywhere
RECURSIVE Explicit(_, _)
Explicit(st, md) ==
    IF st = <<>> THEN <<>>
    ELSE LET x == Head(st) m == IF x[1] = "m" /\ x[2] # "" THEN x[2] ELSE md IN
         <<CASE x[1] = "m" -> <<"m", m, x[3]>>
             [] x[1] = "k" -> <<"k", {<<IF e[1] = "" THEN m ELSE e[1], e[2], e[3]>> : e \in Rng(x[2])}>>
             [] OTHER -> x>> \o Explicit(Tail(st), m)
Route(s) == Explicit(InstanceId(s).st, "")

AnyErrVal == <<"?">>
RECURSIVE AnyVal(_)
AnyVal(j) == CASE j[1] = "obj" -> <<"o", [m \in DOMAIN j[2] |-> AnyVal(j[2][m])]>>
               [] j[1] = "arr" -> <<"a", [i \in 1..Len(j[2]) |-> AnyVal(j[2][i])]>>
               [] j[1] = "str" -> <<"s", j[2]>>
               [] j[1] = "bool" -> <<"b", j[2]>>
               [] j[1] = "num" -> IntVal(BNorm(j[2]))
               [] j[1] = "null" -> <<"?", "None">>
               [] OTHER -> AnyErrVal
RECURSIVE AnySame(_, _)
AnySame(v, w) == CASE w = AnyErrVal -> v[1] = "?"
                   [] w[1] = "o" -> v[1] = "o" /\ DOMAIN v[2] = DOMAIN w[2] /\ \A m \in DOMAIN w[2] : AnySame(v[2][m], w[2][m])
                   [] w[1] = "a" -> v[1] = "a" /\ Len(v[2]) = Len(w[2]) /\ \A i \in 1..Len(w[2]) : AnySame(v[2][i], w[2][i])
                   [] OTHER -> v = w
\* does the cooked v agree with an accepted document?  (set of complaints)
LeafAgree(S, n, j, v) ==
    LET t == S[n].et r == ParseJson(t, j, [md |-> S[n].md]) IN
    IF t.b = "instance-identifier"
    THEN IF j[1] # "str" \/ InstanceId(j[2]).k # "ok" THEN {}
         ELSE If(v[1] # "r" \/ Route(v[2]) # Route(j[2]), Exp("decoded", j[2]))
    ELSE IF r.k = "yes" THEN If(v # r.v, Exp("decoded as " \o ToString(v), r.v))
    ELSE IF r.k = "odd" THEN {}
    ELSE If(Has(t, v), "invalid value decoded as the valid value " \o ToString(v))
MetaAgree(AN, j, v) ==
    IF j[1] # "obj" THEN If(v # <<"?", "None">>, "metadata")
    ELSE IF v[1] # "o" \/ DOMAIN v[2] # DOMAIN j[2] THEN {Exp("metadata", j)}
    ELSE UNION {IF a \notin DOMAIN AN THEN {}
                ELSE LET r == ParseJson(AN[a], j[2][a], [md |-> SubSeq(a, 1, Find(a, ":") - 1)]) IN
                     IF r.k = "yes" THEN If(v[2][a] # r.v, Exp("metadata value", r.v)) ELSE {} : a \in DOMAIN j[2]}
RECURSIVE Agree(_, _, _, _, _)
Agree(S, AN, n, j, v) ==
    IF S[n].k \in {"root", "container"} \/ (S[n].k = "list" /\ j[1] = "obj")
    THEN IF v[1] # "o" THEN {"object expected"}
         ELSE LET open == \E m \in JMembers(j) : m # S[JKid(S, n, m)].in
                  want == {S[JKid(S, n, m)].in : m \in JMembers(j)}
              IN IF open /\ Cardinality(want) < Cardinality(JMembers(j)) THEN {}
                 ELSE If({m \in DOMAIN v[2] : At_(m, 1) # "@"} # want, Exp("members", want))
                      \cup UNION {LET c == JKid(S, n, m) IN
                                  IF S[c].in \in DOMAIN v[2] THEN Agree(S, AN, c, j[2][m], v[2][S[c].in]) ELSE {} : m \in JMembers(j)}
                      \cup UNION {LET m == From(a, 2) IN
                                  IF MetaOpen(S, n, j, m) THEN {}
                                  ELSE IF a \notin DOMAIN v[2] THEN {Exp("metadata lost", a)}
                                  ELSE IF j[2][a][1] = "arr"
                                  THEN IF v[2][a][1] # "a" \/ Len(v[2][a][2]) # Len(j[2][a][2]) THEN {Exp("metadata array", a)}
                                       ELSE UNION {MetaAgree(AN, j[2][a][2][i], v[2][a][2][i]) : i \in 1..Len(j[2][a][2])}
                                  ELSE MetaAgree(AN, j[2][a], v[2][a]) : a \in Metas(j)}
                      \cup If(~({m \in DOMAIN v[2] : At_(m, 1) = "@"} \subseteq Metas(j)) /\ ~open, "metadata from nowhere")
    ELSE IF S[n].k \in {"list", "leaf-list"} /\ j[1] = "arr"
    THEN IF v[1] # "a" \/ Len(v[2]) # Len(j[2]) THEN {Exp("entries", Len(j[2]))}
         ELSE UNION {IF S[n].k = "list" THEN Agree(S, AN, n, j[2][i], v[2][i]) ELSE LeafAgree(S, n, j[2][i], v[2][i]) : i \in 1..Len(j[2])}
    ELSE IF S[n].k = "leaf" THEN LeafAgree(S, n, j, v)
    ELSE If(~AnySame(v, AnyVal(j)), Exp("anydata", AnyVal(j)))

\* -- encoding.  F maps <<kind, position>> to the answers of a filter
\* (members: "bm", "em"; entries: "be", "ee"); nothing there means yes
Says(F, k, p) == IF <<k, p>> \in DOMAIN F THEN F[<<k, p>>] ELSE TRUE
Both(F, b, e, p) == Says(F, b, p) /\ Says(F, e, p)
NoFilter == <<>>
MetaJson(AN, v) == IF v[1] # "o" \/ DOMAIN v[2] = {} THEN <<"null">>
                   ELSE <<"obj", [a \in DOMAIN v[2] |-> IF a \in DOMAIN AN THEN TyJson(AN[a], v[2][a])
                                                        ELSE IF v[2][a][1] = "b" THEN <<"bool", v[2][a][2]>> ELSE <<"odd">>]>>
RECURSIVE AnyJson(_)
AnyJson(v) == CASE v[1] = "o" -> <<"obj", [m \in DOMAIN v[2] |-> AnyJson(v[2][m])]>>
                [] v[1] = "a" -> <<"arr", [i \in 1..Len(v[2]) |-> AnyJson(v[2][i])]>>
                [] v[1] = "s" -> <<"str", v[2]>>
                [] v[1] = "b" -> <<"bool", v[2]>>
                [] v[1] \in {"i", "I"} -> <<"num", BigOf(v)>>
                [] v = <<"?", "None">> -> <<"null">>
                [] OTHER -> <<"odd">>
Proper(v) == {m \in DOMAIN v[2] : At_(m, 1) # "@"}
RECURSIVE Enc(_, _, _, _, _, _)
Enc(S, AN, n, v, p, F) ==
    CASE S[n].k = "anydata" -> AnyJson(v)
      [] v[1] = "o" ->
           LET keep == {m \in Proper(v) : Both(F, "bm", "em", Append(p, m))}
               \* metadata of entry i of leaf-list m
               emd(m, i) == IF i <= Len(v[2]["@" \o m][2]) THEN MetaJson(AN, v[2]["@" \o m][2][i]) ELSE <<"null">>
               ent(m) == IF v[2][m][1] # "a" THEN <<>>
                         ELSE SelectSeq([i \in 1..Len(v[2][m][2]) |-> i], LAMBDA i : Both(F, "be", "ee", p \o <<m, i>>))
               mt == {a \in DOMAIN v[2] : /\ At_(a, 1) = "@"
                                          /\ a = "@" \/ From(a, 2) \in keep
                                          /\ IF v[2][a][1] = "a" THEN \E i \in Rng(ent(From(a, 2))) : emd(From(a, 2), i) # <<"null">>
                                             ELSE MetaJson(AN, v[2][a]) # <<"null">>}
               val(m) == Enc(S, AN, Kid(S, n, m), v[2][m], Append(p, m), F)
           IN <<"obj", [m \in keep \cup mt |->
                 IF m \in keep THEN val(m)
                 ELSE IF v[2][m][1] = "a"
                 THEN LET is == ent(From(m, 2)) IN <<"arr", [i \in 1..Len(is) |-> emd(From(m, 2), is[i])]>>
                 ELSE MetaJson(AN, v[2][m])]>>
      [] v[1] = "a" ->
           LET e(i) == Enc(S, AN, n, v[2][i], Append(p, i), F)
               \* entries of which the filter leaves nothing are left out
               gone(i) == v[2][i][1] = "o" /\ Proper(v[2][i]) # {} /\ ~\E m \in Proper(v[2][i]) : Both(F, "bm", "em", p \o <<i, m>>)
               is == SelectSeq([i \in 1..Len(v[2]) |-> i], LAMBDA i : Both(F, "be", "ee", Append(p, i)) /\ ~gone(i))
           IN <<"arr", [k \in 1..Len(is) |-> e(is[k])]>>
      [] OTHER -> TyJson(S[n].et, v)
\* metadata at places where RFC 7952 has none
RECURSIVE OpenMeta(_, _, _)
OpenMeta(S, n, v) ==
    IF n = 0 \/ S[n].k = "anydata" THEN FALSE
    ELSE IF v[1] = "a" THEN \E i \in 1..Len(v[2]) : OpenMeta(S, n, v[2][i])
    ELSE v[1] = "o" /\ \E m \in DOMAIN v[2] :
         IF At_(m, 1) # "@" THEN OpenMeta(S, Kid(S, n, m), v[2][m])
         ELSE LET c == Kid(S, n, From(m, 2)) md == v[2][m] IN
              \/ (md[1] = "o" /\ \E a \in DOMAIN md[2] : Find(a, ":") = 0)
              \/ (m # "@" /\ (c = 0 \/ S[c].k \notin {"leaf", "leaf-list"} \/ (S[c].k = "leaf-list") # (md[1] = "a")
                             \/ (md[1] = "a" /\ From(m, 2) \in DOMAIN v[2] /\ Len(md[2]) # Len(v[2][From(m, 2)][2]))))
\* calls of the filter: positions of members and entries visited
RECURSIVE Visits(_, _, _, _, _)
Visits(S, n, v, p, F) ==
    IF n = 0 \/ S[n].k = "anydata" THEN {}
    ELSE IF v[1] = "o"
    THEN UNION {{<<"m", Append(p, m)>>} \cup
                (IF Says(F, "bm", Append(p, m)) THEN Visits(S, Kid(S, n, m), v[2][m], Append(p, m), F) ELSE {}) : m \in Proper(v)}
    ELSE IF v[1] = "a"
    THEN UNION {{<<"e", Append(p, i)>>} \cup
                (IF Says(F, "be", Append(p, i)) THEN Visits(S, n, v[2][i], Append(p, i), F) ELSE {}) : i \in 1..Len(v[2])}
    ELSE {}

\* -- XML
IsEl(X, S, c) == X.ns = S[c].md /\ X.nm = S[c].nm
XKid(S, n, X) == Child(S, n, X.ns, X.nm)
XC(X, md) == [md |-> md, env |-> X.env]
RECURSIVE XParse(_, _, _)
XParse(t, s, C) ==
    IF t.b = "union" THEN LET rs == [i \in 1..Len(t.u) |-> XParse(t.u[i], s, C)]
                              ks == {i \in 1..Len(rs) : rs[i].k # "no"}
                          IN IF ks = {} THEN No ELSE rs[CHOOSE i \in ks : \A k \in ks : i <= k]
    ELSE IF t.b = "identityref"
    THEN LET k == Find(s, ":") p == SubSeq(s, 1, k - 1) IN
         IF Strip(s) # s THEN OddV
         ELSE IF k = 0 THEN OnlyIf(t, <<"t", <<s, IF "" \in DOMAIN C.env THEN C.env[""] ELSE C.md>>>>)
         ELSE IF p \in DOMAIN C.env THEN OnlyIf(t, <<"t", <<From(s, k + 1), C.env[p]>>>>)
         ELSE OddV
    ELSE IF t.b = "instance-identifier"
    THEN LET q == InstanceId(s)
             names == IF q.k # "ok" THEN {} ELSE UNION {IF q.st[i][1] = "m" THEN {q.st[i][2]} ELSE
                                         IF q.st[i][1] = "k" THEN {e[1] : e \in Rng(q.st[i][2])} ELSE {} : i \in 1..Len(q.st)}
         IN IF q.k = "bad" THEN (IF Strip(s) = s THEN No ELSE OddV)
            ELSE IF q.k = "odd" \/ ~(names \subseteq DOMAIN C.env) \/ "" \in names THEN OddV
            ELSE [k |-> "yes", v |-> <<"R", Explicit([i \in 1..Len(q.st) |->
                    CASE q.st[i][1] = "m" -> <<"m", C.env[q.st[i][2]], q.st[i][3]>>
                      [] q.st[i][1] = "k" -> <<"k", [x \in 1..Len(q.st[i][2]) |->
                             <<C.env[q.st[i][2][x][1]], q.st[i][2][x][2], q.st[i][2][x][3]>>]>>
                      [] OTHER -> q.st[i]], "")>>]
    ELSE ParseXml(t, s, C)
SameVal(v, w) == IF w[1] = "R" THEN v[1] = "r" /\ Route(v[2]) = w[2] ELSE v = w
XShapeless(t, s) ==
    CASE IsIntT(t.b) -> ~IsIntText(Strip(s))
      [] t.b = "decimal64" -> ~IsDecText(Strip(s))
      [] t.b = "boolean" -> Strip(s) \notin {"true", "false"}
      [] t.b = "empty" -> Strip(s) # ""
      [] t.b = "binary" -> ParseB64(Strip(s)).k = "no" /\ s = Strip(s)
      [] t.b = "union" -> TRUE
      [] OTHER -> FALSE
RECURSIVE XErrs(_, _, _)
\* possible errors: "must" errors make acceptance wrong
XErrs(S, n, X) ==
    IF S[n].k \in {"leaf", "leaf-list"}
    THEN LET r == XParse(S[n].et, X.tx, XC(X, S[n].md)) IN
         IF r.k = "no" /\ XShapeless(S[n].et, X.tx) /\ X.ks = <<>> THEN {"RawTypeError"}
         ELSE IF r.k = "yes" /\ X.ks = <<>> THEN {} ELSE {"?RawTypeError"}
    ELSE IF S[n].k = "anydata" THEN {"?RawTypeError"}
    ELSE UNION {LET e == X.ks[i] IN
                IF e.ns = "?" THEN {"MissingModuleNamespace"}
                ELSE LET c == XKid(S, n, e) IN
                     IF e.ns = "" THEN {"?RawMemberError", "?RawTypeError"} \cup (IF c = 0 \/ n = 1 THEN {} ELSE {"?" \o x : x \in XErrs(S, c, e)})
                     ELSE IF c = 0 THEN {"RawMemberError"} ELSE XErrs(S, c, e) : i \in 1..Len(X.ks)}
RECURSIVE XOpen(_, _, _)
\* elements without namespace, repeated elements
XOpen(S, n, X) ==
    \/ \E i \in 1..Len(X.ks) : X.ks[i].ns = ""
    \/ \E i, j \in 1..Len(X.ks) : i < j /\ X.ks[i].ns = X.ks[j].ns /\ X.ks[i].nm = X.ks[j].nm
         /\ LET c == XKid(S, n, X.ks[i]) IN c # 0 /\ ~IsSeqNode(S, c)
RECURSIVE XAgree(_, _, _, _, _)
\* element X (of node n) against the value v; enc: X was written by the library
XAgree(S, n, X, v, enc) ==
    IF S[n].k \in {"leaf", "leaf-list"}
    THEN LET t == S[n].et r == XParse(t, X.tx, XC(X, S[n].md)) IN
         IF ~enc
         THEN IF r.k = "yes" THEN If(~SameVal(v, r.v), Exp("decoded as " \o ToString(v), r.v))
              ELSE IF r.k = "no" THEN If(Has(t, v), "invalid value decoded as the valid value " \o ToString(v)) ELSE {}
         ELSE IF v[1] = "r"
         THEN If(InstanceId(v[2]).k = "ok" /\ (r.k # "yes" \/ ~SameVal(v, r.v)), Exp("XML of instance-identifier " \o X.tx, v[2]))
         ELSE IF v[1] = "t" /\ Has(t, v) /\ Len(v[2]) = 2 /\ Find(X.tx, ":") > 0
         THEN If(r.k # "yes" \/ r.v # v, Exp("XML of identity " \o X.tx, v))
         ELSE IF ~Has(t, v) THEN {}
         ELSE If(X.tx # Canon(t, v) \/ X.ks # <<>>, Exp("XML text " \o X.tx, Canon(t, v)))
    ELSE IF S[n].k = "anydata" THEN {}
    ELSE IF v[1] # "o" THEN {"object expected"}
    ELSE IF ~enc /\ XOpen(S, n, X) THEN {}
    ELSE LET cs == [i \in 1..Len(X.ks) |-> XKid(S, n, X.ks[i])]
             have == {m \in Proper(v) : v[2][m] # <<"a", <<>>>>}
             of(c) == SelectSeq([i \in 1..Len(cs) |-> i], LAMBDA i : cs[i] = c)
         IN IF \E i \in 1..Len(cs) : cs[i] = 0 \/ X.ks[i].ns = "" THEN {Exp("element of no data node", [i \in 1..Len(cs) |-> <<X.ks[i].ns, X.ks[i].nm>>])}
            ELSE If({S[c].in : c \in Rng(cs)} # have, Exp("members", {S[c].in : c \in Rng(cs)}))
                 \cup UNION {LET is == of(c) m == S[c].in IN
                             IF m \notin have THEN {}
                             ELSE IF IsSeqNode(S, c)
                             THEN IF v[2][m][1] # "a" \/ Len(v[2][m][2]) # Len(is) THEN {Exp("entries of " \o m, Len(is))}
                                  ELSE UNION {XAgree(S, c, X.ks[is[k]], v[2][m][2][k], enc) : k \in 1..Len(is)}
                             ELSE IF Len(is) # 1 THEN {"repeated element " \o m}
                             ELSE XAgree(S, c, X.ks[is[1]], v[2][m], enc) : c \in Rng(cs)}
\* what a filter leaves of a value (for XML: entries stay even if emptied)
RECURSIVE Filtered(_, _, _, _, _)
Filtered(S, n, v, p, F) ==
    IF v[1] = "o" THEN <<"o", [m \in {x \in Proper(v) : Both(F, "bm", "em", Append(p, x))} |-> Filtered(S, n, v[2][m], Append(p, m), F)]>>
    ELSE IF v[1] = "a"
    THEN LET is == SelectSeq([i \in 1..Len(v[2]) |-> i], LAMBDA i : Both(F, "be", "ee", Append(p, i)))
         IN <<"a", [k \in 1..Len(is) |-> Filtered(S, n, v[2][is[k]], Append(p, is[k]), F)]>>
    ELSE v
=============================================================================
