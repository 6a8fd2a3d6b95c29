----------------------------- MODULE TraceCodec -----------------------------
(***************************************************************************)
(* Judges recorded decodings and encodings.  State: schema, annotations.    *)
(***************************************************************************)
EXTENDS Codec, TraceBase
VARIABLES l, S, A

Ev_ == Trace[l]
RECURSIVE JVal(_), XVal(_), SetIds(_)
\* JSON of the trace: objects are sequences of pairs
JVal(j) == CASE j[1] = "obj" -> <<"obj", [m \in {x[1] : x \in Rng(j[2])} |-> JVal((CHOOSE x \in Rng(j[2]) : x[1] = m)[2])]>>
             [] j[1] = "arr" -> <<"arr", [i \in 1..Len(j[2]) |-> JVal(j[2][i])]>>
             [] OTHER -> j
XVal(x) == [ns |-> x.ns, nm |-> x.nm, tx |-> x.tx, at |-> x.at, ks |-> [i \in 1..Len(x.ks) |-> XVal(x.ks[i])],
            env |-> [p \in {e[1] : e \in Rng(x.env)} |-> (CHOOSE e \in Rng(x.env) : e[1] = p)[2]]]
SetIds(t) == [t EXCEPT !.ids = Rng(@), !.u = [i \in 1..Len(@) |-> SetIds(@[i])]]

JdecClauses(e) ==
    LET j == JVal(e.j) es == JErrs(S, A, 1, j, <<"", "">>) IN
    IF e.out[1] = "err"
    THEN If(~e.out[4], "refused with an undocumented exception " \o e.out[2])
         \cup If(e.out[4] /\ ~Explains(es, e.out[2], e.out[3]), Exp("refused: " \o e.out[2] \o " at " \o e.out[3], es))
    ELSE IF Definite(es) # {} THEN {Exp("accepted a wrong document", Definite(es))}
    ELSE Agree(S, A, 1, j, Val(e.out[2])) \cup If(e.kept # "yes", "decoding changed the input")
FMap(calls) == [x \in {<<c[1], c[2]>> : c \in Rng(calls)} |->
                 (CHOOSE c \in Rng(calls) : <<c[1], c[2]>> = x)[3] = "yes"]
Opens(c) == c[1] \in {"bm", "be"}
Kind(c) == IF c[1] \in {"bm", "em"} THEN "m" ELSE "e"
Prefix_(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
CallClauses(calls, want) ==
    LET n == Len(calls)
        opens == {i \in 1..n : Opens(calls[i])}
        close(i) == {j \in 1..n : ~Opens(calls[j]) /\ Kind(calls[j]) = Kind(calls[i]) /\ calls[j][2] = calls[i][2]}
    IN IF {<<Kind(calls[i]), calls[i][2]>> : i \in opens} # want \/ Cardinality(opens) # Cardinality(want)
       THEN {Exp("filter called for", want)}
       ELSE IF 2 * Cardinality(opens) # n \/ \E i \in opens : Cardinality(close(i)) # 1 THEN {"begin and end calls do not match"}
       ELSE LET cl(i) == CHOOSE j \in close(i) : TRUE IN
            If(\E i \in opens : cl(i) < i \/
                 \E j \in (i + 1)..(cl(i) - 1) : ~(Prefix_(calls[i][2], calls[j][2]) /\ calls[j][2] # calls[i][2]),
               "calls are not properly nested")
            \cup If(\E i \in opens : \E j \in 1..n : Prefix_(calls[i][2], calls[j][2]) /\ (j < i \/ j > cl(i)),
               "call outside of its parent")
\* positions at which the filter removes the metadata it is given
Cleared(calls) == {c[2] : c \in {x \in Rng(calls) : x[4] = "clear"}}
NoMeta == <<"?", "None">>
RECURSIVE Stripped(_, _, _), MetaOf(_, _)
Stripped(v, p, C) ==
    CASE v[1] = "o" ->
           LET gone(m) == IF m = "@" THEN p \in C
                          ELSE At_(m, 1) = "@" /\ v[2][m][1] = "o" /\ Append(p, From(m, 2)) \in C
               md(m) == IF v[2][m][1] # "a" THEN v[2][m]
                        ELSE <<"a", [i \in 1..Len(v[2][m][2]) |-> IF p \o <<From(m, 2), i>> \in C THEN NoMeta ELSE v[2][m][2][i]]>>
           IN <<"o", [m \in {x \in DOMAIN v[2] : ~gone(x)} |->
                        IF At_(m, 1) = "@" THEN md(m) ELSE Stripped(v[2][m], Append(p, m), C)]>>
      [] v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> Stripped(v[2][i], Append(p, i), C)]>>
      [] OTHER -> v
\* metadata of all nodes of a tree: <<position, metadata>>
MetaOf(v, p) ==
    CASE v[1] = "o" ->
           (IF "@" \in DOMAIN v[2] THEN {<<p, v[2]["@"]>>} ELSE {})
           \cup UNION {LET y == v[2][m] x == Append(p, From(m, 2)) IN
                       IF At_(m, 1) # "@" THEN MetaOf(y, Append(p, m))
                       ELSE IF m = "@" THEN {}
                       ELSE IF y[1] = "a" THEN {<<Append(x, i), y[2][i]>> : i \in 1..Len(y[2])}
                       ELSE {<<x, y>>} : m \in DOMAIN v[2]}
      [] v[1] = "a" -> UNION {MetaOf(v[2][i], Append(p, i)) : i \in 1..Len(v[2])}
      [] OTHER -> {}
Holds(md) == md[1] = "o" /\ DOMAIN md[2] # {}
SeenClauses(v, calls) ==
    LET M == {x \in MetaOf(v, <<>>) : Holds(x[2])} IN
    UNION {LET seen == Val(c[5]) has == {x[2] : x \in {y \in M : y[1] = c[2]}} IN
           If((IF Holds(seen) THEN seen \notin has ELSE has # {}), Exp("metadata shown to the filter at " \o ToString(c[2]), has))
           : c \in {x \in Rng(calls) : Opens(x)}}
SameAfter(e) == If(Val(e.after) # Val(e.v), "serialization changed the instance")
JencClauses(e) ==
    LET v0 == Val(e.v) F == FMap(e.calls) v == Stripped(v0, <<>>, Cleared(e.calls)) want == Enc(S, A, 1, v, <<>>, F) IN
    IF e.out[1] = "err" THEN {"encoding failed with " \o e.out[2]}
    ELSE If(~OpenMeta(S, 1, v0) /\ JVal(e.out[2]) # want, Exp("encoded", want))
         \cup SameAfter(e) \cup (IF OpenMeta(S, 1, v0) THEN {} ELSE SeenClauses(v0, e.calls))
         \cup (IF e.filter = "yes" THEN CallClauses(e.calls, Visits(S, 1, v, <<>>, F)) ELSE {})
XdecClauses(e) ==
    LET X == XVal(e.x) es == XErrs(S, 1, X) IN
    IF e.out[1] = "err"
    THEN If(~e.out[4], "refused with an undocumented exception " \o e.out[2])
         \cup If(e.out[4] /\ e.out[2] \notin es /\ "?" \o e.out[2] \notin es, Exp("refused: " \o e.out[2] \o " at " \o e.out[3], es))
    ELSE IF \E x \in es : At_(x, 1) # "?" THEN {Exp("accepted a wrong document", es)}
    ELSE XAgree(S, 1, X, Val(e.out[2]), FALSE)
RECURSIVE XAttrs(_, _, _, _)
\* metadata as attributes
AttrsOf(AN, v) == IF v[1] # "o" THEN {} ELSE {<<SubSeq(a, 1, Find(a, ":") - 1), From(a, Find(a, ":") + 1),
                    IF a \in DOMAIN AN THEN (IF AN[a].b = "identityref" THEN "?" ELSE Canon(AN[a], v[2][a])) ELSE "?">> : a \in DOMAIN v[2]}
SameAttrs(at, want) == {<<x[1], x[2]>> : x \in Rng(at)} = {<<x[1], x[2]>> : x \in want}
                       /\ \A x \in Rng(at), y \in want : (x[1] = y[1] /\ x[2] = y[2]) => (y[3] = "?" \/ x[3] = y[3])
XAttrs(n, X, v, mt) ==
    If(mt # <<"any">> /\ ~SameAttrs(X.at, AttrsOf(A, mt)), Exp("attributes of " \o X.nm, AttrsOf(A, mt)))
    \cup (IF v[1] # "o" THEN {}
          ELSE UNION {LET c == XKid(S, n, X.ks[i]) m == S[c].in w == v[2][m]
                          k == Cardinality({x \in 1..i : XKid(S, n, X.ks[x]) = c})
                          am == IF "@" \o m \in DOMAIN v[2] THEN v[2]["@" \o m] ELSE <<"?">>
                          own(y) == IF y[1] = "o" /\ "@" \in DOMAIN y[2] THEN y[2]["@"] ELSE <<"?">>
                      IN IF S[c].k = "anydata" THEN {}
                         ELSE IF S[c].k = "list" THEN XAttrs(c, X.ks[i], w[2][k], own(w[2][k]))
                         ELSE IF S[c].k = "leaf-list" THEN XAttrs(c, X.ks[i], w[2][k], IF am[1] = "a" THEN am[2][k] ELSE <<"?">>)
                         ELSE IF S[c].k = "leaf" THEN XAttrs(c, X.ks[i], w, am)
                         \* for a container, metadata in a sibling member is out of place
                         ELSE XAttrs(c, X.ks[i], w, IF am # <<"?">> THEN <<"any">> ELSE own(w)) : i \in 1..Len(X.ks)})
XencClauses(e) ==
    LET v0 == Val(e.v) F == FMap(e.calls) v == Stripped(v0, <<>>, Cleared(e.calls)) w == Filtered(S, 1, v, <<>>, F) IN
    IF e.out[1] = "err" THEN {"encoding failed with " \o e.out[2]}
    ELSE LET r == XAgree(S, 1, XVal(e.out[2]), w, TRUE) IN
         r \cup SameAfter(e) \cup (IF OpenMeta(S, 1, v0) THEN {} ELSE SeenClauses(v0, e.calls)) \cup (IF e.filter = "yes" THEN CallClauses(e.calls, Visits(S, 1, v, <<>>, F))
                 ELSE IF r = {} THEN XAttrs(1, XVal(e.out[2]), v, <<"?">>) ELSE {})

\* an edit at a path leaves everything else, in particular all metadata
RECURSIVE EditAt(_, _, _, _)
EditAt(v, p, kind, w) ==
    IF Len(p) = 1
    THEN IF v[1] = "o"
         THEN <<"o", IF kind = "set" THEN [v[2] EXCEPT ![p[1]] = w] ELSE [m \in DOMAIN v[2] \ {p[1]} |-> v[2][m]]>>
         ELSE <<"a", CASE kind = "set" -> [v[2] EXCEPT ![p[1]] = w]
                       [] kind = "delete" -> SubSeq(v[2], 1, p[1] - 1) \o SubSeq(v[2], p[1] + 1, Len(v[2]))
                       [] kind = "before" -> SubSeq(v[2], 1, p[1] - 1) \o <<w>> \o SubSeq(v[2], p[1], Len(v[2]))
                       [] kind = "after" -> SubSeq(v[2], 1, p[1]) \o <<w>> \o SubSeq(v[2], p[1] + 1, Len(v[2]))>>
    ELSE <<v[1], [v[2] EXCEPT ![p[1]] = EditAt(@, Tail(p), kind, w)]>>
\* without metadata of members that do not exist
RECURSIVE Attached(_)
Attached(v) == CASE v[1] = "o" -> <<"o", [m \in {x \in DOMAIN v[2] : At_(x, 1) # "@" \/ x = "@" \/ From(x, 2) \in DOMAIN v[2]} |->
                                          IF At_(m, 1) = "@" THEN v[2][m] ELSE Attached(v[2][m])]>>
                 [] v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> Attached(v[2][i])]>>
                 [] OTHER -> v
MeditClauses(e) ==
    LET want == Attached(EditAt(Val(e.v), e.path, e.kind, Val(e.new))) IN
    If(Attached(Val(e.out)) # want, Exp("edited", want))

Init == l = 1 /\ S = <<>> /\ A = EmptyObj
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE Ev_.op = "load" -> S' = [i \in 1..Len(Ev_.schema) |-> [Ev_.schema[i] EXCEPT !.et = SetIds(@)]]
                  /\ A' = [a \in {x[1] : x \in Rng(Ev_.annots)} |-> SetIds((CHOOSE x \in Rng(Ev_.annots) : x[1] = a)[2])]
             [] OTHER -> UNCHANGED <<S, A>> /\ Report(l,
                    CASE Ev_.op = "jdec" -> JdecClauses(Ev_)
                      [] Ev_.op = "jenc" -> JencClauses(Ev_)
                      [] Ev_.op = "xdec" -> XdecClauses(Ev_)
                      [] Ev_.op = "xenc" -> XencClauses(Ev_)
                      [] Ev_.op = "medit" -> MeditClauses(Ev_))
=============================================================================
