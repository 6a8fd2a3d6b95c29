------------------------------ MODULE MCCodec ------------------------------
(***************************************************************************)
(* All small JSON documents over small schemas, right and wrong ones: a     *)
(* document grows by one member, entry or metadata object at a time.  Laws  *)
(* of decoding, encoding, XML and filters are checked for every document,   *)
(* which is printed with its errors, its value and encodings; the harness   *)
(* presents it to the real library.                                         *)
(*                                                                         *)
(* IOEnv.MODEL: one model per line: schema, annots, and for each schema     *)
(* node its names (spellings that may be used as member names) and pool (of  *)
(* JSON values for leafs); foreign: other member names; metas: pool of      *)
(* metadata objects; size: number of steps.                                 *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils, TLC
VARIABLES m, k, j

RECURSIVE JV(_), SetIds(_)
JV(x) == CASE x[1] = "obj" -> <<"obj", [n \in {y[1] : y \in Rng(x[2])} |-> JV((CHOOSE y \in Rng(x[2]) : y[1] = n)[2])]>>
           [] x[1] = "arr" -> <<"arr", [i \in 1..Len(x[2]) |-> JV(x[2][i])]>>
           [] OTHER -> x
SetIds(t) == [t EXCEPT !.ids = Rng(@), !.u = [i \in 1..Len(@) |-> SetIds(@[i])]]
M == ndJsonDeserialize(IOEnv.MODEL)
Ss == [x \in 1..Len(M) |-> [i \in 1..Len(M[x].schema) |-> [M[x].schema[i] EXCEPT !.et = SetIds(@)]]]
As == [x \in 1..Len(M) |-> [a \in {y[1] : y \in Rng(M[x].annots)} |-> SetIds((CHOOSE y \in Rng(M[x].annots) : y[1] = a)[2])]]
Ps == [x \in 1..Len(M) |-> [i \in 1..Len(M[x].pool) |-> {JV(v) : v \in Rng(M[x].pool[i])}]]
Ms == [x \in 1..Len(M) |-> {JV(v) : v \in Rng(M[x].metas)}]
S == Ss[m]
A == As[m]
EmptyJ == <<"obj", EmptyF>>
EmptyA == <<"arr", <<>>>>
Wrong(c) == IF M[m].wrong THEN {<<"str", "x">>, IF S[c].k = "container" THEN EmptyA ELSE EmptyJ} ELSE {}

\* first values of a node of the schema (0: none)
Begin(c) == CASE c = 0 -> {<<"num", "1">>}
              [] S[c].k \in {"leaf", "anydata"} -> Ps[m][c]
              [] S[c].k = "container" -> {EmptyJ} \cup Wrong(c)
              [] OTHER -> {EmptyA} \cup Wrong(c)
\* member names that may be added to an object of node n
NamesIn(n) == UNION {{<<nm, JKid(S, n, nm)>> : nm \in Rng(M[m].names[c])} : c \in Rng(S[n].dk)}
              \cup {<<nm, JKid(S, n, nm)>> : nm \in Rng(M[m].foreign)}
RECURSIVE Grow(_, _)
\* all documents one step larger than x, a value of node n
Grow(n, x) ==
    IF n = 0 \/ S[n].k \in {"leaf", "anydata"} THEN {}
    ELSE IF x[1] = "obj" /\ S[n].k # "leaf-list"
    THEN UNION {{<<"obj", SetM(x[2], p[1], v)>> : v \in Begin(p[2])} : p \in {q \in NamesIn(n) : q[1] \notin DOMAIN x[2]}}
         \cup UNION {{<<"obj", [x[2] EXCEPT ![a] = v]>> : v \in Grow(JKid(S, n, a), x[2][a])} : a \in JMembers(x)}
         \cup {<<"obj", SetM(x[2], "@" \o a, v)>> : a \in {b \in {""} \cup JMembers(x) : "@" \o b \notin DOMAIN x[2]}, v \in Ms[m]}
    ELSE IF x[1] = "arr" /\ IsSeqNode(S, n)
    THEN {<<"arr", Append(x[2], v)>> : v \in IF S[n].k = "list" THEN {EmptyJ} ELSE Ps[m][n]}
         \cup (IF S[n].k = "list"
               THEN UNION {{<<"arr", [x[2] EXCEPT ![i] = v]>> : v \in Grow(n, x[2][i])} : i \in 1..Len(x[2])} ELSE {})
    ELSE {}
Init == m \in 1..Len(M) /\ k = 0 /\ j = EmptyJ
Next == k < M[m].size /\ k' = k + 1 /\ j' \in Grow(1, j) /\ UNCHANGED m

(************************** decoding **************************)
RECURSIVE Dec(_, _)
DecMeta(x) == IF x = <<"null">> THEN <<"?", "None">>
              ELSE <<"o", [a \in DOMAIN x[2] |-> ParseJson(A[a], x[2][a], [md |-> SubSeq(a, 1, Find(a, ":") - 1)]).v]>>
Dec(n, x) ==
    CASE S[n].k = "anydata" -> AnyVal(x)
      [] S[n].k \in {"leaf", "leaf-list"} /\ x[1] # "arr" -> ParseJson(S[n].et, x, [md |-> S[n].md]).v
      [] S[n].k = "leaf" -> ParseJson(S[n].et, x, [md |-> S[n].md]).v
      [] x[1] = "arr" -> <<"a", [i \in 1..Len(x[2]) |-> Dec(n, x[2][i])]>>
      [] OTHER -> <<"o", [a \in DOMAIN x[2] |-> IF At_(a, 1) # "@" THEN Dec(JKid(S, n, a), x[2][a])
                                               ELSE IF x[2][a][1] = "arr" THEN <<"a", [i \in 1..Len(x[2][a][2]) |-> DecMeta(x[2][a][2][i])]>>
                                               ELSE DecMeta(x[2][a])]>>
Errs(x) == JErrs(S, A, 1, x, <<"", "">>)
E_(v) == Enc(S, A, 1, v, <<>>, NoFilter)

(************************** XML **************************)
Env(c) == [p \in {"m1", "m2"} |-> p]
RECURSIVE XNode(_, _), XKids(_, _)
XKids(n, v) == SeqCat([i \in 1..Len(S[n].dk) |->
    LET c == S[n].dk[i] IN
    IF S[c].in \notin DOMAIN v[2] THEN <<>>
    ELSE IF IsSeqNode(S, c) THEN LET w == v[2][S[c].in][2] IN [e \in 1..Len(w) |-> XNode(c, w[e])]
    ELSE <<XNode(c, v[2][S[c].in])>>])
XNode(c, v) == [ns |-> S[c].md, nm |-> S[c].nm, env |-> Env(c), at |-> <<>>,
                tx |-> IF v[1] = "o" THEN "" ELSE Canon(S[c].et, v), ks |-> IF v[1] = "o" THEN XKids(c, v) ELSE <<>>]
XDoc(v) == [ns |-> "?", nm |-> "config", env |-> Env(1), at |-> <<>>, tx |-> "", ks |-> XKids(1, v)]
HasAny == \E i \in 1..Len(S) : S[i].k = "anydata"

(************************** laws **************************)
\* a document without errors has exactly one value, which is written as a
\* document of the same value
Decoding(v) == Agree(S, A, 1, j, v) = {}
WriteRead(v) == LET e == E_(v) IN Errs(e) = {} /\ E_(Dec(1, e)) = e
\* (metadata without content are not written)
RECURSIVE NoMeta(_)
NoMeta(v) == CASE v[1] = "o" -> <<"o", [x \in Proper(v) |-> NoMeta(v[2][x])]>>
               [] v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> NoMeta(v[2][i])]>>
               [] OTHER -> v
Inverse(v) == NoMeta(Dec(1, E_(v))) = NoMeta(v)
\* the other direction, through XML
Xml(v) == LET w == NoMeta(v) x == XDoc(w) IN
          /\ XErrs(S, 1, x) = {}
          /\ XAgree(S, 1, x, w, TRUE) = {}
          /\ ~XOpen(S, 1, x)
\* one refusal of a filter removes exactly that member or entry, and entries
\* that it empties
Places(v) == {x[2] : x \in Visits(S, 1, v, <<>>, NoFilter)}
RECURSIVE Cut(_, _)
Cut(v, p) ==
    IF Len(p) = 1
    THEN IF v[1] = "o" THEN <<"o", [x \in DOMAIN v[2] \ {p[1], "@" \o p[1]} |-> v[2][x]]>> ELSE <<"a", DelE(v[2], p[1])>>
    ELSE LET w == v[2][p[1]] IN
         IF v[1] = "a" /\ Len(p) = 2 /\ Proper(w) = {p[2]} THEN <<"a", DelE(v[2], p[1])>>
         ELSE <<v[1], [v[2] EXCEPT ![p[1]] = Cut(@, Tail(p))]>>
OneNo(p, hook) == [x \in {<<hook, p>>} |-> FALSE]
\* (metadata of entries of leaf-lists move with the entries)
RECURSIVE ArrMeta(_)
ArrMeta(v) == CASE v[1] = "o" -> \E x \in DOMAIN v[2] : IF At_(x, 1) = "@" THEN v[2][x][1] = "a" ELSE ArrMeta(v[2][x])
                [] v[1] = "a" -> \E i \in 1..Len(v[2]) : ArrMeta(v[2][i])
                [] OTHER -> FALSE
IntEnd(p) == LET v == NoMeta(Dec(1, j)) IN At(v, SubSeq(p, 1, Len(p) - 1))[1] = "a"
Single(v, p, h) == Enc(S, A, 1, v, <<>>, OneNo(p, h)) = E_(Cut(v, p))
\* answers "yes" change nothing; both hooks count the same for the result
Yes_(v) == Enc(S, A, 1, v, <<>>, [x \in {<<h, p>> : h \in {"bm", "em", "be", "ee"}, p \in Places(v)} |-> TRUE]) = E_(v)
Laws == LET es == Errs(j) IN es = {} =>
        LET v == Dec(1, j) IN
        /\ Decoding(v)
        /\ WriteRead(v)
        /\ Inverse(v)
        /\ Yes_(v)
        /\ (HasAny \/ Xml(v))
        /\ \A p \in Places(v) : ~ArrMeta(v) =>
             \A h \in (IF IntEnd(p) THEN {"be", "ee"} ELSE {"bm", "em"}) : Single(v, p, h)
\* what is wrong stays wrong (except that a target of metadata may appear)
Kinds(x) == {e[1] : e \in Definite(Errs(x))} \ {"MissingAnnotationTarget"}
Persist == [][Kinds(j) \subseteq Kinds(j')]_j

(************************ emission ************************)
RECURSIVE XOut(_)
XOut(x) == [ns |-> x.ns, nm |-> x.nm, tx |-> x.tx, ks |-> [i \in 1..Len(x.ks) |-> XOut(x.ks[i])]]
Emit == LET es == Errs(j) v == Dec(1, j) IN
        PrintT("@@ST " \o ToJson([m |-> m, j |-> j, es |-> es,
            v |-> IF es = {} THEN v ELSE <<>>,
            enc |-> IF es = {} THEN E_(v) ELSE <<>>,
            x |-> IF es = {} /\ ~HasAny THEN XOut(XDoc(NoMeta(v))) ELSE <<>>,
            \* is the value read back from XML (not if texts are ambiguous)?
            xr |-> es = {} /\ ~HasAny /\ XAgree(S, 1, XDoc(NoMeta(v)), NoMeta(v), FALSE) = {},
            no |-> IF es # {} THEN <<>> ELSE
                   {<<p, h, Enc(S, A, 1, v, <<>>, OneNo(p, h))>> :
                      <<p, h>> \in {y \in Places(v) \X {"bm", "em", "be", "ee"} : (y[2] \in {"be", "ee"}) = IntEnd(y[1])}}]))
=============================================================================
