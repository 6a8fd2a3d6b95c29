-------------------------------- MODULE Ids --------------------------------
(***************************************************************************)
(* Instance identifiers (RFC 7950, sections 9.13 and 14; names as in RFC    *)
(* 7951, 6.11), RESTCONF resource identifiers (RFC 8040, 3.5.3) and what     *)
(* they denote in a tree.                                                   *)
(*                                                                         *)
(* A route is a sequence of steps:                                         *)
(*   <<"m", module or "", name>>          member                            *)
(*   <<"k", <<<<module, name, text>>...>>>>  entry with these leaf values    *)
(*   <<"v", text>>  leaf-list entry        <<"p", digits>>  position        *)
(* Parsers give [k |-> "ok", st |-> steps], "bad" or "odd".                 *)
(* Schema nodes carry et, their effective type for TypeDefs (leafs only).   *)
(***************************************************************************)
EXTENDS Schema, TypeDefs

Letters == CharsOf("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")
IdStart == Letters \cup {"_"}
IdChars == IdStart \cup DigitSet \cup {"-", "."}
\* end (exclusive) of the run of characters in X from i
RECURSIVE Run(_, _, _)
Run(s, i, X) == IF i <= Len(s) /\ Ch(s, i) \in X THEN Run(s, i + 1, X) ELSE i
Bad == [k |-> "bad"]
Odd == [k |-> "odd"]
At_(s, i) == IF i <= Len(s) THEN Ch(s, i) ELSE ""
IdEnd(s, i) == IF At_(s, i) \in IdStart THEN Run(s, i, IdChars) ELSE 0
\* [k, md, nm, j]
PName(s, i) == LET a == IdEnd(s, i) IN
    IF a = 0 THEN Bad
    ELSE IF At_(s, a) # ":" THEN [k |-> "ok", md |-> "", nm |-> SubSeq(s, i, a - 1), j |-> a]
    ELSE LET b == IdEnd(s, a + 1) IN
         IF b = 0 THEN Bad ELSE [k |-> "ok", md |-> SubSeq(s, i, a - 1), nm |-> SubSeq(s, a + 1, b - 1), j |-> b]
SpTab == {" ", "\t"}
\* = 'text' ]  from i: [k, x, j]; newlines as white space are odd
Quoted(s, i) ==
    LET a == Run(s, i, WsSet) b == Run(s, a + 1, WsSet) q == At_(s, b)
        c == IF q \in {"'", "\""} THEN FindFrom(s, q, b + 1) ELSE 0
        d == IF c = 0 THEN 0 ELSE Run(s, c + 1, WsSet)
    IN IF At_(s, a) # "=" \/ c = 0 \/ At_(s, d) # "]" THEN Bad
       ELSE IF \E m \in (i..(b - 1)) \cup ((c + 1)..(d - 1)) : Ch(s, m) \in {"\n", "\r"} THEN Odd
       ELSE [k |-> "ok", x |-> SubSeq(s, b + 1, c - 1), j |-> d + 1]
RECURSIVE KeyPreds(_, _, _), IidFrom(_, _, _)
\* i: behind "["
KeyPreds(s, i, acc) ==
    LET a == Run(s, i, WsSet) n == PName(s, a)
        v == IF n.k = "ok" THEN Quoted(s, n.j) ELSE Bad
    IN IF v.k = "bad" THEN Bad
       ELSE IF v.k = "odd" \/ \E m \in i..(a - 1) : Ch(s, m) \in {"\n", "\r"} THEN Odd
       ELSE LET acc2 == Append(acc, <<n.md, n.nm, v.x>>) IN
            IF At_(s, v.j) = "[" THEN KeyPreds(s, v.j + 1, acc2) ELSE [k |-> "ok", st |-> acc2, j |-> v.j]
IidFrom(s, i, acc) ==
    IF i > Len(s) THEN [k |-> "ok", st |-> acc]
    ELSE IF Ch(s, i) # "/" THEN Bad
    ELSE LET n == PName(s, i + 1) IN
         IF n.k = "bad" THEN Bad
         ELSE LET acc2 == Append(acc, <<"m", n.md, n.nm>>)
                  a == Run(s, n.j + 1, WsSet) c == At_(s, a)
                  wide == \E m \in (n.j + 1)..(a - 1) : Ch(s, m) \in {"\n", "\r"}
              IN IF At_(s, n.j) # "[" THEN IidFrom(s, n.j, acc2)
                 ELSE IF wide THEN Odd
                 ELSE IF c \in DigitSet
                 THEN LET b == Run(s, a, DigitSet) d == Run(s, b, WsSet) t == SubSeq(s, a, b - 1) IN
                      IF At_(s, d) # "]" THEN Bad
                      ELSE IF t # "0" /\ (c = "0" \/ \E m \in b..(d - 1) : Ch(s, m) \in {"\n", "\r"}) THEN Odd
                      ELSE IF t = "0" THEN Bad
                      ELSE IidFrom(s, d + 1, Append(acc2, <<"p", t>>))
                 ELSE IF c = "."
                 THEN LET v == Quoted(s, a + 1) IN
                      IF v.k # "ok" THEN v ELSE IidFrom(s, v.j, Append(acc2, <<"v", v.x>>))
                 ELSE LET v == KeyPreds(s, n.j + 1, <<>>) IN
                      IF v.k # "ok" THEN v ELSE IidFrom(s, v.j, Append(acc2, <<"k", v.st>>))
\* "/" alone is the library's notation of the root
InstanceId(s) == IF s = "/" THEN [k |-> "ok", st |-> <<>>] ELSE IF s = "" THEN Bad ELSE IidFrom(s, 1, <<>>)

\* -- resource identifiers; percent-encoded ASCII and the UTF-8 pairs of
\* Latin-1 are decoded, anything else is odd
HexPair(s, i) == /\ At_(s, i) \in HexSet /\ At_(s, i + 1) \in HexSet
HexOfTwo(s, i) == 16 * HexV(Ch(s, i)) + HexV(Ch(s, i + 1))
RECURSIVE Unquote(_, _, _)
Unquote(s, i, L1) ==
    IF i > Len(s) THEN [k |-> "ok", x |-> ""]
    ELSE LET r(n, c) == LET t == Unquote(s, n, L1) IN IF t.k = "ok" THEN [k |-> "ok", x |-> c \o t.x] ELSE t IN
         IF Ch(s, i) # "%" THEN r(i + 1, Ch(s, i))
         ELSE IF ~HexPair(s, i + 1) THEN Odd
         ELSE LET a == HexOfTwo(s, i + 1) IN
              IF a >= 32 /\ a < 127 THEN r(i + 3, Ch(Ascii, a - 31))
              ELSE IF a \in {194, 195} /\ At_(s, i + 3) = "%" /\ HexPair(s, i + 4)
              THEN LET b == HexOfTwo(s, i + 4) IN
                   IF b < 160 \/ b > 191 \/ (a = 194) THEN Odd
                   ELSE r(i + 6, Ch(L1, b - 127))
              ELSE Odd
\* child with a possibly qualified name: unqualified names belong to the module
\* of the parent
Child(S, n, md, nm) == LET ks == {i \in Rng(S[n].dk) : S[i].nm = nm /\ S[i].md = (IF md = "" THEN S[n].md ELSE md)}
                       IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : TRUE
RECURSIVE RidFrom(_, _, _, _, _)
RidFrom(S, n, s, acc, L1) ==
    LET p == PName(s, 1) IN
    IF p.k = "bad" THEN Bad
    ELSE IF ~IsInternal(S, n) THEN [k |-> "unknown"]
    ELSE LET c == Child(S, n, p.md, p.nm) IN
    IF c = 0 THEN [k |-> "unknown"]
    ELSE LET acc2 == Append(acc, <<"m", p.md, p.nm>>)
             x == At_(s, p.j)
             e == LET m == FindFrom(s, "/", p.j) IN IF m = 0 THEN Len(s) + 1 ELSE m
             t == SubSeq(s, p.j + 1, e - 1)
             ks == Split(t, ",")
             us == [i \in 1..Len(ks) |-> Unquote(ks[i], 1, L1)]
         IN IF x = "" THEN [k |-> "ok", st |-> acc2]
            ELSE IF S[c].k = "list"
            THEN IF x # "=" \/ S[c].ky = <<>> \/ Len(ks) # Len(S[c].ky) THEN Bad
                 ELSE IF \E i \in 1..Len(us) : us[i].k = "odd" THEN Odd
                 ELSE LET acc3 == Append(acc2, <<"k", [i \in 1..Len(us) |->
                                   <<S[S[c].ky[i]].md, S[S[c].ky[i]].nm, us[i].x>>]>>) IN
                      IF e > Len(s) THEN [k |-> "ok", st |-> acc3]
                      ELSE IF e = Len(s) THEN Odd
                      ELSE RidFrom(S, c, From(s, e + 1), acc3, L1)
            ELSE IF S[c].k = "leaf-list"
            THEN IF x # "=" \/ e < Len(s) THEN (IF x = "=" THEN [k |-> "unknown"] ELSE Bad)
                 ELSE IF e = Len(s) THEN Odd
                 ELSE IF Find(t, ",") > 0 THEN Odd
                 ELSE LET u == Unquote(t, 1, L1) IN
                      IF u.k = "odd" THEN Odd ELSE [k |-> "ok", st |-> Append(acc2, <<"v", u.x>>)]
            ELSE IF x # "/" THEN Bad
            ELSE IF p.j = Len(s) THEN Bad
            ELSE RidFrom(S, c, From(s, p.j + 1), acc2, L1)
ResourceId(S, s, L1) == LET t == IF At_(s, 1) = "/" THEN From(s, 2) ELSE s IN
                        IF t = "" THEN [k |-> "ok", st |-> <<>>] ELSE RidFrom(S, 1, t, <<>>, L1)

\* -- denotation: [k |-> "ok", p |-> position] or the kind of failure
Least(X) == CHOOSE i \in X : \A j \in X : i <= j
LeafText(S, c, t) == ParseText(S[c].et, t, [md |-> S[c].md])
RECURSIVE Walk(_, _, _, _, _)
Walk(S, n, v, st, p) ==
    IF st = <<>> THEN [k |-> "ok", p |-> p]
    ELSE LET x == Head(st) IN
    CASE x[1] = "m" ->
            IF ~IsInternal(S, n) \/ v[1] # "o" THEN [k |-> "shape"]
            ELSE LET c == Child(S, n, x[2], x[3]) IN
                 IF c = 0 THEN [k |-> "unknown"]
                 ELSE IF S[c].in \notin DOMAIN v[2] THEN [k |-> "none"]
                 ELSE Walk(S, c, v[2][S[c].in], Tail(st), Append(p, S[c].in))
      [] x[1] = "p" ->
            IF v[1] # "a" \/ ~IsSeqNode(S, n) THEN [k |-> "shape"]
            ELSE IF Len(x[2]) > 8 \/ Nat10(x[2]) > Len(v[2]) THEN [k |-> "none"]
            ELSE Walk(S, n, v[2][Nat10(x[2])], Tail(st), Append(p, Nat10(x[2])))
      [] x[1] = "v" ->
            IF S[n].k # "leaf-list" \/ v[1] # "a" THEN [k |-> "shape"]
            ELSE LET r == LeafText(S, n, x[2])
                     is == IF r.k = "yes" THEN {i \in 1..Len(v[2]) : v[2][i] = r.v} ELSE {}
                 IN IF r.k = "odd" THEN [k |-> "odd"]
                    ELSE IF r.k = "no" THEN [k |-> "badkey"]
                    ELSE IF is = {} THEN [k |-> "none"]
                    ELSE Walk(S, n, v[2][Least(is)], Tail(st), Append(p, Least(is)))
      [] x[1] = "k" ->
            IF S[n].k # "list" \/ v[1] # "a" THEN [k |-> "shape"]
            ELSE LET m == Len(x[2])
                     cs == [i \in 1..m |-> Child(S, n, x[2][i][1], x[2][i][2])]
                     rs == [i \in 1..m |-> IF cs[i] # 0 /\ S[cs[i]].k = "leaf" THEN LeafText(S, cs[i], x[2][i][3]) ELSE [k |-> "odd"]]
                     is == {i \in 1..Len(v[2]) : \A j \in 1..m :
                              rs[j].k = "yes" /\ S[cs[j]].in \in DOMAIN v[2][i][2] /\ v[2][i][2][S[cs[j]].in] = rs[j].v}
                 IN IF \E i \in 1..m : cs[i] = 0 THEN [k |-> "unknown"]
                    ELSE IF \E i \in 1..m : S[cs[i]].k # "leaf" THEN [k |-> "shape"]
                    ELSE IF Cardinality(Rng(cs)) < m \/ \E i \in 1..m : rs[i].k = "odd" THEN [k |-> "odd"]
                    ELSE IF \E i \in 1..m : rs[i].k = "no" THEN [k |-> "badkey"]
                    ELSE IF is = {} THEN [k |-> "none"]
                    ELSE Walk(S, n, v[2][Least(is)], Tail(st), Append(p, Least(is)))
=============================================================================
