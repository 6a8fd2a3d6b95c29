------------------------------ MODULE TypeDefs -----------------------------
(***************************************************************************)
(* YANG types as written: chains of typedefs with restrictions (RFC 7950,   *)
(* sections 7.3 and 9), their value spaces, and the lexical, JSON and XML   *)
(* forms of their values.                                                  *)
(*                                                                         *)
(* A written type is [b, fd, bases, u, ly]: base type, fraction digits,     *)
(* bases of an identityref, members of a union, and the layers of          *)
(* restrictions, each [rg, ln, pt, en, bt]: range and length arguments      *)
(* ("" = none), patterns <<regex, inverted>>, enums and bits               *)
(* <<name, number or "", enabled>>; layer 1 is on the built-in type.        *)
(*                                                                         *)
(* Elab gives [k |-> "ok", t |-> effective type], "bad" (must be refused)   *)
(* or "odd" (not decided here).  Effective types:                           *)
(*   [b, iv, fd, ln, pt, en, bt, ids, u]                                    *)
(* with iv and ln sequences of <<lo, hi>>, numbers being canonical decimal  *)
(* numerals (strings), scaled by 10^fd for decimal64.                       *)
(* Parsing gives [k |-> "no"], [k |-> "odd"] or [k |-> "yes", v |-> value],  *)
(* values as in Base, ["D", digits, e] standing for big decimals.           *)
(***************************************************************************)
EXTENDS Text, Identities

\* -- big numerals
BNeg(a) == Ch(a, 1) = "-"
BAbs(a) == IF BNeg(a) THEN From(a, 2) ELSE a
BNorm(s) == LET neg == Ch(s, 1) = "-"
                d == TrimL(IF Ch(s, 1) \in {"-", "+"} THEN From(s, 2) ELSE s, "0")
            IN IF neg /\ d # "0" THEN "-" \o d ELSE d
RECURSIVE DigCmp(_, _, _)
DigCmp(a, b, i) == IF i > Len(a) THEN 0
                   ELSE IF Ch(a, i) = Ch(b, i) THEN DigCmp(a, b, i + 1)
                   ELSE IF DigitVal(Ch(a, i)) < DigitVal(Ch(b, i)) THEN -1 ELSE 1
AbsCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE DigCmp(a, b, 1)
BCmp(a, b) == IF BNeg(a) # BNeg(b) THEN (IF BNeg(a) THEN -1 ELSE 1)
              ELSE IF BNeg(a) THEN AbsCmp(BAbs(b), BAbs(a)) ELSE AbsCmp(a, b)
BLe(a, b) == BCmp(a, b) <= 0
BLt(a, b) == BCmp(a, b) < 0
RECURSIVE IncAbs(_), DecAbs(_)
IncAbs(a) == IF a = "" THEN "1"
             ELSE LET k == Len(a) h == SubSeq(a, 1, k - 1) c == Ch(a, k) IN
                  IF c = "9" THEN IncAbs(h) \o "0" ELSE h \o Ch(Digits, DigitVal(c) + 2)
DecAbs(a) == LET k == Len(a) h == SubSeq(a, 1, k - 1) c == Ch(a, k) IN
             IF c = "0" THEN DecAbs(h) \o "9" ELSE h \o Ch(Digits, DigitVal(c))
BInc(a) == IF a = "-1" THEN "0" ELSE IF BNeg(a) THEN "-" \o TrimL(DecAbs(BAbs(a)), "0") ELSE IncAbs(a)
RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN "" ELSE "0" \o Zeros(n - 1)

IntBase == ("int8" :> <<"-128", "127">>) @@ ("int16" :> <<"-32768", "32767">>)
    @@ ("int32" :> <<"-2147483648", "2147483647">>)
    @@ ("int64" :> <<"-9223372036854775808", "9223372036854775807">>)
    @@ ("uint8" :> <<"0", "255">>) @@ ("uint16" :> <<"0", "65535">>)
    @@ ("uint32" :> <<"0", "4294967295">>) @@ ("uint64" :> <<"0", "18446744073709551615">>)
IsIntT(b) == b \in DOMAIN IntBase
MaxLen == "18446744073709551615"

Unsigned(s) == s # "" /\ AllDigits(s)
Sign(s) == s # "" /\ Ch(s, 1) \in {"-", "+"}
IsIntText(s) == Unsigned(IF Sign(s) THEN From(s, 2) ELSE s)
\* [0-9]+ or [0-9]+ "." [0-9]+ with an optional sign
IsDecText(s) == LET t == IF Sign(s) THEN From(s, 2) ELSE s k == Find(t, ".") IN
                IF k = 0 THEN Unsigned(t) ELSE Unsigned(SubSeq(t, 1, k - 1)) /\ Unsigned(From(t, k + 1))
\* <<digits without point, number of fraction digits>>, trailing zeros removed
DecParts(s) == LET k == Find(s, ".")
                   f == TrimR(IF k = 0 THEN "" ELSE From(s, k + 1), "0")
                   i == IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1)
               IN <<BNorm(i \o f), Len(f)>>
Scaled(p, fd) == BNorm(p[1] \o Zeros(fd - p[2]))

\* -- values
SmallInt(a) == Len(BAbs(a)) <= 9 \/ (Len(BAbs(a)) = 10 /\ AbsCmp(BAbs(a), "2147483647") <= 0)
IntOf(a) == IF BNeg(a) THEN -Nat10(BAbs(a)) ELSE Nat10(a)
IntVal(a) == IF SmallInt(a) THEN <<"i", IntOf(a)>> ELSE <<"I", a>>
BigOf(v) == IF v[1] = "i" THEN ToString(v[2]) ELSE v[2]
DecVal(p) == IF SmallInt(p[1]) THEN <<"d", IntOf(p[1]), p[2]>> ELSE <<"D", p[1], p[2]>>
DecBig(v) == IF v[1] = "d" THEN ToString(v[2]) ELSE v[2]
DecTextBig(a, e) == LET d == IF e = 0 THEN BAbs(a) \o ".0"
                             ELSE LET u == LPad(BAbs(a), e + 1, "0") IN
                                  SubSeq(u, 1, Len(u) - e) \o "." \o From(u, Len(u) - e + 1)
                    IN IF BNeg(a) THEN "-" \o d ELSE d
InIv(iv, a) == \E i \in 1..Len(iv) : BLe(iv[i][1], a) /\ BLe(a, iv[i][2])

\* -- restrictions
\* Bounds: [k, v]; strict grammar of integer-value and decimal-value, other
\* numerals ("+1", "01") are odd
StrictNat(s) == Unsigned(s) /\ (Len(s) = 1 \/ Ch(s, 1) # "0")
Bound(s, lo, hi, b, fd) ==
    IF s = "min" THEN [k |-> "ok", v |-> lo]
    ELSE IF s = "max" THEN [k |-> "ok", v |-> hi]
    ELSE IF b = "decimal64"
    THEN IF ~IsDecText(s) THEN [k |-> "bad"]
         ELSE LET p == DecParts(s) k == Find(s, ".")
                  i == IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1)
                  f == IF k = 0 THEN 0 ELSE Len(s) - k
              IN IF f > fd \/ ~StrictNat(IF Ch(s, 1) = "-" THEN From(i, 2) ELSE i) THEN [k |-> "odd"]
                 ELSE [k |-> "ok", v |-> Scaled(p, fd)]
    ELSE IF ~IsIntText(s) THEN [k |-> "bad"]
    ELSE IF ~StrictNat(IF Ch(s, 1) = "-" THEN From(s, 2) ELSE s) THEN [k |-> "odd"]
    ELSE [k |-> "ok", v |-> BNorm(s)]
PartOf(s, iv, b, fd) ==
    LET lo == iv[1][1] hi == iv[Len(iv)][2] k == Find(s, "..") IN
    IF k = 0 THEN LET x == Bound(Strip(s), lo, hi, b, fd) IN
                  IF x.k = "ok" THEN [k |-> "ok", v |-> <<x.v, x.v>>] ELSE x
    ELSE LET x == Bound(Strip(SubSeq(s, 1, k - 1)), lo, hi, b, fd)
             y == Bound(Strip(From(s, k + 2)), lo, hi, b, fd)
         IN IF x.k = "bad" \/ y.k = "bad" THEN [k |-> "bad"]
            ELSE IF x.k = "odd" \/ y.k = "odd" THEN [k |-> "odd"]
            ELSE [k |-> "ok", v |-> <<x.v, y.v>>]
RECURSIVE Covered(_, _, _, _)
\* is every value from lo to hi in iv?  ("?": only as neighbouring decimals)
Covered(iv, lo, hi, b) ==
    LET c == {i \in 1..Len(iv) : BLe(iv[i][1], lo) /\ BLe(lo, iv[i][2])} IN
    IF c = {} THEN "bad"
    ELSE LET x == iv[CHOOSE i \in c : TRUE] IN
         IF BLe(hi, x[2]) THEN "ok"
         ELSE LET r == Covered(iv, BInc(x[2]), hi, b) IN
              IF r = "ok" /\ b = "decimal64" THEN "odd" ELSE r
Restrict(iv, s, b, fd) ==
    LET ps == Split(s, "|")
        ms == [i \in 1..Len(ps) |-> PartOf(ps[i], iv, b, fd)]
    IN IF \E i \in 1..Len(ms) : ms[i].k = "bad" THEN [k |-> "bad"]
       ELSE IF \E i \in 1..Len(ms) : ms[i].k = "odd" THEN [k |-> "odd"]
       ELSE LET new == [i \in 1..Len(ms) |-> ms[i].v]
                cs == {Covered(iv, new[i][1], new[i][2], b) : i \in {j \in 1..Len(new) : BLe(new[j][1], new[j][2])}}
            IN IF (\E i \in 1..Len(new) : BLt(new[i][2], new[i][1]))
                  \/ (\E i \in 1..(Len(new) - 1) : BLe(new[i + 1][1], new[i][2]))
                  \/ "bad" \in cs THEN [k |-> "bad"]
               ELSE IF "odd" \in cs THEN [k |-> "odd"] ELSE [k |-> "ok", v |-> new]

\* automatic numbers: 0 or one more than the highest so far (disabled ones count)
RECURSIVE Number(_, _, _, _)
Number(es, i, high, acc) ==
    IF i > Len(es) THEN acc
    ELSE LET n == IF es[i][2] # "" THEN IntOf(BNorm(es[i][2])) ELSE IF high = <<>> THEN 0 ELSE high[1] + 1
             h == IF high = <<>> THEN <<n>> ELSE <<Max2(n, high[1])>>
         IN Number(es, i + 1, h, IF es[i][3] THEN Append(acc, <<es[i][1], n>>) ELSE acc)
Numbered(es) == Number(es, 1, <<>>, <<>>)
NamesOf(es) == {es[i][1] : i \in 1..Len(es)}
\* restriction of numbered names old to the subset es; off: names disabled below
Subset(old, off, es) ==
    IF ~(NamesOf(es) \subseteq NamesOf(old) \cup off) THEN [k |-> "bad"]
    ELSE IF ~(NamesOf(es) \subseteq NamesOf(old)) THEN [k |-> "odd"]
    ELSE IF \E i \in 1..Len(es) : es[i][2] # "" /\
              \E j \in 1..Len(old) : old[j][1] = es[i][1] /\ old[j][2] # IntOf(BNorm(es[i][2])) THEN [k |-> "bad"]
    ELSE [k |-> "ok", v |-> SelectSeq(old, LAMBDA x : \E i \in 1..Len(es) : es[i][1] = x[1] /\ es[i][3])]

T0(w, ID) == [b |-> w.b, fd |-> w.fd, pt |-> <<>>, en |-> <<>>, bt |-> <<>>, u |-> <<>>,
          ln |-> IF w.b \in {"string", "binary"} THEN <<<<"0", MaxLen>>>> ELSE <<>>,
          iv |-> IF IsIntT(w.b) THEN <<IntBase[w.b]>>
                 ELSE IF w.b = "decimal64" THEN <<IntBase["int64"]>> ELSE <<>>,
          ids |-> IF w.b = "identityref" THEN DerivedAll(ID, Rng(w.bases)) ELSE {}]
Off(ly, i, f(_)) == UNION {{f(ly[j])[k][1] : k \in {m \in 1..Len(f(ly[j])) : ~f(ly[j])[m][3]}} : j \in 1..(i - 1)}
RECURSIVE Elab(_, _), Layers(_, _, _)
Layers(t, ly, i) ==
    IF i > Len(ly) THEN [k |-> "ok", t |-> t]
    ELSE LET y == ly[i]
             rg == IF y.rg = "" THEN [k |-> "ok", v |-> t.iv] ELSE Restrict(t.iv, y.rg, t.b, t.fd)
             ln == IF y.ln = "" THEN [k |-> "ok", v |-> t.ln] ELSE Restrict(t.ln, y.ln, "uint64", 0)
             en == IF y.en = <<>> THEN [k |-> "ok", v |-> t.en]
                   ELSE IF i = 1 THEN [k |-> "ok", v |-> Numbered(y.en)] ELSE Subset(t.en, Off(ly, i, LAMBDA z : z.en), y.en)
             bt == IF y.bt = <<>> THEN [k |-> "ok", v |-> t.bt]
                   ELSE IF i = 1 THEN [k |-> "ok", v |-> Numbered(y.bt)] ELSE Subset(t.bt, Off(ly, i, LAMBDA z : z.bt), y.bt)
             ks == {rg.k, ln.k, en.k, bt.k}
         IN IF "bad" \in ks THEN [k |-> "bad"]
            ELSE IF "odd" \in ks THEN [k |-> "odd"]
            ELSE Layers([t EXCEPT !.iv = rg.v, !.ln = ln.v, !.en = en.v, !.bt = bt.v, !.pt = @ \o y.pt], ly, i + 1)
Elab(w, ID) ==
    IF w.b = "union"
    THEN LET ms == [i \in 1..Len(w.u) |-> Elab(w.u[i], ID)] IN
         IF \E i \in 1..Len(ms) : ms[i].k = "bad" THEN [k |-> "bad"]
         ELSE IF \E i \in 1..Len(ms) : ms[i].k = "odd" THEN [k |-> "odd"]
         ELSE [k |-> "ok", t |-> [T0(w, ID) EXCEPT !.u = [i \in 1..Len(ms) |-> ms[i].t]]]
    ELSE IF w.b = "decimal64" /\ w.fd \notin 1..18 THEN [k |-> "bad"]
    ELSE Layers(T0(w, ID), w.ly, 1)

\* -- value spaces
RECURSIVE Has(_, _)
Has(t, v) ==
    CASE IsIntT(t.b) -> v[1] \in {"i", "I"} /\ InIv(t.iv, BigOf(v))
      [] t.b = "decimal64" -> v[1] \in {"d", "D"} /\ v[3] <= t.fd /\ InIv(t.iv, Scaled(<<DecBig(v), v[3]>>, t.fd))
      [] t.b = "string" -> v[1] = "s" /\ InIv(t.ln, ToString(Len(v[2])))
                           /\ \A i \in 1..Len(t.pt) : Matches(t.pt[i][1], v[2]) # t.pt[i][2]
      [] t.b = "binary" -> v[1] = "x" /\ InIv(t.ln, ToString(Len(v[2]) \div 2))
      [] t.b = "boolean" -> v[1] = "b"
      [] t.b = "empty" -> v[1] = "e"
      [] t.b = "enumeration" -> v[1] = "s" /\ v[2] \in NamesOf(t.en)
      [] t.b = "bits" -> v[1] = "t" /\ Rng(v[2]) \subseteq NamesOf(t.bt)
      [] t.b = "identityref" -> v[1] = "t" /\ v[2] \in t.ids
      [] t.b = "instance-identifier" -> v[1] = "r"
      [] t.b = "union" -> \E i \in 1..Len(t.u) : Has(t.u[i], v)
      [] OTHER -> FALSE

\* bits in order of position
BitOrder(bt, X) == LET n == {i \in 1..Len(bt) : bt[i][1] \in X}
                       rank(i) == Cardinality({j \in n : bt[j][2] < bt[i][2]})
                   IN [k \in 1..Cardinality(n) |-> bt[CHOOSE i \in n : rank(i) = k - 1][1]]

\* -- lexical forms.  C = [md |-> module of unprefixed names]
Yes(v) == [k |-> "yes", v |-> v]
No == [k |-> "no"]
OddV == [k |-> "odd"]
OnlyIf(t, v) == IF Has(t, v) THEN Yes(v) ELSE No
B64Set == CharsOf(B64)
B64V(c) == Find(B64, c) - 1
\* base64 of whole quantums; "odd" if unused bits are set
B64Text(s) == LET d == TrimR(s, "=") p == Len(s) - Len(d) IN
    /\ Len(s) % 4 = 0 /\ p <= 2 /\ \A i \in 1..Len(d) : Ch(d, i) \in B64Set
    /\ (s # "" => Len(d) % 4 # 1)
HexOf(n) == Ch(HexDigits, n \div 16 + 1) \o Ch(HexDigits, (n % 16) + 1)
RECURSIVE UnB64(_, _)
UnB64(d, i) == LET n == Len(d) IN
    IF i >= n THEN ""
    ELSE LET a == B64V(Ch(d, i)) b == B64V(Ch(d, i + 1)) IN
         HexOf(a * 4 + b \div 16)
         \o (IF i + 2 > n THEN "" ELSE LET c == B64V(Ch(d, i + 2)) IN
             HexOf((b % 16) * 16 + c \div 4)
             \o (IF i + 3 > n THEN "" ELSE HexOf((c % 4) * 64 + B64V(Ch(d, i + 3))) \o UnB64(d, i + 4)))
ParseB64(s) == IF ~B64Text(s) THEN No
               ELSE LET h == UnB64(TrimR(s, "="), 1) IN IF Base64(h) = s THEN Yes(<<"x", h>>) ELSE OddV
WsToSp(s) == Concat([i \in 1..Len(s) |-> IF Ch(s, i) \in WsSet THEN " " ELSE Ch(s, i)])
IdText(s, C) == LET k == Find(s, ":") IN
    IF k = 0 THEN <<"t", <<s, C.md>>>> ELSE <<"t", <<From(s, k + 1), SubSeq(s, 1, k - 1)>>>>

RECURSIVE ParseText(_, _, _)
ParseText(t, s, C) ==
    CASE IsIntT(t.b) -> IF IsIntText(s) THEN OnlyIf(t, IntVal(BNorm(s))) ELSE No
      [] t.b = "decimal64" -> IF ~IsDecText(s) THEN No
                              ELSE LET p == DecParts(s) IN
                                   IF p[2] > t.fd THEN OddV ELSE OnlyIf(t, DecVal(p))
      [] t.b \in {"string", "enumeration"} -> OnlyIf(t, <<"s", s>>)
      [] t.b = "boolean" -> IF s \in {"true", "false"} THEN Yes(<<"b", s>>) ELSE No
      [] t.b = "empty" -> IF s = "" THEN Yes(<<"e">>) ELSE No
      [] t.b = "bits" -> LET ws == Words(WsToSp(s)) IN
                         IF ~(Rng(ws) \subseteq NamesOf(t.bt)) THEN No
                         ELSE IF Cardinality(Rng(ws)) < Len(ws) THEN OddV
                         ELSE Yes(<<"t", BitOrder(t.bt, Rng(ws))>>)
      [] t.b = "binary" -> LET r == ParseB64(s) IN IF r.k = "yes" THEN OnlyIf(t, r.v) ELSE r
      [] t.b = "identityref" -> OnlyIf(t, IdText(s, C))
      [] t.b = "union" -> LET rs == [i \in 1..Len(t.u) |-> ParseText(t.u[i], s, C)]
                              ks == {i \in 1..Len(rs) : rs[i].k # "no"}
                          IN IF ks = {} THEN No ELSE rs[CHOOSE i \in ks : \A j \in ks : i <= j]
      [] OTHER -> OddV
\* text of a default statement: integers may be octal or hexadecimal
OctSet == CharsOf("01234567")
HexSet == CharsOf("0123456789abcdefABCDEF")
HexV(c) == LET k == Find("0123456789abcdef", c) IN IF k > 0 THEN k - 1 ELSE Find("ABCDEF", c) + 9
RECURSIVE Radix(_, _)
Radix(s, r) == IF s = "" THEN 0 ELSE Radix(SubSeq(s, 1, Len(s) - 1), r) * r + HexV(Ch(s, Len(s)))
RECURSIVE ParseYang(_, _, _)
ParseYang(t, s, C) ==
    IF IsIntT(t.b)
    THEN LET neg == s # "" /\ Ch(s, 1) = "-" u == IF Sign(s) THEN From(s, 2) ELSE s
             sg(n) == IF neg THEN -n ELSE n
         IN IF StartsWith(u, "0x")
            THEN IF Len(u) > 2 /\ Len(u) <= 9 /\ \A i \in 3..Len(u) : Ch(u, i) \in HexSet
                 THEN OnlyIf(t, <<"i", sg(Radix(From(u, 3), 16))>>) ELSE IF Len(u) > 9 THEN OddV ELSE No
            ELSE IF Len(u) > 1 /\ Ch(u, 1) = "0"
            THEN IF Len(u) <= 9 /\ \A i \in 1..Len(u) : Ch(u, i) \in OctSet
                 THEN OnlyIf(t, <<"i", sg(Radix(u, 8))>>) ELSE IF Len(u) > 9 THEN OddV ELSE No
            ELSE ParseText(t, s, C)
    ELSE IF t.b = "union"
    THEN LET rs == [i \in 1..Len(t.u) |-> ParseYang(t.u[i], s, C)]
             ks == {i \in 1..Len(rs) : rs[i].k # "no"}
         IN IF ks = {} THEN No ELSE rs[CHOOSE i \in ks : \A j \in ks : i <= j]
    ELSE ParseText(t, s, C)
\* JSON scalars: <<"num", text>> <<"flt">> <<"str", s>> <<"bool", b>> <<"null">>
\* <<"arr", seq>> <<"obj">>
RECURSIVE ParseJson(_, _, _)
ParseJson(t, j, C) ==
    CASE t.b = "union" -> LET rs == [i \in 1..Len(t.u) |-> ParseJson(t.u[i], j, C)]
                              ks == {i \in 1..Len(rs) : rs[i].k # "no"}
                          IN IF ks = {} THEN No ELSE rs[CHOOSE i \in ks : \A k \in ks : i <= k]
      [] t.b \in {"int64", "uint64", "decimal64", "string", "enumeration", "bits", "binary", "identityref"} ->
             IF j[1] = "str" THEN ParseText(t, j[2], C) ELSE No
      [] IsIntT(t.b) -> IF j[1] = "num" THEN OnlyIf(t, IntVal(BNorm(j[2])))
                        ELSE IF j[1] = "flt" THEN OddV ELSE No
      [] t.b = "boolean" -> IF j[1] = "bool" THEN Yes(<<"b", j[2]>>) ELSE No
      [] t.b = "empty" -> IF j = <<"arr", <<<<"null">>>>>> THEN Yes(<<"e">>) ELSE No
      [] OTHER -> OddV
\* text content of XML elements; numbers may be surrounded by white space
RECURSIVE ParseXml(_, _, _)
ParseXml(t, s, C) ==
    IF t.b = "union" THEN LET rs == [i \in 1..Len(t.u) |-> ParseXml(t.u[i], s, C)]
                              ks == {i \in 1..Len(rs) : rs[i].k # "no"}
                          IN IF ks = {} THEN No ELSE rs[CHOOSE i \in ks : \A k \in ks : i <= k]
    ELSE IF IsIntT(t.b) \/ t.b = "decimal64" THEN ParseText(t, Strip(s), C)
    ELSE IF t.b \in {"boolean", "enumeration", "binary", "identityref", "empty"} /\ Strip(s) # s
    THEN LET r == ParseText(t, Strip(s), C) IN IF r.k = "no" THEN ParseText(t, s, C) ELSE OddV
    ELSE ParseText(t, s, C)

\* -- canonical text
RECURSIVE Canon(_, _)
Canon(t, v) ==
    CASE t.b = "union" -> LET ks == {i \in 1..Len(t.u) : Has(t.u[i], v)} IN
                          Canon(t.u[CHOOSE i \in ks : \A j \in ks : i <= j], v)
      [] v[1] = "i" -> ToString(v[2])
      [] v[1] = "I" -> v[2]
      [] v[1] \in {"d", "D"} -> DecTextBig(DecBig(v), v[3])
      [] v[1] = "s" -> v[2]
      [] v[1] = "b" -> v[2]
      [] v[1] = "e" -> ""
      [] v[1] = "x" -> Base64(v[2])
      [] v[1] = "r" -> v[2]
      [] t.b = "identityref" -> v[2][2] \o ":" \o v[2][1]
      [] OTHER -> Join(BitOrder(t.bt, Rng(v[2])), " ")
\* JSON encoding, as for ParseJson
RECURSIVE TyJson(_, _)
TyJson(t, v) ==
    CASE t.b = "union" -> LET ks == {i \in 1..Len(t.u) : Has(t.u[i], v)} IN
                          TyJson(t.u[CHOOSE i \in ks : \A j \in ks : i <= j], v)
      [] v[1] = "b" -> <<"bool", v[2]>>
      [] v[1] = "e" -> <<"arr", <<<<"null">>>>>>
      [] IsIntT(t.b) /\ t.b \notin {"int64", "uint64"} -> <<"num", Canon(t, v)>>
      [] OTHER -> <<"str", Canon(t, v)>>
=============================================================================
