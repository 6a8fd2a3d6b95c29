------------------------------- MODULE XPath ------------------------------
(***************************************************************************)
(* XPath 1.0 with the YANG additions, over instance trees.                 *)
(*                                                                         *)
(* A document D is [S |-> schema, T |-> tree, ID |-> identities, RT |->     *)
(* instance routes].  T contains the default values in use (RFC 7950       *)
(* section 6.4.1); see Defaults.tla.  The nodes are the positions of T      *)
(* except those of arrays: list and leaf-list entries are nodes, their      *)
(* parent is the object that contains the array.                           *)
(*                                                                         *)
(* Values: <<"ns", set of positions>>, <<"b", bool>>, <<"s", string>>,      *)
(* <<"n", num, den>> with NaN = (0,0), infinities (1,0) and (-1,0) and      *)
(* negative zero (0,-1), and <<"u">>: not determined by the standards (for  *)
(* instance the order of sibling nodes of different names) or beyond what   *)
(* this specification computes (inexact floating point arithmetic).         *)
(*                                                                         *)
(* Expressions are tagged tuples:                                          *)
(*  num n d | str s | bin op l r | neg e | union l r | path abs steps |     *)
(*  filt e preds steps | fn name args | id name module | re regex           *)
(* A step is <<axis, test, name, module, predicates>>.                      *)
(***************************************************************************)
EXTENDS Schema, Types

U == <<"u">>
NS(x) == <<"ns", x>>
B(x) == <<"b", x>>
Str(x) == <<"s", x>>
NaN == <<"n", 0, 0>>
PInf == <<"n", 1, 0>>
NInf == <<"n", -1, 0>>
NegZero == <<"n", 0, -1>>
Undef(v) == v[1] = "u"

\* -- numbers
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Rat(a, b) == LET g == Gcd(Abs(a), b) IN IF g = 0 THEN <<"n", 0, 1>> ELSE <<"n", a \div g, b \div g>>
IntN(n) == <<"n", n, 1>>
Fin(x) == x[3] # 0
IsNaN(x) == x[2] = 0 /\ x[3] = 0
IsZero(x) == x[2] = 0 /\ x[3] # 0
Num0(x) == x[2]
Den(x) == Abs(x[3])
Dyadic == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
Lim == 30000
Small(x) == Abs(x[2]) <= Lim /\ Den(x) \in Dyadic
Negative(x) == x[2] < 0 \/ x[3] < 0
Sgn(a) == IF a < 0 THEN -1 ELSE 1
NegOf(x) == IF Undef(x) \/ IsNaN(x) THEN x
            ELSE IF IsZero(x) THEN <<"n", 0, -x[3]>> ELSE <<"n", -x[2], x[3]>>
Floor(x) == x[2] \div Den(x)

\* exact results or U
AddN(x, y) == IF Undef(x) \/ Undef(y) THEN U
    ELSE IF IsNaN(x) \/ IsNaN(y) THEN NaN
    ELSE IF ~Fin(x) THEN IF ~Fin(y) /\ x # y THEN NaN ELSE x
    ELSE IF ~Fin(y) THEN y
    ELSE IF x = NegZero /\ y = NegZero THEN NegZero
    ELSE IF ~Small(x) \/ ~Small(y) THEN U
    ELSE Rat(x[2] * Den(y) + y[2] * Den(x), Den(x) * Den(y))
MulN(x, y) == IF Undef(x) \/ Undef(y) THEN U
    ELSE IF IsNaN(x) \/ IsNaN(y) THEN NaN
    ELSE LET neg == Negative(x) # Negative(y) IN
         IF ~Fin(x) \/ ~Fin(y)
         THEN IF IsZero(x) \/ IsZero(y) THEN NaN ELSE IF neg THEN NInf ELSE PInf
         ELSE IF IsZero(x) \/ IsZero(y) THEN IF neg THEN NegZero ELSE IntN(0)
         ELSE IF ~Small(x) \/ ~Small(y) THEN U
         ELSE Rat(x[2] * y[2], Den(x) * Den(y))
DivN(x, y) == IF Undef(x) \/ Undef(y) THEN U
    ELSE IF IsNaN(x) \/ IsNaN(y) THEN NaN
    ELSE LET neg == Negative(x) # Negative(y) IN
         IF ~Fin(x) THEN IF ~Fin(y) THEN NaN ELSE IF neg THEN NInf ELSE PInf
         ELSE IF ~Fin(y) THEN IF neg THEN NegZero ELSE IntN(0)
         ELSE IF IsZero(y) THEN IF IsZero(x) THEN NaN ELSE IF neg THEN NInf ELSE PInf
         ELSE IF IsZero(x) THEN IF neg THEN NegZero ELSE IntN(0)
         ELSE IF ~Small(x) \/ ~Small(y) THEN U
         ELSE LET r == Rat(Sgn(y[2]) * x[2] * Den(y), Den(x) * Abs(y[2])) IN
              IF r[3] \in Dyadic THEN r ELSE U
\* remainder with the sign of the dividend
ModN(x, y) == IF Undef(x) \/ Undef(y) THEN U
    ELSE IF IsNaN(x) \/ IsNaN(y) \/ ~Fin(x) \/ IsZero(y) THEN NaN
    ELSE IF ~Fin(y) \/ IsZero(x) THEN x
    ELSE IF ~Small(x) \/ ~Small(y) THEN U
    ELSE LET a == Abs(x[2]) * Den(y) b == Abs(y[2]) * Den(x) r == a % b IN
         IF r = 0 THEN IF Negative(x) THEN NegZero ELSE IntN(0)
         ELSE Rat(Sgn(x[2]) * r, Den(x) * Den(y))

\* -1, 0, 1 or 2 (not determined)
CmpN(x, y) ==
    IF ~Fin(x) \/ ~Fin(y)
    THEN LET a == IF Fin(x) THEN 0 ELSE x[2] b == IF Fin(y) THEN 0 ELSE y[2] IN
         IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
    ELSE IF IsZero(x) /\ IsZero(y) THEN 0
    ELSE IF Den(x) = Den(y) THEN IF x[2] < y[2] THEN -1 ELSE IF x[2] > y[2] THEN 1 ELSE 0
    ELSE IF Floor(x) # Floor(y) THEN IF Floor(x) < Floor(y) THEN -1 ELSE 1
    ELSE IF Abs(x[2]) > 40000 \/ Abs(y[2]) > 40000 \/ Den(x) > 40000 \/ Den(y) > 40000 THEN 2
    ELSE LET a == x[2] * Den(y) b == y[2] * Den(x) IN
         IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0

\* -- conversions (sections 3.4, 4.2 - 4.4)
\* "-"? (Digits ("." Digits?)? | "." Digits), surrounded by white space
NumText(s0) ==
    LET s == Strip(s0)
        neg == s # "" /\ Ch(s, 1) = "-"
        t == IF neg THEN From(s, 2) ELSE s
        k == Find(t, ".")
        ip == IF k = 0 THEN t ELSE SubSeq(t, 1, k - 1)
        fp == TrimR(IF k = 0 THEN "" ELSE From(t, k + 1), "0")
    IN IF ~(AllDigits(ip) /\ AllDigits(fp) /\ (ip # "" \/ (k # 0 /\ Len(t) > k))) THEN NaN
       ELSE LET ip2 == TrimL(ip, "0") IN
            IF Len(ip2) + Len(fp) > 10 THEN U
            ELSE IF Len(ip2) + Len(fp) = 10 /\ ~(fp = "" /\ ip2 \in {"2147483647"}) THEN U
            ELSE LET n == IF Len(ip2) = 10 THEN 2147483647 ELSE Nat10(ip2 \o fp)
                     r == Rat(IF neg THEN -n ELSE n, Pow(10, Len(fp)))
                 IN IF neg /\ n = 0 THEN NegZero ELSE r

\* decimal expansion (denominators 2^i 5^j)
RECURSIVE Frac(_, _)
Frac(r, d) == IF r = 0 THEN "" ELSE ToString((r * 10) \div d) \o Frac((r * 10) % d, d)
RECURSIVE Pure(_)
Pure(d) == IF d = 1 THEN TRUE ELSE IF d % 2 = 0 THEN Pure(d \div 2)
           ELSE IF d % 5 = 0 THEN Pure(d \div 5) ELSE FALSE
NumStr(x) == IF IsNaN(x) THEN Str("NaN")
    ELSE IF ~Fin(x) THEN Str(IF x[2] > 0 THEN "Infinity" ELSE "-Infinity")
    ELSE IF IsZero(x) THEN Str("0")
    ELSE IF Den(x) > 10000 \/ ~Pure(Den(x)) THEN U
    ELSE LET a == Abs(x[2]) d == Den(x) IN
         Str((IF x[2] < 0 THEN "-" ELSE "") \o ToString(a \div d)
             \o (IF d = 1 THEN "" ELSE "." \o Frac(a % d, d)))

\* -- document
EntryPos(D, p) == Len(p) > 0 /\ At(D.T, Parent(p))[1] = "a"
Up1(D, p) == IF EntryPos(D, p) THEN Parent(Parent(p)) ELSE Parent(p)
SnAt(D, p) == Snode(D.S, D.T, p)
ValAt(D, p) == At(D.T, p)
IsInt(D, p) == LET k == D.S[SnAt(D, p)].k IN k \in {"root", "container", "list", "anydata"}
NodesAt(D, p) == IF At(D.T, p)[1] = "a" /\ D.S[SnAt(D, p)].k # "anydata"
                 THEN {Append(p, i) : i \in 1..Len(At(D.T, p)[2])} ELSE {p}
KidsOf(D, p) == LET v == ValAt(D, p) IN
    IF ~IsInternal(D.S, SnAt(D, p)) \/ v[1] # "o" THEN {}
    ELSE UNION {NodesAt(D, Append(p, m)) : m \in {x \in DOMAIN v[2] : Kid(D.S, SnAt(D, p), x) # 0}}
RECURSIVE DescOf(_, _), AncOf(_, _)
DescOf(D, p) == LET k == KidsOf(D, p) IN k \cup UNION {DescOf(D, q) : q \in k}
AncOf(D, p) == IF p = <<>> THEN {} ELSE LET q == Up1(D, p) IN {q} \cup AncOf(D, q)

\* document order, as far as it is determined: -1, 0, 1 or 2 (not determined)
RECURSIVE DocCmp(_, _, _)
DocCmp(D, p, q) ==
    LET F[i \in 1..(Min2(Len(p), Len(q)) + 1)] ==
        IF i > Len(p) THEN IF i > Len(q) THEN 0 ELSE -1
        ELSE IF i > Len(q) THEN 1
        ELSE IF p[i] = q[i] THEN F[i + 1]
        ELSE IF At(D.T, SubSeq(p, 1, i - 1))[1] = "a" THEN IF p[i] < q[i] THEN -1 ELSE 1
        ELSE 2
    IN F[1]
\* first node in document order (a singleton), or {} if not determined
FirstOf(D, X) == {p \in X : \A q \in X : DocCmp(D, p, q) \in {-1, 0}}

\* string value of a node
NodeStr(D, p) == IF IsInt(D, p) THEN U
                 ELSE LET v == ValAt(D, p) ty == D.S[SnAt(D, p)].ty IN
                      IF v[1] = "dummy" THEN U ELSE Str(TypeText(ty, v))

StrOf(D, v) == CASE v[1] = "u" -> U
    [] v[1] = "s" -> v
    [] v[1] = "b" -> Str(IF v[2] THEN "true" ELSE "false")
    [] v[1] = "n" -> NumStr(v)
    [] v[1] = "ns" -> IF v[2] = {} THEN Str("")
                      ELSE LET f == FirstOf(D, v[2]) IN
                           IF f = {} THEN U ELSE NodeStr(D, CHOOSE p \in f : TRUE)
NumOf(D, v) == CASE v[1] = "u" -> U
    [] v[1] = "n" -> v
    [] v[1] = "b" -> IntN(IF v[2] THEN 1 ELSE 0)
    [] v[1] = "s" -> NumText(v[2])
    [] v[1] = "ns" -> LET s == StrOf(D, v) IN IF Undef(s) THEN U ELSE NumText(s[2])
BoolOf(v) == CASE v[1] = "u" -> U
    [] v[1] = "b" -> v
    [] v[1] = "n" -> B(~IsZero(v) /\ ~IsNaN(v))
    [] v[1] = "s" -> B(v[2] # "")
    [] v[1] = "ns" -> B(v[2] # {})
True3(v) == v[1] = "b" /\ v[2]
False3(v) == v[1] = "b" /\ ~v[2]

\* -- comparisons (section 3.4)
CmpPrim(D, op, l, r) ==      \* neither is a node-set
    IF Undef(l) \/ Undef(r) THEN U
    ELSE IF op \in {"=", "!="} /\ (l[1] = "b" \/ r[1] = "b")
    THEN LET e == BoolOf(l)[2] = BoolOf(r)[2] IN B(IF op = "=" THEN e ELSE ~e)
    ELSE IF op \in {"=", "!="} /\ l[1] = "s" /\ r[1] = "s"
    THEN B(IF op = "=" THEN l[2] = r[2] ELSE l[2] # r[2])
    ELSE LET a == NumOf(D, l) b == NumOf(D, r) IN
         IF Undef(a) \/ Undef(b) THEN U
         ELSE IF IsNaN(a) \/ IsNaN(b) THEN B(op = "!=")
         ELSE LET c == CmpN(a, b) IN
              IF c = 2 THEN U
              ELSE B(CASE op = "=" -> c = 0 [] op = "!=" -> c # 0 [] op = "<" -> c < 0
                       [] op = "<=" -> c <= 0 [] op = ">" -> c > 0 [] op = ">=" -> c >= 0)
Operands(D, v) == IF v[1] = "ns" THEN {NodeStr(D, p) : p \in v[2]} ELSE {v}
Compare(D, op, l, r) ==
    IF Undef(l) \/ Undef(r) THEN U
    ELSE IF l[1] # "ns" /\ r[1] # "ns" THEN CmpPrim(D, op, l, r)
    ELSE IF l[1] = "b" \/ r[1] = "b" THEN CmpPrim(D, op, BoolOf(l), BoolOf(r))
    ELSE LET rs == {CmpPrim(D, op, x, y) : x \in Operands(D, l), y \in Operands(D, r)} IN
         IF B(TRUE) \in rs THEN B(TRUE) ELSE IF U \in rs THEN U ELSE B(FALSE)

\* -- steps
RevAxes == {"ancestor", "ancestor-or-self", "parent", "preceding-sibling"}
TestOk(D, st, p) == CASE st[2] = "node" -> TRUE
    [] st[2] = "*" -> p # <<>>
    [] OTHER -> p # <<>> /\ LET n == D.S[SnAt(D, p)] IN n.nm = st[3] /\ n.md = st[4]
\* nodes on the axis that pass the test; {"u"} if not determined
Siblings(D, p) == IF p = <<>> THEN {} ELSE KidsOf(D, Up1(D, p)) \ {p}
AxisNodes(D, st, p) ==
    LET a == CASE st[1] = "child" -> KidsOf(D, p)
              [] st[1] = "parent" -> IF p = <<>> THEN {} ELSE {Up1(D, p)}
              [] st[1] = "self" -> {p}
              [] st[1] = "descendant" -> DescOf(D, p)
              [] st[1] = "descendant-or-self" -> {p} \cup DescOf(D, p)
              [] st[1] = "ancestor" -> AncOf(D, p)
              [] st[1] = "ancestor-or-self" -> {p} \cup AncOf(D, p)
              [] OTHER -> Siblings(D, p)
        t == {q \in a : TestOk(D, st, q)}
    IN IF st[1] = "following-sibling" THEN {q \in t : DocCmp(D, p, q) = -1}
       ELSE IF st[1] = "preceding-sibling" THEN {q \in t : DocCmp(D, q, p) = -1}
       ELSE t
\* cases left open: the name test * at the root node (it is no element, but
\* an object), order of siblings with different names
AxisOpen(D, st, p) ==
    \/ /\ st[2] = "*"
       /\ \/ st[1] \in {"self", "descendant-or-self"} /\ p = <<>>
          \/ st[1] = "ancestor-or-self"
          \/ st[1] = "parent" /\ p # <<>> /\ Up1(D, p) = <<>>
    \/ st[1] \in {"following-sibling", "preceding-sibling"} /\
       \E q \in Siblings(D, p) : TestOk(D, st, q) /\ DocCmp(D, p, q) = 2
\* proximity position of p among X
PosIn(D, X, p, rev) == IF \E q, r \in X : DocCmp(D, q, r) = 2 THEN U
    ELSE IntN(1 + Cardinality({q \in X : DocCmp(D, q, p) = (IF rev THEN 1 ELSE -1)}))

\* derived-from
RECURSIVE DerivedIds(_, _)
DerivedIds(ID, b) == LET d == {i \in 1..Len(ID) : b \in Rng(ID[i][3])} IN
    {<<ID[i][1], ID[i][2]>> : i \in d} \cup UNION {DerivedIds(ID, <<ID[i][1], ID[i][2]>>) : i \in d}

RECURSIVE SubstIdx(_, _), TransStr(_, _, _, _)
TransStr(s, from, to, i) == IF i > Len(s) THEN "" ELSE
    LET k == Find(from, Ch(s, i)) IN
    (IF k = 0 THEN Ch(s, i) ELSE IF k <= Len(to) THEN Ch(to, k) ELSE "") \o TransStr(s, from, to, i + 1)
SubstIdx(s, I) == Concat([i \in 1..Len(s) |-> IF i \in I THEN Ch(s, i) ELSE ""])
RECURSIVE NormWs(_)
SpWs(s) == Concat([i \in 1..Len(s) |-> IF Ch(s, i) \in WsSet THEN " " ELSE Ch(s, i)])
NormWs(s) == Join(Words(SpWs(s)), " ")

RoundN(x) == IF Undef(x) \/ ~Fin(x) \/ IsZero(x) THEN x
    ELSE IF x[3] = 1 THEN x
    ELSE IF Abs(x[2]) > 1000000000 THEN U
    ELSE LET n == (2 * x[2] + x[3]) \div (2 * x[3]) IN
         IF n = 0 /\ x[2] < 0 THEN NegZero ELSE IntN(n)
FloorN(x) == IF Undef(x) \/ ~Fin(x) \/ IsZero(x) THEN x ELSE IntN(Floor(x))
CeilN(x) == IF Undef(x) \/ ~Fin(x) \/ IsZero(x) THEN x
            ELSE LET n == -((-x[2]) \div x[3]) IN IF n = 0 THEN NegZero ELSE IntN(n)

\* Ev(D, e, x): value of e in context x = [n, o, pos, size]
RECURSIVE Ev(_, _, _), Steps(_, _, _, _, _), Filter(_, _, _, _, _, _), Fn(_, _, _, _), Deref(_, _), SumStr(_, _)

\* apply predicates to the node set X
Filter(D, preds, k, X, rev, x) ==
    IF k > Len(preds) THEN NS(X)
    ELSE LET n == Cardinality(X)
             res == [p \in X |->
                LET pos == PosIn(D, X, p, rev)
                    v == Ev(D, preds[k], [n |-> p, o |-> x.o, pos |-> pos, size |-> IntN(n)])
                IN IF v[1] = "n" THEN Compare(D, "=", v, pos) ELSE BoolOf(v)]
         IN IF \E p \in X : Undef(res[p]) THEN U
            ELSE Filter(D, preds, k + 1, {p \in X : res[p][2]}, rev, x)

OneStep(D, st, p, x) == IF AxisOpen(D, st, p) THEN U
    ELSE Filter(D, st[5], 1, AxisNodes(D, st, p), st[1] \in RevAxes, x)

Steps(D, steps, k, X, x) ==
    IF k > Len(steps) THEN NS(X)
    ELSE LET rs == {OneStep(D, steps[k], p, x) : p \in X} IN
         IF U \in rs THEN U
         ELSE Steps(D, steps, k + 1, UNION {r[2] : r \in rs}, x)

Deref(D, p) == LET n == SnAt(D, p) ty == D.S[n].ty v == ValAt(D, p) IN
    IF ~IsLeafy(D.S, n) THEN NS({})
    ELSE IF ty.b = "leafref"
    THEN LET r == Ev(D, ty.path, [n |-> p, o |-> p, pos |-> IntN(1), size |-> IntN(1)]) IN
         IF r[1] # "ns" THEN U
         ELSE NS({q \in r[2] : ~IsInt(D, q) /\ (ValAt(D, q) = v \/ (~Undef(NodeStr(D, p)) /\ NodeStr(D, q) = NodeStr(D, p)))})
         \* (members of unions may have different values with the same text)
    ELSE IF ty.b = "instance-identifier"
    THEN IF v[2] \in DOMAIN D.RT THEN NS(D.RT[v[2]]) ELSE U
    ELSE IF "leafref" \in FlatTypes(ty) \/ "instance-identifier" \in FlatTypes(ty) THEN U
    ELSE NS({})

Fn(D, f, args, x) ==
    LET A(i) == Ev(D, args[i], x)
        S1 == StrOf(D, A(1))
        S2 == StrOf(D, A(2))
        self == IF IsInt(D, x.n) THEN U ELSE NodeStr(D, x.n)
        S01 == IF Len(args) = 0 THEN self ELSE S1
        N1 == IF Len(args) = 0 THEN IF Undef(self) THEN U ELSE NumText(self[2]) ELSE NumOf(D, A(1))
        Both(F(_, _)) == IF Undef(S1) \/ Undef(S2) THEN U ELSE F(S1[2], S2[2])
        \* the first node of a node-set argument: {} if empty, {"u"...} see use
        X1 == A(1)
        First1 == IF Undef(X1) THEN {} ELSE FirstOf(D, X1[2])
        F1 == CHOOSE p \in First1 : TRUE
        OnFirst(none, G(_)) == IF Undef(X1) THEN U ELSE IF X1[2] = {} THEN none
                               ELSE IF First1 = {} THEN U ELSE G(F1)
    IN CASE f = "last" -> x.size
         [] f = "position" -> x.pos
         [] f = "count" -> IF Undef(X1) THEN U ELSE IntN(Cardinality(X1[2]))
         [] f = "current" -> NS({x.o})
         [] f = "local-name" -> IF Len(args) = 0
                THEN IF x.n = <<>> THEN Str("") ELSE Str(D.S[SnAt(D, x.n)].nm)
                ELSE OnFirst(Str(""), LAMBDA p : IF p = <<>> THEN Str("") ELSE Str(D.S[SnAt(D, p)].nm))
         [] f = "name" -> IF Len(args) = 0
                THEN IF x.n = <<>> THEN Str("") ELSE Str(D.S[SnAt(D, x.n)].in)
                ELSE OnFirst(Str(""), LAMBDA p : IF p = <<>> THEN Str("") ELSE Str(D.S[SnAt(D, p)].in))
         [] f = "string" -> S01
         [] f = "concat" -> LET ss == [i \in 1..Len(args) |-> StrOf(D, A(i))] IN
                IF \E i \in 1..Len(args) : Undef(ss[i]) THEN U
                ELSE Str(Concat([i \in 1..Len(args) |-> ss[i][2]]))
         [] f = "starts-with" -> Both(LAMBDA s, t : B(StartsWith(s, t)))
         [] f = "contains" -> Both(LAMBDA s, t : B(t = "" \/ Find(s, t) > 0))
         [] f = "substring-before" -> Both(LAMBDA s, t :
                LET k == Find(s, t) IN Str(IF k = 0 THEN "" ELSE SubSeq(s, 1, k - 1)))
         [] f = "substring-after" -> Both(LAMBDA s, t :
                LET k == Find(s, t) IN Str(IF t = "" THEN s ELSE IF k = 0 THEN "" ELSE From(s, k + Len(t))))
         [] f = "substring" ->
                LET b == RoundN(NumOf(D, A(2)))
                    len == IF Len(args) < 3 THEN PInf ELSE RoundN(NumOf(D, A(3)))
                    e == IF Len(args) < 3 THEN PInf ELSE AddN(b, len)
                IN IF Undef(S1) \/ Undef(b) \/ Undef(len) \/ Undef(e) THEN U
                   ELSE IF IsNaN(b) \/ IsNaN(e) THEN Str("")
                   ELSE Str(SubstIdx(S1[2], {i \in 1..Len(S1[2]) :
                            CmpN(IntN(i), b) >= 0 /\ (Len(args) < 3 \/ CmpN(IntN(i), e) < 0)}))
         [] f = "string-length" -> IF Undef(S01) THEN U ELSE IntN(Len(S01[2]))
         [] f = "normalize-space" -> IF Undef(S01) THEN U ELSE Str(NormWs(S01[2]))
         [] f = "translate" -> LET S3 == StrOf(D, A(3)) IN
                IF Undef(S1) \/ Undef(S2) \/ Undef(S3) THEN U
                ELSE Str(TransStr(S1[2], S2[2], S3[2], 1))
         [] f = "boolean" -> BoolOf(A(1))
         [] f = "not" -> LET b == BoolOf(A(1)) IN IF Undef(b) THEN U ELSE B(~b[2])
         [] f = "true" -> B(TRUE)
         [] f = "false" -> B(FALSE)
         [] f = "number" -> N1
         [] f = "sum" -> IF Undef(X1) THEN U
                ELSE IF \E p \in X1[2] : IsInt(D, p) \/ ValAt(D, p)[1] = "b" THEN U   \* see DESIGN.md
                ELSE SumStr(D, X1[2])
         [] f = "floor" -> FloorN(NumOf(D, A(1)))
         [] f = "ceiling" -> CeilN(NumOf(D, A(1)))
         [] f = "round" -> RoundN(NumOf(D, A(1)))
         [] f = "re-match" -> IF Undef(S1) THEN U ELSE B(Matches(args[2][2], S1[2]))
         [] f = "deref" -> OnFirst(NS({}), LAMBDA p : Deref(D, p))
         [] f \in {"derived-from", "derived-from-or-self"} ->
                LET b == <<args[2][2], args[2][3]>>
                    ok == DerivedIds(D.ID, b) \cup (IF f = "derived-from" THEN {} ELSE {b})
                IN IF Undef(X1) THEN U
                   ELSE IF \E p \in X1[2] : D.S[SnAt(D, p)].ty.b \in {"union", "leafref"} THEN U
                   ELSE B(\E p \in X1[2] : D.S[SnAt(D, p)].ty.b = "identityref" /\ ValAt(D, p)[2] \in ok)
         [] f = "enum-value" -> OnFirst(NaN, LAMBDA p :
                LET ty == D.S[SnAt(D, p)].ty v == ValAt(D, p) IN
                IF ty.b \in {"union", "leafref"} THEN U
                ELSE IF ty.b # "enumeration" THEN NaN
                ELSE IntN(ty.ev[CHOOSE k \in 1..Len(ty.en) : ty.en[k] = v[2]]))
         [] f = "bit-is-set" -> IF Undef(S2) THEN U
                ELSE OnFirst(B(FALSE), LAMBDA p :
                LET ty == D.S[SnAt(D, p)].ty v == ValAt(D, p) IN
                IF ty.b \in {"union", "leafref"} THEN U
                ELSE B(ty.b = "bits" /\ S2[2] \in Rng(v[2])))

SumStr(D, X) == IF X = {} THEN IntN(0)
    ELSE LET p == CHOOSE q \in X : TRUE s == NodeStr(D, p) IN
         IF Undef(s) THEN U ELSE AddN(NumText(s[2]), SumStr(D, X \ {p}))

Ev(D, e, x) ==
    CASE e[1] = "num" -> Rat(e[2], e[3])
      [] e[1] = "str" -> Str(e[2])
      [] e[1] = "neg" -> NegOf(NumOf(D, Ev(D, e[2], x)))
      [] e[1] = "bin" ->
           (CASE e[2] \in {"or", "and"} ->
                  LET l == BoolOf(Ev(D, e[3], x)) stop == (e[2] = "or") IN
                  IF l = B(stop) THEN l
                  ELSE LET r == BoolOf(Ev(D, e[4], x)) IN
                       IF r = B(stop) \/ ~Undef(l) THEN r ELSE U
             [] e[2] \in {"=", "!=", "<", "<=", ">", ">="} -> Compare(D, e[2], Ev(D, e[3], x), Ev(D, e[4], x))
             [] OTHER -> LET l == NumOf(D, Ev(D, e[3], x)) r == NumOf(D, Ev(D, e[4], x)) IN
                  CASE e[2] = "+" -> AddN(l, r)
                    [] e[2] = "-" -> AddN(l, NegOf(r))
                    [] e[2] = "*" -> MulN(l, r)
                    [] e[2] = "div" -> DivN(l, r)
                    [] e[2] = "mod" -> ModN(l, r))
      [] e[1] = "union" -> LET l == Ev(D, e[2], x) r == Ev(D, e[3], x) IN
                           IF Undef(l) \/ Undef(r) THEN U ELSE NS(l[2] \cup r[2])
      [] e[1] = "path" -> Steps(D, e[3], 1, {IF e[2] THEN <<>> ELSE x.n}, x)
      [] e[1] = "filt" -> LET b == Ev(D, e[2], x) IN
                          IF Undef(b) THEN U
                          ELSE LET f == IF e[3] = <<>> THEN b ELSE Filter(D, e[3], 1, b[2], FALSE, x) IN
                               IF e[4] = <<>> \/ Undef(f) THEN f ELSE Steps(D, e[4], 1, f[2], x)
      [] e[1] = "fn" -> Fn(D, e[2], e[3], x)

\* a value in the context node n
Eval(D, e, n) == Ev(D, e, [n |-> n, o |-> n, pos |-> IntN(1), size |-> IntN(1)])
\* three-valued truth: "t", "f" or "u"
Holds(D, e, n) == LET b == BoolOf(Eval(D, e, n)) IN IF Undef(b) THEN "u" ELSE IF b[2] THEN "t" ELSE "f"
=============================================================================
