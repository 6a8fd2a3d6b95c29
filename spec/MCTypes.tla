------------------------------ MODULE MCTypes ------------------------------
(***************************************************************************)
(* All chains of restrictions over small sets of restrictions: a chain      *)
(* grows by one layer at a time.  Laws of value spaces and of lexical forms *)
(* are checked for every chain, which is printed with what it accepts of a  *)
(* pool of texts; the harness builds the chains as typedefs in the real     *)
(* library.                                                                *)
(*                                                                         *)
(* IOEnv.MODEL: JSON file, one model per line: base type, fraction digits,  *)
(* sets of layers, pool of texts, and whether the pool is dense (contains   *)
(* all values between its least and greatest value).                        *)
(***************************************************************************)
EXTENDS TypeDefs, Json, IOUtils, TLC
VARIABLES m, ly


M == ndJsonDeserialize(IOEnv.MODEL)
Chain(l) == Elab([b |-> M[m].b, fd |-> M[m].fd, bases |-> <<>>, u |-> <<>>, ly |-> l], <<>>)
IsNum(i) == M[m].b \in {"string", "binary"} \/ IF M[m].b = "decimal64" THEN IsDecText(M[m].pool[i]) ELSE IsIntText(M[m].pool[i])
C0 == [md |-> "m1"]
Pool == M[m].pool
Parse(e, i) == ParseText(e.t, Pool[i], C0)
Acc(e) == {i \in 1..Len(Pool) : Parse(e, i).k = "yes"}

Init == m \in 1..Len(M) /\ ly = <<>>
Next == /\ Len(ly) < Len(M[m].opts)
        /\ (ly = <<>> \/ Chain(ly).k = "ok")
        /\ \E i \in 1..Len(M[m].opts[Len(ly) + 1]) : ly' = Append(ly, M[m].opts[Len(ly) + 1][i])
        /\ UNCHANGED m

(************************** laws **************************)
\* the parts of a range or length as written, min and max being unlimited
Parts(s) == {IF Find(p, "..") = 0 THEN <<Strip(p), Strip(p)>>
             ELSE <<Strip(SubSeq(p, 1, Find(p, "..") - 1)), Strip(From(p, Find(p, "..") + 2))>> : p \in Rng(Split(s, "|"))}
Num(s) == IF M[m].b = "decimal64" THEN Scaled(DecParts(s), M[m].fd) ELSE BNorm(s)
Magnitude(i) == IF M[m].b = "string" THEN ToString(Len(Pool[i]))
                ELSE IF M[m].b = "binary" THEN ToString(Len(UnB64(TrimR(Pool[i], "="), 1)) \div 2) ELSE Num(Pool[i])
AtLeast(x, b) == b \in {"min", "max"} \/ BLe(Num(b), x)
AtMost(x, b) == b \in {"min", "max"} \/ BLe(x, Num(b))
Within(x, p) == AtLeast(x, p[1]) /\ AtMost(x, p[2])
Plain(p) == p[1] \notin {"min", "max"} /\ p[2] \notin {"min", "max"}
\* (a part "min" or "max" alone, or one that begins with max or ends with min)
Edge(p) == p[1] = "max" \/ p[2] = "min"

\* e: the chain; f: the chain without its last layer
\* a restriction never adds values
Shrinks(e, f, ae, af) == ae \subseteq af
\* a value is accepted iff it was before and lies in one of the written parts
Conjunction(e, f, ae, af, ps) == ae = {i \in af : \E p \in ps : Within(Magnitude(i), p)}
\* for a dense pool: one part with bounds in the pool is admitted iff all
\* between its bounds was
Admission(e, f, af, p) == LET in == {i \in 1..Len(Pool) : IsNum(i) /\ Within(Magnitude(i), p)} IN
    e.k \in {"ok", "odd"} <=> in # {} /\ in \subseteq af
\* names keep their numbers, which are different
Numbers(e, l1) == Rng(e.t.en) \subseteq Rng(l1.t.en) /\ Rng(e.t.bt) \subseteq Rng(l1.t.bt)
Distinct(e) == LET x == e.t.en \o e.t.bt IN \A i, j \in 1..Len(x) : x[i][1] = x[j][1] \/ x[i][2] = x[j][2] => i = j
\* every accepted value has one canonical form, which is accepted as that value
RoundTrip(t, i) == LET r == ParseText(t, Pool[i], C0) IN r.k = "yes" =>
    LET c == Canon(t, r.v) IN
    /\ ParseText(t, c, C0) = r
    /\ ParseXml(t, c, C0) = r
    /\ ParseJson(t, TyJson(t, r.v), C0) = r
    /\ Has(t, r.v)
Laws == ly = <<>> \/
    LET e == Chain(ly)
        f == Chain(SubSeq(ly, 1, Len(ly) - 1))
        y == ly[Len(ly)]
        w == IF y.rg # "" THEN y.rg ELSE y.ln
        ps == IF w = "" THEN {} ELSE Parts(w)
        af == Acc(f)
    IN /\ (e.k = "ok" =>
             LET ae == Acc(e) IN
             /\ (M[m].b \in {"enumeration", "bits"} /\ Len(ly) = 1) \/ Shrinks(e, f, ae, af)
             /\ (w # "" /\ (\A p \in ps : ~Edge(p)) => Conjunction(e, f, ae, af, ps))
             /\ Numbers(e, Chain(<<ly[1]>>))
             /\ Distinct(e)
             /\ \A i \in 1..Len(Pool) : RoundTrip(e.t, i))
       /\ (M[m].dense /\ w # "" /\ Len(Split(w, "|")) = 1 /\ (\A p \in ps : Plain(p)) => \A p \in ps : Admission(e, f, af, p))

(************************ emission ************************)
Emit == ly = <<>> \/ LET e == Chain(ly) IN
        PrintT("@@ST " \o ToJson([m |-> m, ly |-> ly, k |-> e.k,
            acc |-> IF e.k # "ok" THEN <<>> ELSE [i \in 1..Len(Pool) |-> Parse(e, i).k],
            num |-> IF e.k # "ok" THEN <<>> ELSE e.t.en \o e.t.bt]))
=============================================================================
