------------------------------- MODULE Base -------------------------------
(***************************************************************************)
(* Values of instance data, shared by all modules of the specification.    *)
(*                                                                         *)
(* A value is a tuple whose first component is a tag:                      *)
(*   <<"o", f>>   object, f: function from member names to values          *)
(*   <<"a", s>>   array, s: sequence of values                             *)
(*   <<"i", n>>   integer          <<"I", txt>>  integer beyond 32 bits     *)
(*   <<"d", n, e>> decimal n*10^-e  <<"s", txt>>  string (also enum names)  *)
(*   <<"b", "true"|"false">>        <<"e">>       empty                     *)
(*   <<"t", s>>   set of bit names  <<"q", name, module>> identity          *)
(*   <<"x", hex>> binary            <<"r", txt>>  instance identifier       *)
(*   <<"j", txt>> anything inside anydata/anyxml (opaque JSON text)        *)
(* In traces, objects are sequences of pairs; Val converts them.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

EmptyF == [x \in {} |-> 0]

Rng(s) == {s[i] : i \in 1..Len(s)}

\* assoc list -> function
FromPairs(ps) == [n \in {ps[i][1] : i \in 1..Len(ps)} |->
                    ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = n][2]]

RECURSIVE Val(_)
Val(j) == CASE j[1] = "o" -> <<"o", [n \in {j[2][i][1] : i \in 1..Len(j[2])} |->
                                Val(j[2][CHOOSE i \in 1..Len(j[2]) : j[2][i][1] = n][2])]>>
            [] j[1] = "a" -> <<"a", [i \in 1..Len(j[2]) |-> Val(j[2][i])]>>
            [] OTHER -> j

IsObj(v) == v[1] = "o"
IsArr(v) == v[1] = "a"
IsStruct(v) == v[1] \in {"o", "a"}
Members(v) == DOMAIN v[2]
Obj(f) == <<"o", f>>
Arr(s) == <<"a", s>>
EmptyObj == Obj(EmptyF)

SetM(f, n, v) == [k \in (DOMAIN f) \cup {n} |-> IF k = n THEN v ELSE f[k]]
DelM(f, n) == [k \in (DOMAIN f) \ {n} |-> f[k]]

SetE(s, i, v) == [s EXCEPT ![i] = v]
InsE(s, i, v) == SubSeq(s, 1, i-1) \o <<v>> \o SubSeq(s, i, Len(s))
DelE(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))

RECURSIVE SeqCat(_)
SeqCat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o SeqCat(Tail(ss))

RECURSIVE Join(_, _)
Join(ss, sep) == IF Len(ss) = 0 THEN ""
                 ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

\* Fail clauses: a set of strings
If(b, c) == IF b THEN {c} ELSE {}
Exp(c, v) == c \o ": specification says " \o ToString(v)
=============================================================================
