-------------------------------- MODULE MCCli --------------------------------
(* All runs of the command, step by step; and all small conversions.          *)
EXTENDS Cli, TLC
VARIABLES f, at, Y, done

Facts == [infile : {"ok", "missing", "garbage"}, lib : BOOLEAN, op : {"none", "id", "tree", "digest", "dump", "validate"}, out : BOOLEAN,
          inst : {"ok", "missing", "not JSON"}, sub : {"ok", "unknown"}, doc : BOOLEAN]
Md(n, r, b) == [n |-> n, r |-> r, ns |-> n, ft |-> <<>>, dv |-> IF b THEN <<"a">> ELSE <<>>, loc |-> <<>>, subs |-> <<>>]
SetOf(n, a, b, i) == [n |-> n, mods |-> (IF a = "" THEN <<>> ELSE <<Md("a", a, FALSE)>>) \o (IF b = "" THEN <<>> ELSE <<Md("b", b, a # "")>>),
                      imps |-> IF i = "" THEN <<>> ELSE <<Md("a", i, FALSE)>>]
Vs == {"", "1", "2"}
Ys == {[id |-> "x", ms |-> <<SetOf("s", a, b, i), SetOf("t", c, "", k)>>,
        sc |-> <<[n |-> "p", ms |-> <<"s", "t">>], [n |-> "q", ms |-> <<z>>]>>, ds |-> <<[n |-> "running", sc |-> y]>>]
        : a \in Vs, b \in Vs, i \in Vs, c \in Vs, k \in Vs, y \in {"p", "q"}, z \in {"s", "t"}}
Init == at = "infile" /\ f \in Facts /\ done = {} /\ Y \in Ys
        \* (the two parts are independent)
        /\ (Y = (CHOOSE y \in Ys : TRUE) \/ f = CHOOSE x \in Facts : TRUE)
Next == at \notin Exits /\ at' = After(f, at) /\ done' = done \cup {at} /\ UNCHANGED <<f, Y>>
Spec == Init /\ [][Next]_<<f, at, Y, done>>
\* 0 exactly if everything that is asked for succeeds
Truth == at = "exit 0" <=> (at \in Exits /\ f.infile = "ok" /\ f.lib /\ (f.op = "dump" => f.out)
                            /\ (f.op = "validate" => f.inst = "ok" /\ f.sub = "ok" /\ f.doc))
Kinds == /\ at = "exit 2" => f.infile = "ok" /\ ~f.lib
         /\ at = "exit 3" => f.op = "validate" /\ f.lib /\ f.inst = "ok"
         /\ at = "exit 1" => f.infile # "ok" \/ (f.op = "dump" /\ ~f.out) \/ (f.op = "validate" /\ f.inst # "ok")
Lazy == "inst" \in done => f.op = "validate" /\ f.lib
Function == at \in Exits => at = ExitFrom(f, "infile")
\* conversion keeps every module of the schema, once, implemented if it is so in some set
Conversion == \A s \in R(Y.sc) : LET C == Converted(SetsOf(Y, s)) IN
    /\ {<<e.n, e.r>> : e \in C} = UNION {{<<m.n, m.r>> : m \in R(x.mods) \cup R(x.imps)} : x \in SetsOf(Y, s)}
    /\ \A a, b \in C : (a.n = b.n /\ a.r = b.r /\ a.impl # b.impl) => FALSE
    /\ \A e \in C : e.impl <=> \E x \in SetsOf(Y, s) : \E m \in R(x.mods) : m.n = e.n /\ m.r = e.r
    /\ \A e \in C : \A d \in e.dv : \E y \in C : y.n = d[1] /\ y.r = d[2] /\ y.impl
Selection == \A d \in R(Y.ds) : Selected(Y, "datastore", d.n) = Selected(Y, "schema", d.sc) /\ Cardinality(Selected(Y, "schema", d.sc)) = 1
Valid == ValidY(Y)
=============================================================================
