--------------------------- MODULE TraceFeatures ---------------------------
(***************************************************************************)
(* Judges loadings of modules with features and evaluations of if-feature   *)
(* expressions.  State: the files with the supported features.              *)
(***************************************************************************)
EXTENDS Features, TraceBase
VARIABLES l, F

Ev_ == Trace[l]
FileRec(x) == [n |-> x.n, m |-> x.m, ft |-> Rng(x.ft),
               px |-> [p \in {q[1] : q \in Rng(x.px)} |-> (CHOOSE q \in Rng(x.px) : q[1] = p)[2]]]
FilesOf(e) == [i \in 1..Len(e.files) |-> FileRec(e.files[i])]
\* every supported feature has its prerequisites; defs: <<file, name, sequence of arguments>>
Missing(G, e) == \E d \in Rng(e.defs) : /\ d[2] \in FileOf(G, d[1]).ft
                                        /\ \E s \in Rng(d[3]) : IfFeature(G, d[1], s) = "no"
Bad(G, e) == \E d \in Rng(e.defs) : d[2] \in FileOf(G, d[1]).ft /\ \E s \in Rng(d[3]) : IfFeature(G, d[1], s) = "bad"
Odd(G, e) == \E d \in Rng(e.defs) : d[2] \in FileOf(G, d[1]).ft /\ \E s \in Rng(d[3]) : IfFeature(G, d[1], s) = "odd"
LoadClauses(G, e) ==
    IF e.out[1] = "ok" THEN If(Missing(G, e), "a feature without its prerequisites is supported")
                            \cup If(Bad(G, e), "a malformed condition of a feature is accepted")
    ELSE If(~e.out[3], "refused with an undocumented exception " \o e.out[2])
         \cup If(~Missing(G, e) /\ ~Bad(G, e) /\ ~Odd(G, e), "refused with " \o e.out[2])
         \cup If(Missing(G, e) /\ ~Bad(G, e) /\ ~Odd(G, e) /\ e.out[2] # "FeaturePrerequisiteError",
                 "missing prerequisite reported as " \o e.out[2])
ExprClauses(e) ==
    LET x == IfFeature(F, e.f, e.text) IN
    IF e.out[1] = "err"
    THEN If(~e.out[3], "undocumented exception " \o e.out[2])
         \cup If(x \in {"yes", "no"}, "a well-formed expression is refused with " \o e.out[2])
    ELSE CASE x = "bad" -> {"a malformed expression is accepted"}
           [] x = "odd" -> {}
           [] OTHER -> If(e.out[1] # x, "the value is " \o e.out[1])
Init == l = 1 /\ F = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE Ev_.op = "load" -> F' = FilesOf(Ev_) /\ Report(l, LoadClauses(FilesOf(Ev_), Ev_))
             [] Ev_.op = "iff" -> UNCHANGED F /\ Report(l, ExprClauses(Ev_))
=============================================================================
