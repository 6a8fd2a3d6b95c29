--------------------------- MODULE TraceAssemble ---------------------------
(***************************************************************************)
(* Judges schema trees built from recorded modules.                         *)
(***************************************************************************)
EXTENDS Assemble, TraceBase
VARIABLE l

Ev_ == Trace[l]
FileRec(x) == [n |-> x.n, m |-> x.m, ft |-> Rng(x.ft), impl |-> x.impl, st |-> x.st,
               px |-> [p \in {q[1] : q \in Rng(x.px)} |-> (CHOOSE q \in Rng(x.px) : q[1] = p)[2]]]
FilesOf(e) == [i \in 1..Len(e.files) |-> FileRec(e.files[i])]
QN(g) == <<g.n, g.ns>>
Text1(q) == q[2] \o ":" \o q[1]
PropDiff(e, g, at) ==
    LET P(name, x, y) == If(x # y, Exp(name \o " of " \o at, x)) IN
    P("kind", e.k, g.k) \cup P("config", e.cf, g.cf) \cup P("mandatory", e.mand, g.mand)
    \cup P("presence", e.pres, g.pres) \cup P("min-elements", e.min, g.min) \cup P("max-elements", e.max, g.max)
    \cup P("ordered-by", e.usr, g.usr) \cup P("default", e.df, g.df) \cup P("units", e.un, g.un)
    \cup P("key", e.keys, g.keys) \cup P("unique", e.uniq, Rng(g.uniq)) \cup P("must", Rng(e.must), Rng(g.must))
    \cup If(Len(e.must) # Len(g.must), "number of must conditions of " \o at)
    \cup P("when", e.when, g.when) \cup P("inherited when", Rng(e.gw), Rng(g.gw)) \cup P("type", e.b, g.b)
    \cup P("enabled enums or bits", e.en, Rng(g.en)) \cup P("description", e.desc, g.desc) \cup P("status", e.sta, g.sta)
    \cup P("default access", e.deny, g.deny)
RECURSIVE Diff(_, _, _)
Diff(es, gs, at) ==
    LET qe == {es[i].q : i \in 1..Len(es)} qg == {QN(gs[i]) : i \in 1..Len(gs)} IN
    If(Cardinality(qe) # Len(es), "HARNESS: siblings of the same name under " \o at)
    \cup If(Cardinality(qg) # Len(gs), "siblings of the same name under " \o at)
    \cup {"missing node " \o at \o "/" \o Text1(q) : q \in qe \ qg}
    \cup {"unexpected node " \o at \o "/" \o Text1(q) : q \in qg \ qe}
    \cup UNION {LET e == CHOOSE e \in Rng(es) : e.q = q
                    g == CHOOSE g \in Rng(gs) : QN(g) = q
                    p == at \o "/" \o Text1(q)
                IN PropDiff(e, g, p) \cup Diff(e.ch, g.ch, p) : q \in qe \cap qg}
ModelClauses(e) == IF e.out[1] = "err" THEN {"refused with " \o e.out[2]} ELSE Diff(Schema(FilesOf(e)), e.out[2], "")
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE Ev_.op = "model" -> Report(l, ModelClauses(Ev_))
=============================================================================
