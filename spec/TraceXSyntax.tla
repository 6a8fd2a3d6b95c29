---------------------------- MODULE TraceXSyntax ---------------------------
(***************************************************************************)
(* Judges recorded parses of XPath texts: acceptance against the grammar,   *)
(* printed forms against the syntax tree, and values of parsed expressions.  *)
(***************************************************************************)
EXTENDS XPathGrammar, Validate, TraceBase
VARIABLES l, S, ID, D, C

Ev_ == Trace[l]
\* [px |-> sequence of <<prefix, module>>, md |-> module, mods |-> modules]
Ctx(x, nn) == [px |-> FromPairs(x.px), md |-> x.md, nn |-> nn]
\* printed names have the module name as their prefix
PrintCtx(x) == [px |-> [m \in Rng(x.mods) |-> m], md |-> "?", nn |-> TRUE]

ParseClauses(e) ==
    LET r == ParseX(e.text, Ctx(C, TRUE)) IN
    IF e.out[1] = "err"
    THEN If(r.ok /\ ~r.odd /\ ~r.uns, Exp("refused", r))
         \cup If(~e.out[3], "refused with an undocumented exception")
    ELSE IF ~r.ok THEN {"accepted a text outside the grammar"}
    ELSE IF r.uns THEN {"accepted an unsupported construct"}
    ELSE LET q == ParseX(e.out[2], PrintCtx(C)) IN
         IF ~q.ok THEN {"the printed form is not an expression"}
         ELSE If(q.e # r.e, Exp("the printed form has another meaning", r.e))
Same(x, r) == CASE x[1] = "ns" -> r[1] = "ns" /\ Rng(r[2]) = x[2] /\ Len(r[2]) = Cardinality(x[2])
                [] x[1] = "n" -> r = x \/ (IsZero(x) /\ r[1] = "n" /\ IsZero(r) /\ r[3] = x[3])
                [] OTHER -> r = x
EvalClauses(e) ==
    LET r == ParseX(e.text, Ctx(C, FALSE)) IN
    IF ~r.ok THEN {"HARNESS: cannot parse"}
    ELSE LET x == Eval(D, r.e, e.n) IN
         IF e.out[1] = "err" THEN {"evaluation failed with " \o e.out[2]}
         ELSE IF Undef(x) THEN {} ELSE If(~Same(x, e.out), Exp("wrong result", x))

Init == l = 1 /\ S = <<>> /\ ID = <<>> /\ D = <<>> /\ C = <<>>
Load == /\ S' = Ev_.schema /\ ID' = Ev_.idents /\ C' = Ev_.ctx /\ D' = <<>>
        /\ Report(l, If(~WellFormed(Ev_.schema), "HARNESS: schema table"))
Tree == LET b == Accessible(S, Val(Ev_.tree), ID, EmptyF)
        IN /\ UNCHANGED <<S, ID, C>>
           /\ D' = Doc(S, b, ID, EmptyF)
           /\ Report(l, {})
Step(f) == UNCHANGED <<S, ID, D, C>> /\ Report(l, f)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE Ev_.op = "load" -> Load
             [] Ev_.op = "tree" -> Tree
             [] Ev_.op = "xparse" -> Step(ParseClauses(Ev_))
             [] Ev_.op = "xeval" -> Step(EvalClauses(Ev_))
=============================================================================
