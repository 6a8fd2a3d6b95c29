------------------------------ MODULE TraceCli ------------------------------
(***************************************************************************)
(* Judges recorded runs of the command-line tools.  Whether a library loads  *)
(* is decided by Library.tla, whether an instance is valid by Validate.tla.  *)
(***************************************************************************)
EXTENDS Validate, TraceBase
VARIABLES l, S, ID, T, D, LR

Lb == INSTANCE Library
Cl == INSTANCE Cli
Ev_ == Trace[l]
LEntry(x) == [n |-> x.n, r |-> x.r, ns |-> x.ns, impl |-> x.impl, ft |-> Rng(x.ft), subs |-> x.subs]
\* instance routes are not needed: no instance-identifiers in these schemas
CtBits(ct) == CASE ct = "config" -> 1 [] ct = "nonconfig" -> 2 [] OTHER -> 3
ValidInst(sc, ct) == Viol(D, 1, T, <<>>, sc \in {"syntax", "all"}, sc \in {"semantics", "all"}, CtBits(ct)) = {}
Facts(e) == [infile |-> e.infile, lib |-> LR, op |-> e.cmd, out |-> e.dumpable, inst |-> e.inst, sub |-> e.sub,
             doc |-> CASE e.doc = "tree" -> ValidInst(e.scope, e.ct) [] e.doc = "valid" -> TRUE [] OTHER -> FALSE]
RunClauses(e) ==
    LET f == Facts(e) IN
    If(e.status # Cl!Exit(f), Exp("exit status " \o ToString(e.status) \o " of " \o e.cmd, Cl!Exit(f)))
    \cup (IF e.status # Cl!Exit(f) THEN {} ELSE
          IF e.status # 0 THEN If(e.errs = 0, "no explanation") \cup If(e.errs = 2, "an exception instead of an explanation")
                               \cup If(e.out # "", "output of a failed run")
          ELSE IF Cl!Prints(f) THEN If(e.out # e.api, Exp("printed " \o e.cmd, e.api)) ELSE If(e.out # "", "unexpected output"))
\* conversions
Mod(m) == [n |-> m.n, r |-> m.r, ns |-> m.ns, impl |-> m.impl, ft |-> Rng(m.ft), loc |-> m.loc,
           subs |-> {m.subs[i] : i \in 1..Len(m.subs)}, dv |-> Rng(m.dv)]
ConvClauses(e) ==
    IF e.input # "ok" \/ ~Cl!ValidY(e.Y)
    THEN If(e.status # 1, Exp("status of invalid input " \o e.input, 1)) \cup If(e.status = 1 /\ e.errs # 1, "no explanation")
    ELSE LET sel == Cl!Selected(e.Y, e.how, e.name) IN
    IF sel = {} THEN If(e.status # 2, Exp("status for a nonexistent " \o e.how, 2)) \cup If(e.status = 2 /\ e.errs # 1, "no explanation")
    ELSE IF ~e.writable THEN If(e.status # 3, Exp("status if the output cannot be written", 3)) \cup If(e.status = 3 /\ e.errs # 1, "no explanation")
    ELSE IF e.status # 0 THEN {Exp("status", 0)}
    ELSE LET C == Cl!Converted(Cl!SetsOf(e.Y, CHOOSE s \in sel : TRUE)) got == {Mod(e.res.mods[i]) : i \in 1..Len(e.res.mods)} IN
         If(got # C \/ Len(e.res.mods) # Cardinality(C), Exp("modules", <<C \ got, got \ C>>))
         \cup If(e.res.id # e.Y.id, Exp("module-set-id", e.Y.id))
Init == l = 1 /\ S = <<>> /\ ID = <<>> /\ T = EmptyObj /\ D = <<>> /\ LR = TRUE
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE Ev_.op = "load" -> S' = Ev_.schema /\ ID' = Ev_.idents /\ T' = EmptyObj /\ D' = <<>> /\ LR' = TRUE
                                    /\ Report(l, If(~WellFormed(Ev_.schema), "HARNESS: schema table"))
             [] Ev_.op = "lib" -> LR' = (Ev_.bad = "" /\ Lb!Refusals([i \in 1..Len(Ev_.lib) |-> LEntry(Ev_.lib[i])], Ev_.disk) = {})
                                   /\ UNCHANGED <<S, ID, T, D>> /\ Report(l, {})
             [] Ev_.op = "tree" -> LET t == Val(Ev_.tree) b == Accessible(S, t, ID, EmptyF) IN
                                    UNCHANGED <<S, ID, LR>> /\ T' = t /\ D' = Doc(S, b, ID, [x \in {} |-> {}]) /\ Report(l, {})
             [] Ev_.op = "run" -> UNCHANGED <<S, ID, T, D, LR>> /\ Report(l, RunClauses(Ev_))
             [] Ev_.op = "conv" -> UNCHANGED <<S, ID, T, D, LR>> /\ Report(l, ConvClauses(Ev_))
=============================================================================
