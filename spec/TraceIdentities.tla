-------------------------- MODULE TraceIdentities ---------------------------
(***************************************************************************)
(* Judges histories of queries about identities.  State: the identities of  *)
(* all modules and the set M of implemented modules.  Values are restricted *)
(* to the identities of implemented modules (RFC 7950, section 9.10.2);     *)
(* whether queries also list those of other modules is not laid down.       *)
(***************************************************************************)
EXTENDS Identities, TraceBase
VARIABLES l, ID, M

Ev_ == Trace[l]
Q(x) == <<x[1], x[2]>>
SetQ(s) == {Q(s[i]) : i \in DOMAIN s}
Impl(X) == {x \in X : x[2] \in M}
Listing(got, want) == If(Impl(got) # Impl(want), Exp("listed identities", want))
                      \cup If(~(got \subseteq want), Exp("lists identities that are not derived", want))
Accepts(bs, x) == x[2] \in M /\ x \in DerivedAll(ID, SetQ(bs))
Clauses(e) ==
    IF e.out[1] = "err" THEN {"exception " \o e.out[2]}
    ELSE CASE e.op = "der" -> If((e.out[1] = "yes") # IsDerived(ID, Q(e.x), Q(e.b)), "is_derived_from is wrong")
           [] e.op = "from" -> Listing(SetQ(e.out[2]), Derived(ID, Q(e.x)))
           [] e.op = "all" -> Listing(SetQ(e.out[2]), DerivedAll(ID, SetQ(e.bs)))
           [] e.op = "digest" -> Listing(SetQ(e.out[2]), DerivedAll(ID, SetQ(e.bs)))
           [] e.op = "val" -> If((e.out[1] = "yes") # Accepts(e.bs, Q(e.x)),
                                 "value " \o (IF e.out[1] = "yes" THEN "accepted" ELSE "refused") \o " as " \o e.how)
           [] e.op = "xp" -> If((e.out[1] = "yes") # (\E i \in DOMAIN e.vs : \/ IsDerived(ID, Q(e.vs[i]), Q(e.b))
                                                                            \/ (e.self /\ Q(e.vs[i]) = Q(e.b))),
                                "derived-from() is " \o e.out[1])
Init == l = 1 /\ ID = <<>> /\ M = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Ev_.op = "load"
           THEN /\ ID' = Ev_.idents /\ M' = Rng(Ev_.impl)
                /\ Report(l, If(Ev_.out # "ok", "cannot load: " \o Ev_.out)
                             \cup If(\E x \in Ids(Ev_.idents) : IsDerived(Ev_.idents, x, x), "HARNESS: cyclic"))
           ELSE UNCHANGED <<ID, M>> /\ Report(l, Clauses(Ev_))
=============================================================================
