------------------------------ MODULE MCLibrary ------------------------------
(***************************************************************************)
(* Loading as a transition system: entries are read in any order, imports    *)
(* resolved, and implemented modules processed as soon as all that they      *)
(* import have been.  Whatever the order, the result is that of Library.tla. *)
(***************************************************************************)
EXTENDS Library, FiniteSets
CONSTANT Names, MaxEntries
VARIABLES L, D, todo, have, err, seq, phase

Revs == {"1", "2"}
Fl(fn, n, r, imps) == [fn |-> fn, kind |-> "module", n |-> n, r |-> r, px |-> "p", bt |-> "", tag |-> fn, imps |-> imps]
Libs == UNION {[1..k -> {[n |-> n, r |-> r, ns |-> n, impl |-> b, ft |-> {}, subs |-> <<>>] : n \in Names, r \in Revs, b \in BOOLEAN}]
                 : k \in 1..MaxEntries}
Distinct(l) == \A i, j \in 1..Len(l) : i # j => IdOf(l[i]) # IdOf(l[j])
Init == /\ L \in {l \in Libs : Distinct(l)}
        /\ \E f \in [Names \X Revs -> {<<"none">>, <<"plain">>} \cup {<<m, x>> : m \in Names, x \in {"", "1"}}] :
              /\ \A x \in (Names \X Revs) \ Ids(L) : f[x] = <<"none">>
              /\ D = <<LET F == {x \in Names \X Revs : f[x] # <<"none">>}
                           ord == CHOOSE g \in [1..Cardinality(F) -> F] : \A i, j \in 1..Cardinality(F) : i # j => g[i] # g[j]
                       IN [i \in 1..Cardinality(F) |->
                             Fl(ord[i][1] \o "@" \o ord[i][2] \o ".yang", ord[i][1], ord[i][2],
                                IF f[ord[i]] = <<"plain">> THEN <<>> ELSE <<<<f[ord[i]][1], "q", f[ord[i]][2]>>>>)]>>
        /\ todo = 1..Len(L) /\ have = {} /\ err = "" /\ seq = <<>> /\ phase = "read"
Stop(e) == err' = e /\ phase' = "done" /\ UNCHANGED <<L, D, todo, have, seq>>
Read == /\ phase = "read" /\ todo # {}
        /\ \E i \in todo :
             IF L[i].impl /\ \E j \in (1..Len(L)) \ todo : L[j].impl /\ L[j].n = L[i].n THEN Stop("MultipleImplementedRevisions")
             ELSE IF Found(D, IdOf(L[i])) = <<>> THEN Stop("ModuleNotFound")
             ELSE /\ todo' = todo \ {i} /\ have' = have \cup {IdOf(L[i])}
                  /\ UNCHANGED <<L, D, err, seq, phase>>
Resolve == /\ phase = "read" /\ todo = {}
           /\ IF \E x \in have : \E i \in 1..Len(ImportsOf(D, x)) :
                    ~\E y \in have : y[1] = ImportsOf(D, x)[i][1] /\ ImportsOf(D, x)[i][3] \in {"", y[2]}
              THEN Stop("ModuleNotRegistered")
              ELSE phase' = "order" /\ UNCHANGED <<L, D, todo, have, err, seq>>
Ready(x) == x \in Implemented(L) /\ x \notin {seq[i] : i \in 1..Len(seq)}
            /\ DependsOn(L, D, x) \subseteq {seq[i] : i \in 1..Len(seq)}
Pick == /\ phase = "order"
        /\ IF \E x \in Implemented(L) : Ready(x)
           THEN \E x \in Implemented(L) : Ready(x) /\ seq' = Append(seq, x) /\ UNCHANGED <<L, D, todo, have, err, phase>>
           ELSE IF Len(seq) = Cardinality(Implemented(L)) THEN phase' = "done" /\ UNCHANGED <<L, D, todo, have, err, seq>>
           ELSE Stop("CyclicImports")
Next == Read \/ Resolve \/ Pick
Spec == Init /\ [][Next]_<<L, D, todo, have, err, seq, phase>>

\* the outcome does not depend on the order
Outcome == phase = "done" =>
    /\ err = "" => Refusals(L, D) = {} /\ have = Ids(L)
    /\ err # "" => err \in Refusals(L, D)
\* every import is processed before its importer
Order == \A i \in 1..Len(seq) : \A x \in DependsOn(L, D, seq[i]) : \E j \in 1..(i - 1) : seq[j] = x
\* imports lead to listed modules, the most recent ones if no revision is given
Imports == Refusals(L, D) = {} => \A x \in Ids(L) : \A i \in 1..Len(ImportsOf(D, x)) :
              LET imp == ImportsOf(D, x)[i] y == Import(L, imp)[1] IN
              y \in Ids(L) /\ y[1] = imp[1] /\ (IF imp[3] # "" THEN y[2] = imp[3] ELSE \A z \in Ids(L) : z[1] = y[1] => ~Newer(z[2], y[2]))
=============================================================================
