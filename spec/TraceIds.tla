------------------------------ MODULE TraceIds ------------------------------
(***************************************************************************)
(* Judges recorded uses of routes and identifiers.  State: schema and tree. *)
(* Outcomes of goto are <<"at", position>> or <<"err", class>>, those of     *)
(* peek <<"val", value>>, <<"none">> or <<"err", class>>.                    *)
(***************************************************************************)
EXTENDS Ids, TraceBase
VARIABLES l, S, T

Ev_ == Trace[l]
GotoErr(k) == CASE k = "none" -> {"NonexistentInstance"}
                [] k = "unknown" -> {"NonexistentSchemaNode", "NonexistentInstance", "InvalidKeyValue"}
                [] k = "badkey" -> {"InvalidKeyValue", "NonexistentInstance"}
                [] k = "shape" -> {"InvalidKeyValue", "InstanceValueError", "NonexistentSchemaNode", "NonexistentInstance", "BadSchemaNodeType"}
PeekErr(k) == CASE k = "none" -> {}
                [] k = "badkey" -> {"InvalidKeyValue"}
                [] OTHER -> {"NonexistentSchemaNode", "BadSchemaNodeType", "InstanceValueError", "InvalidKeyValue"}
Out(g, r, root, what) ==
    IF r.k = "odd" THEN {}
    ELSE IF r.k = "ok" THEN If(g # <<"at", r.p>>, Exp(what \o " goto", r.p))
    ELSE If(g[1] # "err", what \o " goto found a node")
         \cup If(g[1] = "err" /\ g[2] \notin GotoErr(r.k), Exp(what \o " goto raised " \o ToString(g[2]), GotoErr(r.k)))
Peek(g, r, root, what) ==
    IF r.k = "odd" THEN {}
    ELSE IF r.k = "ok" THEN If(g[1] # "val" \/ Val(g[2]) # At(root, r.p), Exp(what \o " peek", At(root, r.p)))
    ELSE If(g[1] = "val", what \o " peek found a value")
         \cup If(g[1] = "err" /\ g[2] \notin PeekErr(r.k), Exp(what \o " peek raised " \o ToString(g[2]), PeekErr(r.k)))
Full(p, r) == IF r.k = "ok" THEN [r EXCEPT !.p = p \o r.p] ELSE r

RouteClauses(e) ==
    LET want == [k |-> "ok", p |-> e.p]
        q == InstanceId(e.txt)
        r == IF q.k = "ok" THEN Walk(S, 1, T, q.st, <<>>) ELSE q
    IN Out(e.go, want, T, "route") \cup Peek(e.pk, want, T, "route")
       \cup If(q.k = "bad", "printed route is not an instance identifier")
       \cup If(r.k \notin {"ok", "odd"} \/ (r.k = "ok" /\ r.p # e.p), Exp("printed route denotes another node", r))
       \cup Out(e.go2, want, T, "reparsed") \cup Peek(e.pk2, want, T, "reparsed")
IdClauses(e) ==
    LET q == IF e.op = "iid" THEN InstanceId(e.txt) ELSE ResourceId(S, e.txt, e.l1)
        n == Snode(S, T, e.p)
        w == Walk(S, n, At(T, e.p), q.st, <<>>)
        r == Full(e.p, w)
    IN IF q.k = "odd" THEN {}
       ELSE IF e.out[1] = "err" /\ q.k = "ok"
       THEN {"identifier refused with " \o e.out[2]}
       ELSE IF e.out[1] = "err"
       THEN If(~e.out[3], "refused with an undocumented exception " \o e.out[2])
       ELSE IF q.k # "ok" THEN {"accepted a wrong identifier"}
       ELSE Out(e.go, r, T, "") \cup Peek(e.pk, r, T, "")
LookClauses(e) ==
    LET v == At(T, e.p)
        vs == [i \in 1..Len(e.keys) |-> <<e.keys[i][1], Val(e.keys[i][2])>>]
        is == {i \in 1..Len(v[2]) : \A j \in 1..Len(vs) : vs[j][1] \in DOMAIN v[2][i][2] /\ v[2][i][2][vs[j][1]] = vs[j][2]}
        r == IF is = {} THEN [k |-> "none"] ELSE [k |-> "ok", p |-> Append(e.p, Least(is))]
    IN Out(e.go, r, T, "look_up")

RECURSIVE SetIds(_)
SetIds(t) == [t EXCEPT !.ids = Rng(@), !.u = [i \in 1..Len(@) |-> SetIds(@[i])]]
Init == l = 1 /\ S = <<>> /\ T = EmptyObj
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE Ev_.op = "load" -> S' = [i \in 1..Len(Ev_.schema) |-> [Ev_.schema[i] EXCEPT !.et = SetIds(@)]] /\ T' = EmptyObj
             [] Ev_.op = "tree" -> S' = S /\ T' = Val(Ev_.tree)
             [] OTHER -> UNCHANGED <<S, T>> /\ Report(l,
                    CASE Ev_.op = "route" -> RouteClauses(Ev_)
                      [] Ev_.op = "look" -> LookClauses(Ev_)
                      [] OTHER -> IdClauses(Ev_))
=============================================================================
