---------------------------- MODULE TraceAddress ----------------------------
(***************************************************************************)
(* Judges recorded lookups and renderings of schemas.                       *)
(***************************************************************************)
EXTENDS Address, TraceBase
VARIABLE l

Ev_ == Trace[l]
FileRec(x) == [n |-> x.n, m |-> x.m, ft |-> Rng(x.ft), impl |-> x.impl, st |-> x.st,
               px |-> [p \in {q[1] : q \in Rng(x.px)} |-> (CHOOSE q \in Rng(x.px) : q[1] = p)[2]]]
FilesOf(e) == [i \in 1..Len(e.files) |-> FileRec(e.files[i])]
\* results: <<"ok", route>>, <<"none">> or <<"err", exception>>
Found(x) == IF x = <<>> THEN <<"none">> ELSE <<"ok", x[1]>>
Chk(what, exp, got) == If(got # exp, Exp(what, exp))
PathClauses(S, what, t, got, L(_)) ==
    LET r == ParsePath(t) IN
    CASE r[1] = "bad" -> Chk(what \o " of invalid path " \o t, <<"err", "InvalidSchemaPath">>, got)
      [] r[1] = "open" -> If(got \notin {<<"err", "InvalidSchemaPath">>, <<"none">>}, what \o " of " \o t)
      [] OTHER -> Chk(what \o " of " \o t, L(r[2]), got)
QueryClauses(S, q) ==
    CASE q.how = "schema" -> PathClauses(S, "get_schema_node", q.path, q.res, LAMBDA r : Found(Follow(S, <<>>, r)))
      [] q.how = "data" ->
           LET L(r) == Found(FollowData(S, <<>>, r)) IN
           IF ParsePath(q.path) = <<"ok", <<>>>> THEN If(q.res \notin {<<"none">>, <<"ok", <<>>>>}, "data node of the empty path")
           ELSE PathClauses(S, "get_data_node", q.path, q.res, L)
      [] q.how = "child" -> Chk("get_child " \o ToString(q.q), Found(Child(S, q.at, q.q)), q.res)
      [] q.how = "dchild" -> Chk("get_data_child " \o ToString(q.q), Found(DataChild(S, q.at, q.q)), q.res)
      [] q.how = "desc" -> Chk("get_schema_descendant " \o ToString(q.r), Found(Follow(S, q.at, q.r)), q.res)
      [] q.how = "kids" -> If(Rng(q.res) # DataChildren(S, q.at) \/ Len(q.res) # Cardinality(DataChildren(S, q.at)),
                              Exp("data children of " \o ToString(q.at), DataChildren(S, q.at)))
      [] q.how = "iname" -> Chk("instance name of " \o ToString(q.at), IName(S, q.at), q.res)
      [] q.how = "dpath" -> Chk("data path of " \o ToString(q.at), DataPathText(S, q.at), q.res)
      [] q.how = "dparent" -> Chk("data parent of " \o ToString(q.at), DataParent(S, q.at), q.res)
      [] q.how = "state" -> LET e == {DataPathText(S, p) : p \in StateRoots(S, q.at)} IN
                            If(Rng(q.res) # e \/ Len(q.res) # Cardinality(e), Exp("state roots of " \o ToString(q.at), e))
      [] q.how = "split" -> Chk("split route", SplitAt(S, q.at, q.r), q.res)
      [] q.how = "tree" -> TreeDiff(S, "", q.lines, <<q.types, q.counts>>, "the root")
      [] q.how = "digest" -> DigestDiff(S, <<>>, q.res, "true", "")
      [] q.how = "all" ->     \* nodes in the schema
           LET R == AllRoutes(S) IN If(Rng(q.res) # R, Exp("nodes of the schema", <<Rng(q.res) \ R, R \ Rng(q.res)>>))
      [] q.how = "err" -> {q.what \o " raised " \o q.exc}
AddrClauses(e) == LET S == Schema(FilesOf(e)) IN
                  UNION {QueryClauses(S, e.qs[i]) : i \in 1..Len(e.qs)}
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE Ev_.op = "addr" -> Report(l, AddrClauses(Ev_))
=============================================================================
