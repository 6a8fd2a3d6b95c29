---------------------------- MODULE TraceLibrary ----------------------------
(***************************************************************************)
(* Judges recorded loads of YANG libraries.                                 *)
(***************************************************************************)
EXTENDS Library, TraceBase, FiniteSets
VARIABLE l

Ev_ == Trace[l]
Entry(x) == [n |-> x.n, r |-> x.r, ns |-> x.ns, impl |-> x.impl, ft |-> Rng(x.ft), subs |-> x.subs]
Lib(e, order) == [i \in 1..Len(order) |-> Entry(e.lib[order[i]])]
Chk(what, exp, got) == If(got # exp, Exp(what, exp))
\* the recorded module data: [id, main, ft, ns, px, subs, tag]
ModClauses(L, D, m) ==
    LET id == m.id IN
    Chk("main module of " \o ToString(id), MainOf(L, id), m.main)
    \cup (IF id \in MainIds(L)
          THEN Chk("features of " \o ToString(id), EntryOf(L, id).ft, Rng(m.ft)) \cup Chk("namespace of " \o ToString(id), EntryOf(L, id).ns, m.ns)
               \cup Chk("submodules of " \o ToString(id), SubIds(EntryOf(L, id)), Rng(m.subs)) ELSE {})
    \cup Chk("prefixes of " \o ToString(id), Prefixes(L, D, id), Rng(m.px))
    \cup Chk("text of " \o ToString(id), Text0(D, id).tag, m.tag)
    \cup Chk("file of " \o ToString(id), Text0(D, id).path, m.path)
PfxOf(L, D, id, p) == {x \in Prefixes(L, D, id) : x[1] = p}
\* queries and documented exceptions
Resolve(L, D, id, p, n) ==
    IF id \notin Ids(L) THEN <<"err", "ModuleNotRegistered">>
    ELSE IF p = "" THEN <<"ok", n, MainOf(L, id)>>
    ELSE LET S == PfxOf(L, D, id, p) IN IF S = {} THEN <<"err", "UnknownPrefix">> ELSE <<"ok", n, (CHOOSE x \in S : TRUE)[2]>>
QueryExp(L, D, q) ==
    CASE q.how = "namespace" -> IF q.id \in Ids(L) THEN <<"ok", MainOf(L, q.id)[1]>> ELSE <<"err", "ModuleNotRegistered">>
      [] q.how = "last" -> LET S == Revisions(L, q.n) IN IF S = {} THEN <<"err", "ModuleNotRegistered">> ELSE <<"ok", Latest(S)>>
      [] q.how = "prefix2ns" -> LET r == Resolve(L, D, q.id, q.p, "x") IN
                                IF r[1] = "err" THEN r ELSE <<"ok", r[3][1]>>
      [] q.how = "resolve" -> Resolve(L, D, q.id, q.p, q.n)
      [] q.how = "translate" -> LET r == Resolve(L, D, q.id, q.p, q.n) IN IF r[1] = "err" THEN r ELSE <<"ok", <<r[2], r[3][1]>>>>
QueryClauses(L, D, q) ==
    IF q.how = "prefix"
    THEN LET I == {x \in Implemented(L) : x[1] = q.n} IN
         IF I = {} THEN Chk("prefix " \o q.n, <<"err", "ModuleNotImplemented">>, q.res)
         ELSE IF q.id \notin Ids(L) THEN Chk("prefix in " \o ToString(q.id), <<"err", "ModuleNotRegistered">>, q.res)
         ELSE LET S == {x[1] : x \in {y \in Prefixes(L, D, q.id) : y[2] \in I}} IN
              IF S = {} THEN Chk("prefix of " \o q.n \o " in " \o ToString(q.id), <<"err", "ModuleNotImported">>, q.res)
              ELSE If(q.res \notin {<<"ok", p>> : p \in S}, Exp("prefix of " \o q.n \o " in " \o ToString(q.id), S))
    ELSE Chk(q.how \o " of " \o ToString(q.id), QueryExp(L, D, q), q.res)
RunClauses(e, r) ==
    LET L == Lib(e, r.order) D == e.disk R == Refusals(L, D) IN
    IF e.bad # "" THEN If(r.out \notin {<<"err", x>> : x \in {"BadYangLibraryData"} \cup (IF e.bad = "no-id" THEN {} ELSE R)}, Exp("library with " \o e.bad, "BadYangLibraryData"))
    ELSE IF R # {} THEN If(r.out \notin {<<"err", x>> : x \in R}, Exp("refusal", R))
    ELSE Chk("outcome", <<"ok">>, r.out) \cup
         IF r.out # <<"ok">> THEN {} ELSE
         Chk("modules", Ids(L), {r.mods[i].id : i \in 1..Len(r.mods)})
         \cup UNION {IF r.mods[i].id \in Ids(L) THEN ModClauses(L, D, r.mods[i]) ELSE {} : i \in 1..Len(r.mods)}
         \cup Chk("implemented modules", Implemented(L), Rng(r.impl))
         \cup If(\E i \in 1..Len(r.seq) : r.seq[i] \in Implemented(L) /\
                    \E x \in DependsOn(L, D, r.seq[i]) : ~\E j \in 1..(i - 1) : r.seq[j] = x, "an import is processed after its importer")
         \cup Chk("schema nodes", Nodes(L, D), Rng(r.nodes))
         \cup If(\E i \in 1..Len(r.nodes), j \in 1..Len(r.nodes) : i # j /\ r.nodes[i][1] = r.nodes[j][1], "repeated schema nodes")
         \cup If({x[1] : x \in Rng(r.byname)} # {id[1] : id \in Ids(L)} \/
                 \E x \in Rng(r.byname) : x[2] \notin Ids(L) \/ x[2][1] # x[1], "modules by name")
         \cup If(\E i \in 1..Len(L) : ~\E x \in Rng(r.byns) : x[1] = L[i].ns /\ x[2] \in MainIds(L) /\ EntryOf(L, x[2]).ns = x[1], "modules by namespace")
         \cup UNION {QueryClauses(L, D, r.qs[i]) : i \in 1..Len(r.qs)}
LoadClauses(e) ==
    UNION {RunClauses(e, e.runs[i]) : i \in 1..Len(e.runs)}
    \* hash randomization does not matter, nor the order of entries as far as the set of modules goes
    \cup UNION {LET a == e.runs[i] b == e.runs[j] IN
                If(a.order = b.order /\ (a.text # b.text \/ a.out # b.out), "runs with different hash seeds differ")
                \cup If(a.out = b.out /\ a.msid # b.msid, "module_set_id depends on the order of entries")
               : i \in 1..Len(e.runs), j \in 1..Len(e.runs)}
IdClauses(e) ==   \* different sets of modules
    If(\E i \in 1..Len(e.ids), j \in 1..Len(e.ids) : e.ids[i][1] # e.ids[j][1] /\ e.ids[i][2] = e.ids[j][2]
                                                     /\ Rng(e.ids[i][1]) # Rng(e.ids[j][1]), "equal identifiers of different module sets")
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE Ev_.op = "load" -> Report(l, LoadClauses(Ev_))
             [] Ev_.op = "ids" -> Report(l, IdClauses(Ev_))
=============================================================================
