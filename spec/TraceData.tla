----------------------------- MODULE TraceData ----------------------------
(***************************************************************************)
(* Judges recorded XPath evaluations, default completions and validations. *)
(* State: the schema and the current instance tree.                        *)
(***************************************************************************)
EXTENDS Validate, TraceBase
VARIABLES l, S, ID, T, D,
          CN      \* validation counters, by schema node

Ev_ == Trace[l]

\* instance routes of the trace: <<"m", name>>, <<"k", pairs>>, <<"v", value>>, <<"p", pos>>
RECURSIVE RouteTo(_, _, _, _)
RouteTo(t, rt, k, p) ==
    IF k > Len(rt) THEN {p}
    ELSE IF ~Exists(t, p) THEN {}
    ELSE LET v == At(t, p) s == rt[k] IN
         CASE s[1] = "m" -> IF v[1] = "o" /\ s[2] \in DOMAIN v[2] THEN RouteTo(t, rt, k + 1, Append(p, s[2])) ELSE {}
           [] v[1] # "a" -> {}
           [] s[1] = "p" -> IF s[2] \in 1..Len(v[2]) THEN RouteTo(t, rt, k + 1, Append(p, s[2])) ELSE {}
           [] OTHER -> UNION {RouteTo(t, rt, k + 1, Append(p, i)) : i \in
                 {j \in 1..Len(v[2]) :
                    IF s[1] = "v" THEN v[2][j] = Val(s[2])
                    ELSE v[2][j][1] = "o" /\ \A x \in 1..Len(s[2]) :
                        s[2][x][1] \in DOMAIN v[2][j][2] /\ v[2][j][2][s[2][x][1]] = Val(s[2][x][2])}}
Routes(t, rs) == [x \in {rs[i][1] : i \in 1..Len(rs)} |->
                    RouteTo(t, rs[CHOOSE i \in 1..Len(rs) : rs[i][1] = x][2], 1, <<>>)]

Same(x, r) == CASE x[1] = "ns" -> r[1] = "ns" /\ Rng(r[2]) = x[2] /\ Len(r[2]) = Cardinality(x[2])
                [] x[1] = "n" -> r = x \/ (IsZero(x) /\ r[1] = "n" /\ IsZero(r) /\ r[3] = x[3])
                [] OTHER -> r = x

XPathClauses(e) == LET x == Eval(D, e.x, e.n) IN
    IF e.out[1] = "err" THEN {"evaluation failed with " \o e.out[2]}
    ELSE IF Undef(x) THEN {} ELSE If(~Same(x, e.out), Exp("wrong result", x))

CtBits(ct) == CASE ct = "config" -> 1 [] ct = "nonconfig" -> 2 [] OTHER -> 3
\* annotations of default values: members added by completion, "@" names
RECURSIVE TagsAdded(_, _, _)
\* set of positions of members in b that are not in a (at the topmost level)
TagsAdded(a, b, p) ==
    IF b[1] = "o" /\ a[1] = "o"
    THEN UNION {IF m \in DOMAIN a[2] THEN TagsAdded(a[2][m], b[2][m], Append(p, m))
                ELSE {Append(p, m)} : m \in DOMAIN b[2]}
    ELSE IF b[1] = "a" /\ a[1] = "a" /\ Len(a[2]) = Len(b[2])
    THEN UNION {TagsAdded(a[2][i], b[2][i], Append(p, i)) : i \in 1..Len(b[2])}
    ELSE {}
DefClauses(e) ==
    LET c == Complete(S, T, ID, D.RT, CtBits(e.ct)) IN
    IF e.out[1] = "err" THEN {"add_defaults failed with " \o e.out[2]}
    ELSE If(Val(e.out[2]) # At(c, e.n), Exp("defaults", At(c, e.n)))
         \cup If(e.again # e.out[2], "not idempotent")
         \cup If(e.tagged # e.out[2], "tagging changes the data")
         \cup LET tg == TagsAdded(At(T, e.n), At(c, e.n), <<>>) IN
              If({e.tags[i] : i \in 1..Len(e.tags)} # tg, Exp("tags", tg))
\* a node whose own condition is false may not exist: the result of a validation
\* that starts at such a node is not specified
RECURSIVE DataParentPos(_)
DataParentPos(p) == IF p = <<>> THEN <<>>
                    ELSE IF At(T, Parent(p))[1] = "a" THEN DataParentPos(Parent(p)) ELSE Parent(p)
MayStart(p) == p = <<>> \/ CondsHold(D, Snode(S, T, p), DataParentPos(p)) = "t"
ValidClauses(e) == IF ~MayStart(e.n) THEN {} ELSE
    LET vs == Viol(D, Snode(S, T, e.n), At(T, e.n), e.n, e.scope \in {"syntax", "all"}, e.scope \in {"semantics", "all"}, CtBits(e.ct))
        tag == CASE e.out[1] = "err" /\ e.out[3] \in {"config member-not-allowed", "nonconfig member-not-allowed"} -> "member-not-allowed"
                 [] e.out[1] = "err" -> e.out[3] [] OTHER -> ""
    IN IF e.out[1] = "ok" THEN If(vs # {}, Exp("accepted", vs))
       ELSE If(V(e.out[2], tag, e.out[4]) \notin vs,
               Exp(IF vs = {} THEN "rejected" ELSE "wrong error", vs))

\* instances of data nodes in the value v of node n: <<position, schema node>>
RECURSIVE Insts(_, _, _)
Insts(n, v, p) ==
    IF v[1] = "a" THEN UNION {Insts(n, v[2][i], Append(p, i)) : i \in 1..Len(v[2])}
    ELSE {<<p, n>>} \cup IF v[1] # "o" \/ S[n].k = "anydata" THEN {}
                         ELSE UNION {Insts(Kid(S, n, m), v[2][m], Append(p, m)) : m \in DOMAIN v[2]}
\* a successful validation uses every schema node once for each of its instances
Counted(e) == LET is == Insts(Snode(S, T, e.n), At(T, e.n), e.n) IN
              [i \in 1..Len(S) |-> CN[i] + Cardinality({x \in is : x[2] = i})]
CountClauses(e) == UNION {If(S[i].k \in {"root", "container", "list", "leaf", "leaf-list", "anydata"} /\ e.c[i] # CN[i],
                             Exp("validation count of " \o S[i].nm \o " is " \o ToString(e.c[i]), CN[i])) : i \in 1..Len(S)}

Init == l = 1 /\ S = <<>> /\ ID = <<>> /\ T = EmptyObj /\ D = <<>> /\ CN = <<>>
Step(f) == UNCHANGED <<S, ID, T, D, CN>> /\ Report(l, f)
Load == /\ S' = Ev_.schema /\ ID' = Ev_.idents /\ T' = EmptyObj /\ D' = <<>> /\ CN' = <<>>
        /\ Report(l, If(~WellFormed(Ev_.schema), "HARNESS: schema table"))
Tree == LET t == Val(Ev_.tree)
            b == Accessible(S, t, ID, EmptyF)
        IN /\ UNCHANGED <<S, ID, CN>>
           /\ T' = t
           /\ D' = Doc(S, b, ID, Routes(b, Ev_.rt))
           /\ Report(l, {})
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE Ev_.op = "load" -> Load
             [] Ev_.op = "tree" -> Tree
             [] Ev_.op = "xpath" -> Step(XPathClauses(Ev_))
             [] Ev_.op = "defaults" -> Step(DefClauses(Ev_))
             [] Ev_.op = "valid" -> Step(ValidClauses(Ev_))
             [] Ev_.op = "clear" -> CN' = [i \in 1..Len(S) |-> 0] /\ UNCHANGED <<S, ID, T, D>> /\ Report(l, {})
             [] Ev_.op = "counted" -> CN' = Counted(Ev_) /\ UNCHANGED <<S, ID, T, D>> /\ Report(l, {})
             [] Ev_.op = "counts" -> Step(CountClauses(Ev_))
             \* outcomes that must coincide with an earlier one
             [] Ev_.op = "same" -> Step(If(Ev_.a # Ev_.b, Ev_.what \o " differs"))
=============================================================================
