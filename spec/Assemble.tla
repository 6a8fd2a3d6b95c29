------------------------------ MODULE Assemble ------------------------------
(***************************************************************************)
(* From modules to the schema tree (RFC 7950).                              *)
(*                                                                         *)
(* A statement is <<keyword, argument, substatements>>.  F is a sequence of *)
(* files (modules and submodules)                                           *)
(*   [n, m, px, ft  as in Features.tla, impl |-> is the module implemented? *)
(*    st |-> substatements of the (sub)module]                              *)
(* A schema node is a record with its qualified name q, kind k, children ch  *)
(* (a sequence whose order means nothing) and properties:                    *)
(*   cf   explicit config ("" if none)    mand  mandatory                    *)
(*   pres presence                        min, max (-1: unbounded)           *)
(*   usr  ordered by user                 df    defaults                     *)
(*   un   units ("" if none)              keys, uniq                          *)
(*   must, when  conditions               gw    conditions of the uses and    *)
(*        augment statements that made it ty    type                          *)
(*   desc description                     sta   stated status ("" if none)    *)
(*   deny default access (RFC 8341): "none", "write" or "all"               *)
(*   gs   status of the augment statements that made it ("" if none)         *)
(***************************************************************************)
EXTENDS Features, SequencesExt

Kw(s) == s[1]
Arg(s) == s[2]
Sub(s) == s[3]
\* arguments of the substatements with a keyword
ArgsOf(ss, k) == LET t == SelectSeq(ss, LAMBDA x : x[1] = k) IN [i \in 1..Len(t) |-> t[i][2]]
FirstOf(ss, k, dflt) == LET t == ArgsOf(ss, k) IN IF t = <<>> THEN dflt ELSE t[1]
Has1(ss, k) == ArgsOf(ss, k) # <<>>
RECURSIVE FlatSeq(_)
FlatSeq(q) == IF q = <<>> THEN <<>> ELSE q[1] \o FlatSeq(Tail(q))
Map(q, Op(_)) == [i \in 1..Len(q) |-> Op(q[i])]

Enabled(F, f, s) == \A x \in Rng(ArgsOf(Sub(s), "if-feature")) : IfFeature(F, f, x) = "yes"

\* -- names
PfxOf(nm) == LET k == Find(nm, ":") IN IF k = 0 THEN "" ELSE SubSeq(nm, 1, k - 1)
LocOf(nm) == LET k == Find(nm, ":") IN From(nm, k + 1)
ModOf(F, f, p) == IF p = "" THEN FileOf(F, f).m ELSE FileOf(F, f).px[p]
\* node identifier in file f where unprefixed names belong to ns
NodeId(F, f, ns, nm) == <<LocOf(nm), IF PfxOf(nm) = "" THEN ns ELSE FileOf(F, f).px[PfxOf(nm)]>>
PathOf(F, f, ns, txt) == LET p == SelectSeq(Split(txt, "/"), LAMBDA x : x # "") IN
                         [i \in 1..Len(p) |-> NodeId(F, f, ns, p[i])]

\* -- definitions: searched in the enclosing statements (innermost first), then at
\* the top level of the files of the module.  Result: [f, s, sc] with the scope of s
RECURSIVE InScope(_, _, _, _)
InScope(sc, kw, nm, i) ==
    IF i > Len(sc) THEN <<>>
    ELSE LET d == SelectSeq(Sub(sc[i]), LAMBDA x : x[1] = kw /\ x[2] = nm) IN
         IF d # <<>> THEN <<d[1], SubSeq(sc, i, Len(sc))>> ELSE InScope(sc, kw, nm, i + 1)
Definition(F, f, sc, kw, nm) ==
    LET m == ModOf(F, f, PfxOf(nm))
        loc == IF m = FileOf(F, f).m THEN InScope(sc, kw, LocOf(nm), 1) ELSE <<>>
        g == CHOOSE i \in {i \in 1..Len(F) : F[i].m = m} :
                \E x \in Rng(F[i].st) : x[1] = kw /\ x[2] = LocOf(nm)
    IN IF loc # <<>> THEN [f |-> f, s |-> loc[1], sc |-> loc[2]]
       ELSE [f |-> F[g].n, s |-> SelectSeq(F[g].st, LAMBDA x : x[1] = kw /\ x[2] = LocOf(nm))[1], sc |-> <<>>]

\* -- types
Builtin == {"string", "int32", "boolean", "enumeration", "bits", "uint8", "decimal64", "empty", "binary"}
RECURSIVE TypeOf(_, _, _, _)
\* t: type statement
TypeOf(F, f, sc, t) ==
    IF Arg(t) \in Builtin
    THEN LET es == SelectSeq(Sub(t), LAMBDA x : x[1] \in {"enum", "bit"} /\ Enabled(F, f, x))
         IN [b |-> Arg(t), en |-> {Arg(es[i]) : i \in 1..Len(es)}, df |-> <<>>, un |-> "", nm |-> ""]
    ELSE LET d == Definition(F, f, sc, "typedef", Arg(t))
             b == TypeOf(F, d.f, <<d.s>> \o d.sc, SelectSeq(Sub(d.s), LAMBDA x : x[1] = "type")[1])
         IN [b EXCEPT !.df = IF Has1(Sub(d.s), "default") THEN <<FirstOf(Sub(d.s), "default", "")>> ELSE @,
                      !.un = FirstOf(Sub(d.s), "units", @), !.nm = LocOf(Arg(t))]
NoType == [b |-> "", en |-> {}, df |-> <<>>, un |-> "", nm |-> ""]

DataKw == {"container", "leaf", "leaf-list", "list", "choice", "anydata", "anyxml"}
OpKw == {"rpc", "action", "notification"}
NodeKw == DataKw \cup OpKw \cup {"case"}
Kind(k) == IF k = "action" THEN "rpc" ELSE k
MaxOf(x) == IF x = "unbounded" THEN -1 ELSE Nat10(x)
Bare(q, k) == [q |-> q, k |-> k, ch |-> <<>>, cf |-> "", mand |-> FALSE, pres |-> FALSE, min |-> 0, max |-> -1,
               usr |-> FALSE, df |-> <<>>, un |-> "", keys |-> <<>>, uniq |-> <<>>, must |-> <<>>, when |-> <<>>,
               gw |-> <<>>, ty |-> NoType, desc |-> "", sta |-> "", gs |-> "", deny |-> "none"]
\* statements of the access control module; those of the same name in other modules mean nothing
Deny(F, f, ss) == LET t == SelectSeq(ss, LAMBDA x : PfxOf(x[1]) # "" /\ LocOf(x[1]) \in {"default-deny-all", "default-deny-write"}
                                                   /\ ModOf(F, f, PfxOf(x[1])) = "ietf-netconf-acm")
                  IN IF t = <<>> THEN "none" ELSE From(LocOf(t[1][1]), 14)
KeyArg(F, f, ns, a) == LET w == Words(a) IN [i \in 1..Len(w) |-> NodeId(F, f, ns, w[i])]
UniqArg(F, f, ns, a) == LET w == Words(a) IN [i \in 1..Len(w) |-> PathOf(F, f, ns, w[i])]
Defaults(F, f, ns, k, as) == IF k = "choice" THEN [i \in 1..Len(as) |-> NodeId(F, f, ns, as[i])] ELSE as

\* properties that the substatements ss say about node n (new node, or refine)
Props(F, f, ns, n, ss) ==
    [n EXCEPT !.cf = FirstOf(ss, "config", @),
              !.mand = IF Has1(ss, "mandatory") THEN FirstOf(ss, "mandatory", "") = "true" ELSE @,
              !.pres = @ \/ Has1(ss, "presence"),
              !.min = IF Has1(ss, "min-elements") THEN Nat10(FirstOf(ss, "min-elements", "")) ELSE @,
              !.max = IF Has1(ss, "max-elements") THEN MaxOf(FirstOf(ss, "max-elements", "")) ELSE @,
              !.df = IF Has1(ss, "default") THEN Defaults(F, f, ns, n.k, ArgsOf(ss, "default")) ELSE @,
              !.must = @ \o ArgsOf(ss, "must"),
              !.desc = FirstOf(ss, "description", @)]

RECURSIVE Nodes(_, _, _, _, _, _), Node(_, _, _, _, _), UsesNodes(_, _, _, _, _, _), Exists(_, _), Get(_, _), Put(_, _, _)
\* the nodes that statements ss define; in: kind of the parent
Nodes(F, f, ns, sc, ss, in) ==
    FlatSeq(Map(ss, LAMBDA s :
        IF Kw(s) = "uses" THEN UsesNodes(F, f, ns, sc, s, in)
        ELSE IF Kw(s) \notin NodeKw THEN <<>>
        ELSE IF in = "choice" /\ Kw(s) # "case"
        THEN <<[Bare(<<Arg(s), ns>>, "case") EXCEPT !.ch = IF Enabled(F, f, s) THEN <<Node(F, f, ns, sc, s)>> ELSE <<>>]>>
        ELSE IF Enabled(F, f, s) THEN <<Node(F, f, ns, sc, s)>> ELSE <<>>))
Node(F, f, ns, sc, s) ==
    LET ss == Sub(s) k == Kind(Kw(s)) q == <<Arg(s), ns>> sc2 == <<s>> \o sc
        io(kw) == [Bare(<<kw, ns>>, kw) EXCEPT
                   !.ch = FlatSeq(Map(SelectSeq(ss, LAMBDA x : x[1] = kw), LAMBDA x : Nodes(F, f, ns, <<x>> \o sc2, Sub(x), kw))),
                   !.must = FlatSeq(Map(SelectSeq(ss, LAMBDA x : x[1] = kw), LAMBDA x : ArgsOf(Sub(x), "must")))]
        n == [Bare(q, k) EXCEPT
                !.ch = IF k = "rpc" THEN <<io("input"), io("output")>> ELSE Nodes(F, f, ns, sc2, ss, k),
                !.usr = FirstOf(ss, "ordered-by", "system") = "user",
                !.un = FirstOf(ss, "units", ""),
                !.keys = KeyArg(F, f, ns, FirstOf(ss, "key", "")),
                !.uniq = Map(ArgsOf(ss, "unique"), LAMBDA a : UniqArg(F, f, ns, a)),
                !.when = ArgsOf(ss, "when"),
                !.ty = IF k \in {"leaf", "leaf-list"} THEN TypeOf(F, f, sc2, SelectSeq(ss, LAMBDA x : x[1] = "type")[1]) ELSE @,
                !.sta = FirstOf(ss, "status", ""), !.deny = Deny(F, f, ss)]
    IN Props(F, f, ns, n, ss)

Exists(ns_, path) == \E n \in Rng(ns_) : n.q = path[1] /\ (Len(path) = 1 \/ Exists(n.ch, Tail(path)))
Get(ns_, path) == LET n == CHOOSE n \in Rng(ns_) : n.q = path[1] IN IF Len(path) = 1 THEN n ELSE Get(n.ch, Tail(path))
\* the node at a path (if there is one) replaced by a sequence of nodes
Put(ns_, path, r) == FlatSeq(Map(ns_, LAMBDA n : IF n.q # path[1] THEN <<n>>
                                                 ELSE IF Len(path) = 1 THEN r
                                                 ELSE <<[n EXCEPT !.ch = Put(@, Tail(path), r)]>>))
Edit(ns_, path, Op(_)) == IF Exists(ns_, path) THEN Put(ns_, path, Op(Get(ns_, path))) ELSE ns_

Guarded(ws, st, nodes) == Map(nodes, LAMBDA n : [n EXCEPT !.gw = ws \o @, !.gs = IF @ = "" THEN st ELSE @])
Augmented(F, f, ns, sc, nodes, path, s) ==
    Edit(nodes, path, LAMBDA n : <<[n EXCEPT !.ch = @ \o Guarded(ArgsOf(Sub(s), "when"), FirstOf(Sub(s), "status", ""),
                                                                  Nodes(F, f, ns, <<s>> \o sc, Sub(s), n.k))]>>)
UsesNodes(F, f, ns, sc, s, in) ==
    IF ~Enabled(F, f, s) THEN <<>>
    ELSE LET g == Definition(F, f, sc, "grouping", Arg(s))
             base == Nodes(F, g.f, ns, <<g.s>> \o g.sc, Sub(g.s), in)
             augs == SelectSeq(Sub(s), LAMBDA x : x[1] = "augment" /\ Enabled(F, f, x))
             refs == SelectSeq(Sub(s), LAMBDA x : x[1] = "refine")
             Aug(b, x) == Augmented(F, f, ns, <<s>> \o sc, b, PathOf(F, f, ns, Arg(x)), x)
             Ref(b, x) == Edit(b, PathOf(F, f, ns, Arg(x)), LAMBDA n : IF Enabled(F, f, x)
                                                                        THEN <<Props(F, f, ns, n, Sub(x))>> ELSE <<>>)
             a == FoldLeft(Aug, base, augs)
         IN Guarded(ArgsOf(Sub(s), "when"), "", FoldLeft(Ref, a, refs))

\* -- top level: data definitions, then augments until nothing more applies (their order
\* means nothing), then deviations
RECURSIVE Fix(_, _, _)
\* A: sequence of <<file, augment statement>>
Fix(F, root, A) ==
    LET ready == {i \in 1..Len(A) : Exists(root, PathOf(F, A[i][1], FileOf(F, A[i][1]).m, Arg(A[i][2])))} IN
    IF ready = {} THEN root
    ELSE LET i == CHOOSE i \in ready : \A j \in ready : i <= j
             f == A[i][1] m == FileOf(F, f).m
         IN Fix(F, Augmented(F, f, m, <<>>, root, PathOf(F, f, m, Arg(A[i][2])), A[i][2]),
                SubSeq(A, 1, i - 1) \o SubSeq(A, i + 1, Len(A)))
Without(seq, xs) == SelectSeq(seq, LAMBDA x : x \notin xs)
Deviate(F, f, n, d) ==
    LET ss == Sub(d) ns == FileOf(F, f).m
        dfs == Defaults(F, f, ns, n.k, ArgsOf(ss, "default"))
        uqs == Map(ArgsOf(ss, "unique"), LAMBDA a : UniqArg(F, f, ns, a))
    IN CASE Arg(d) = "add" ->
              [Props(F, f, ns, n, SelectSeq(ss, LAMBDA x : x[1] \notin {"default", "description"})) EXCEPT
                 !.un = FirstOf(ss, "units", @), !.uniq = @ \o uqs,
                 !.df = IF n.k = "leaf-list" THEN @ \o dfs ELSE IF dfs = <<>> THEN @ ELSE dfs]
         [] Arg(d) = "replace" ->
              [Props(F, f, ns, n, SelectSeq(ss, LAMBDA x : x[1] # "description")) EXCEPT
                 !.un = FirstOf(ss, "units", @),
                 !.ty = IF Has1(ss, "type") THEN TypeOf(F, f, <<d>>, SelectSeq(ss, LAMBDA x : x[1] = "type")[1]) ELSE @]
         [] Arg(d) = "delete" ->
              [n EXCEPT !.un = IF Has1(ss, "units") THEN "" ELSE @,
                        !.df = Without(@, Rng(dfs)), !.must = Without(@, Rng(ArgsOf(ss, "must"))),
                        !.uniq = Without(@, Rng(uqs))]
Deviated(F, root, fd) ==
    LET f == fd[1]
        ds == SelectSeq(Sub(fd[2]), LAMBDA x : x[1] = "deviate")
    IN Edit(root, PathOf(F, f, FileOf(F, f).m, Arg(fd[2])), LAMBDA n :
          IF \E x \in Rng(ds) : Arg(x) = "not-supported" THEN <<>>
          ELSE <<FoldLeft(LAMBDA a, x : Deviate(F, f, a, x), n, ds)>>)
TopStmts(F, kw) == FlatSeq(Map(SelectSeq(F, LAMBDA x : x.impl), LAMBDA x :
                       Map(SelectSeq(x.st, LAMBDA s : s[1] = kw), LAMBDA s : <<x.n, s>>)))
Augments(F) == SelectSeq(TopStmts(F, "augment"), LAMBDA a : Enabled(F, a[1], a[2]))
Assembled(F) ==
    LET impl == SelectSeq(F, LAMBDA x : x.impl)
        top == FlatSeq(Map(impl, LAMBDA x : Nodes(F, x.n, x.m, <<>>, x.st, "module")))
    IN FoldLeft(LAMBDA r, d : Deviated(F, r, d), Fix(F, top, Augments(F)), TopStmts(F, "deviation"))

\* -- effective properties; cfg: config of the parent ("-": not applicable),
\* sta: its status (operations are trees of their own and start anew)
RECURSIVE Effective(_, _, _, _)
Effective(n, cfg, key, sta) ==
    LET s == IF n.sta # "" THEN n.sta ELSE IF n.k \in OpKw THEN "current" ELSE IF n.gs # "" THEN n.gs ELSE sta
        c == IF n.k \in OpKw THEN "-" ELSE IF cfg = "-" THEN "-" ELSE IF n.cf # "" THEN n.cf ELSE cfg
        mand == n.mand \/ key
    IN [q |-> n.q, k |-> n.k, cf |-> c, mand |-> mand, pres |-> n.pres, min |-> n.min, max |-> n.max, usr |-> n.usr,
        df |-> IF mand \/ n.min > 0 THEN <<>> ELSE IF n.df # <<>> THEN n.df ELSE n.ty.df,
        un |-> IF n.un # "" THEN n.un ELSE n.ty.un,
        keys |-> n.keys, uniq |-> Rng(n.uniq), must |-> n.must, when |-> n.when, gw |-> n.gw,
        b |-> n.ty.b, tn |-> n.ty.nm, en |-> n.ty.en, desc |-> n.desc, sta |-> s, deny |-> n.deny,
        ch |-> [i \in 1..Len(n.ch) |-> Effective(n.ch[i], c, n.ch[i].q \in Rng(n.keys), s)]]
Schema(F) == LET r == Assembled(F) IN [i \in 1..Len(r) |-> Effective(r[i], "true", FALSE, "current")]
=============================================================================
