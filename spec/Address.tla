------------------------------- MODULE Address -------------------------------
(***************************************************************************)
(* Addressing the nodes of a schema S (a sequence of nodes as in           *)
(* Assemble.tla): schema paths, data paths, instance names, state data     *)
(* roots, and the two renderings of a schema (ASCII tree and digest).       *)
(*                                                                         *)
(* A node is identified by its schema route, the sequence of the qualified  *)
(* names <<name, module>> of its ancestors-or-self; <<>> is the root.       *)
(***************************************************************************)
EXTENDS Assemble

DataK == {"container", "leaf", "leaf-list", "list", "anydata", "anyxml"}
InnerK == {"container", "list", "choice", "case", "rpc", "notification", "input", "output"}
IoK == {"input", "output"}
Has(S, p) == p = <<>> \/ Exists(S, p)
At1(S, p) == Get(S, p)
KidsOf(S, p) == IF p = <<>> THEN S ELSE Get(S, p).ch
KindAt(S, p) == IF p = <<>> THEN "root" ELSE Get(S, p).k
\* is a strict ancestor of p an operation?
InsideOp(S, p) == \E i \in 1..(Len(p) - 1) : KindAt(S, SubSeq(p, 1, i)) \in OpKw
IsOp(S, p) == KindAt(S, p) \in OpKw
\* nodes that are part of a data tree
IsData(S, p) == KindAt(S, p) \in DataK
DataNodes(S, R) == {p \in R : IsData(S, p) /\ ~InsideOp(S, p)}
RECURSIVE Routes(_, _)
Routes(ns_, pre) == UNION {{Append(pre, n.q)} \cup Routes(n.ch, Append(pre, n.q)) : n \in Rng(ns_)}
AllRoutes(S) == Routes(S, <<>>)

\* -- the data nodes directly below a node (choices and cases don't count), as the
\* rest of their schema routes
RECURSIVE Below(_)
Below(ns_) == UNION {CASE n.k \in {"choice", "case"} -> {<<n.q>> \o x : x \in Below(n.ch)}
                       [] n.k \in DataK \cup IoK -> {<<n.q>>}
                       [] OTHER -> {} : n \in Rng(ns_)}
DataChildren(S, p) == IF KindAt(S, p) \in InnerK \cup {"root"} THEN {p \o x : x \in Below(KidsOf(S, p))} ELSE {}
\* lookups: <<route>> or <<>>
Child(S, p, q) == IF Exists(KidsOf(S, p), <<q>>) THEN <<Append(p, q)>> ELSE <<>>
DataChild(S, p, q) == LET c == {x \in DataChildren(S, p) : Last(x) = q} IN
                      IF c = {} THEN <<>> ELSE <<CHOOSE x \in c : TRUE>>
RECURSIVE Follow(_, _, _), FollowData(_, _, _)
Follow(S, p, r) == IF r = <<>> THEN <<p>>
                   ELSE LET c == Child(S, p, r[1]) IN IF c = <<>> THEN <<>> ELSE Follow(S, c[1], Tail(r))
FollowData(S, p, r) == IF r = <<>> THEN <<p>>
                       ELSE LET c == DataChild(S, p, r[1]) IN IF c = <<>> THEN <<>> ELSE FollowData(S, c[1], Tail(r))

\* -- textual paths.  <<"ok", route>>, <<"bad">>, or <<"open">> (empty names)
RECURSIVE Comps(_, _, _)
Comps(cs, prev, acc) ==
    IF cs = <<>> THEN <<"ok", acc>>
    ELSE LET p == PfxOf(cs[1]) m == IF p = "" THEN prev ELSE p IN
         IF p = prev \/ m = "" THEN <<"bad">> ELSE Comps(Tail(cs), m, Append(acc, <<LocOf(cs[1]), m>>))
OddName(c) == LocOf(c) = "" \/ Find(LocOf(c), ":") # 0 \/ Find(c, ":") = 1
ParsePath(t) ==
    LET cs == Split(IF StartsWith(t, "/") THEN From(t, 2) ELSE t, "/") IN
    IF t \in {"", "/"} THEN <<"ok", <<>>>>
    ELSE IF \E i \in 1..Len(cs) : OddName(cs[i]) THEN <<"open">>
    ELSE IF PfxOf(cs[1]) = "" THEN <<"bad">> ELSE Comps(cs, "", <<>>)
\* path of a sequence of qualified names: qualified where the module changes
PathText(r) == Join([i \in 1..Len(r) |-> "/" \o (IF i > 1 /\ r[i - 1][2] = r[i][2] THEN "" ELSE r[i][2] \o ":") \o r[i][1]], "")
\* qualified names of the data nodes on the route to p
DataRoute(S, p) == LET ks == SelectSeq([i \in 1..Len(p) |-> i], LAMBDA i : i = Len(p) \/ KindAt(S, SubSeq(p, 1, i)) \in DataK)
                   IN [i \in 1..Len(ks) |-> p[ks[i]]]
DataPathText(S, p) == PathText(DataRoute(S, p))
DataParent(S, p) == LET c == {i \in 1..(Len(p) - 1) : KindAt(S, SubSeq(p, 1, i)) \in DataK \cup IoK} IN
                    IF c = {} THEN <<>> ELSE SubSeq(p, 1, CHOOSE i \in c : \A j \in c : j <= i)
IName(S, p) == LET d == DataParent(S, p) IN
               IF d # <<>> /\ Last(d)[2] = Last(p)[2] THEN Last(p)[1] ELSE Last(p)[2] \o ":" \o Last(p)[1]

\* -- roots of state data at or below p
RECURSIVE StateRoots(_, _)
StateRoots(S, p) == IF p # <<>> /\ Get(S, p).cf = "false" THEN {p}
                    ELSE UNION {StateRoots(S, c) : c \in DataChildren(S, p)}

\* -- instance routes: sequences of <<"m", instance name>> and <<"s">> (selectors).
\* Split after the instance of data node p: the length of the first part, or -1
MembersIn(r) == SelectSeq([i \in 1..Len(r) |-> i], LAMBDA i : r[i][1] = "m")
SplitAt(S, p, r) ==
    LET d == DataRoute(S, p)
        names == [i \in 1..Len(d) |-> IF i > 1 /\ d[i - 1][2] = d[i][2] THEN d[i][1] ELSE d[i][2] \o ":" \o d[i][1]]
        ms == MembersIn(r)
    IN IF Len(ms) < Len(names) \/ \E i \in 1..Len(names) : r[ms[i]][2] # names[i] THEN -1
       ELSE IF Len(ms) = Len(names) THEN Len(r) ELSE ms[Len(names) + 1] - 1

\* -- the ASCII tree
TypeText(n) == " <" \o (IF n.tn = "" THEN n.b ELSE n.tn \o "(" \o n.b \o ")") \o ">"
LineText(n, parentNs, types, counts) ==
    LET nm == (IF n.q[2] = parentNs THEN "" ELSE n.q[2] \o ":") \o n.q[1]
        rw == IF n.cf = "true" THEN "rw" ELSE "ro"
        opt == IF n.mand THEN "" ELSE "?"
        ty == IF types THEN TypeText(n) ELSE ""
        sq == IF n.usr THEN "#" ELSE "*"
        cnt == IF counts /\ n.k \notin {"choice", "case"} THEN " {0}" ELSE ""
    IN (CASE n.sta = "deprecated" -> "x" [] n.sta = "obsolete" -> "o" [] OTHER -> "+") \o "--" \o
       (CASE n.k = "case" -> ":(" \o nm \o ")"
          [] n.k = "choice" -> rw \o " (" \o nm \o ")" \o opt
          [] n.k = "rpc" -> "-x " \o nm
          [] n.k = "notification" -> "-n " \o nm
          [] n.k \in IoK -> "ro " \o nm
          [] n.k = "container" -> rw \o " " \o nm \o (IF n.pres THEN "!" ELSE "")
          [] n.k = "leaf" -> rw \o " " \o nm \o opt \o ty
          [] n.k \in {"anydata", "anyxml"} -> rw \o " " \o nm \o opt
          [] n.k = "leaf-list" -> rw \o " " \o nm \o sq \o ty
          [] n.k = "list" -> rw \o " " \o nm \o sq \o
                (IF n.keys = <<>> THEN "" ELSE " [" \o Join([i \in 1..Len(n.keys) |-> n.keys[i][1]], " ") \o "]")) \o cnt
\* lines form the tree of nodes ns_, each in any order among its siblings.  Result:
\* set of complaints
RECURSIVE TreeDiff(_, _, _, _, _)
TreeDiff(ns_, parentNs, lines, o, at) ==
    LET head(i) == ~StartsWith(lines[i], " ") /\ ~StartsWith(lines[i], "|")
        hs == SelectSeq([i \in 1..Len(lines) |-> i], LAMBDA i : head(i))
        exp(n) == LineText(n, parentNs, o[1], o[2])
        texts == {exp(n) : n \in Rng(ns_)}
        body(k) == SubSeq(lines, hs[k] + 1, IF k = Len(hs) THEN Len(lines) ELSE hs[k + 1] - 1)
        bar(k) == IF k = Len(hs) THEN "   " ELSE "|  "
    IN IF lines # <<>> /\ ~head(1) THEN {"tree: stray line under " \o at}
       ELSE {"tree: missing line " \o t \o " under " \o at : t \in texts \ {lines[hs[k]] : k \in 1..Len(hs)}}
            \cup {"tree: unexpected line " \o t \o " under " \o at : t \in {lines[hs[k]] : k \in 1..Len(hs)} \ texts}
            \cup (IF Len(hs) # Len(ns_) THEN {"tree: number of lines under " \o at} ELSE {})
            \cup UNION {LET t == lines[hs[k]] n == CHOOSE n \in Rng(ns_) : exp(n) = t b == body(k) IN
                        IF t \notin texts THEN {}
                        ELSE IF \E i \in 1..Len(b) : ~StartsWith(b[i], bar(k)) THEN {"tree: indentation under " \o t}
                        ELSE TreeDiff(n.ch, n.q[2], [i \in 1..Len(b) |-> From(b[i], 4)], o, t) : k \in 1..Len(hs)}

\* -- the digest: a record of properties for each node (ch: sequence of digests; nm: the
\* name of the member).  parent: the config of the parent node
RECURSIVE DigestDiff(_, _, _, _, _)
DigestDiff(S, p, g, parent, at) ==
    LET kids == DataChildren(S, p) \cup {Append(p, n.q) : n \in {x \in Rng(KidsOf(S, p)) : x.k \in OpKw}}
        keys == {g.ch[i].nm : i \in 1..Len(g.ch)}
        full(c) == Last(c)[2] \o ":" \o Last(c)[1]
        \* (in operations, qualifiers are left open)
        name(c) == IF InsideOp(S, c) THEN IF full(c) \in keys THEN full(c) ELSE Last(c)[1] ELSE IName(S, c)
        inner == KindAt(S, p) \in InnerK \cup {"root"}
        n == At1(S, p)
        P(what, x, y) == IF x = y THEN {} ELSE {"digest: " \o what \o " of " \o at \o ": specification says " \o ToString(x)}
        props == IF p = <<>> THEN P("kind", "schematree", g.kind) \cup P("config", <<TRUE>>, g.config)
                 ELSE P("description", n.desc, g.desc)
                      \cup (IF n.k \in DataK THEN P("kind", n.k, g.kind) ELSE {})
                      \cup (IF n.k \in DataK THEN P("config", IF n.cf = "false" /\ parent = "true" THEN <<FALSE>> ELSE <<>>, g.config) ELSE {})
                      \cup (IF n.k \in {"leaf", "anydata", "anyxml"} THEN P("mandatory", n.mand, g.mand) ELSE {})
                      \cup (IF n.k \in {"leaf-list", "list"} THEN P("mandatory", n.min > 0, g.mand) ELSE {})
                      \cup (IF n.k = "container" THEN P("presence", n.pres, g.pres) ELSE {})
                      \cup (IF n.k = "list" THEN P("keys", [i \in 1..Len(n.keys) |-> n.keys[i][1]], g.keys) ELSE {})
                      \cup (IF n.k \in {"leaf", "leaf-list"}
                            THEN P("base type", n.b, g.base) \cup P("derived type", n.tn, g.derived) \cup P("units", n.un, g.un)
                                 \cup P("default", IF n.df = <<>> THEN <<>> ELSE <<n.k, n.df>>, g.df)
                                 \cup (IF n.b = "bits" \/ (n.b = "enumeration" /\ n.cf = "true")
                                       THEN P("enums or bits", n.en, Rng(g.en)) ELSE {})
                            ELSE {})
    IN props
       \cup {"digest: missing " \o name(c) \o " under " \o at : c \in {c \in kids : name(c) \notin keys}}
       \cup {"digest: unexpected " \o k \o " under " \o at : k \in keys \ {name(c) : c \in kids}}
       \cup UNION {UNION {DigestDiff(S, c, g.ch[i], IF p = <<>> THEN "true" ELSE n.cf, at \o "/" \o g.ch[i].nm) :
                            i \in {i \in 1..Len(g.ch) : g.ch[i].nm = name(c)}} : c \in kids}
=============================================================================
