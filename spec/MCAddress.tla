------------------------------ MODULE MCAddress ------------------------------
(***************************************************************************)
(* Schemas are grown node by node; paths, names and lookups agree.          *)
(***************************************************************************)
EXTENDS Address, Base
CONSTANT MaxNodes, Names
VARIABLE S

Mk(k, q, cf) == [q |-> q, k |-> k, ch |-> <<>>, cf |-> cf]
Quals == Names \X {"m", "n"}
R == AllRoutes(S)
Room == Cardinality(R) < MaxNodes
\* what may be put under a node
Fits(k, in) == CASE in \in {"root", "container"} -> k \in {"container", "leaf", "choice", "rpc", "notification"}
                 [] in = "choice" -> k = "case"
                 [] in = "case" -> k \in {"container", "leaf", "choice"}
                 [] in \in {"notification", "input", "output"} -> k \in {"container", "leaf", "choice"}
                 [] OTHER -> FALSE
\* names of schema siblings and of data siblings differ
RECURSIVE Owner(_)
Owner(p) == IF KindAt(S, p) \in {"choice", "case"} THEN Owner(Front(p)) ELSE p
Free(p, q, k) == /\ ~Exists(KidsOf(S, p), <<q>>)
                 /\ k \notin {"choice", "case"} => \A x \in DataChildren(S, Owner(p)) : Last(x) # q
AddTo(p, n) == IF p = <<>> THEN Append(S, n) ELSE Put(S, p, <<[Get(S, p) EXCEPT !.ch = Append(@, n)]>>)
Init == S = <<>>
New(k, q, c) == IF k # "rpc" THEN Mk(k, q, c)
                ELSE [Mk(k, q, "-") EXCEPT !.ch = <<Mk("input", <<"input", q[2]>>, "-"), Mk("output", <<"output", q[2]>>, "-")>>]
Next == /\ Room
        /\ \E p \in R \cup {<<>>}, k \in {"container", "leaf", "choice", "case", "rpc", "notification"}, q \in Quals, c \in {"true", "false"} :
             /\ Fits(k, KindAt(S, p)) /\ Free(p, q, k)
             /\ (IF k \in OpKw THEN c = "true" /\ ~IsOp(S, p) /\ ~InsideOp(S, p) ELSE TRUE)
             /\ (IF c = "true" /\ p # <<>> THEN At1(S, p).cf # "false" ELSE TRUE)
             /\ S' = AddTo(p, New(k, q, IF k \in OpKw THEN "-" ELSE IF p = <<>> THEN c ELSE IF At1(S, p).cf = "-" THEN "-" ELSE c))
Spec == Init /\ [][Next]_S

D == DataNodes(S, R)
\* every node is found by its schema path, every data node by its data path
Schemas == \A p \in R : LET r == ParsePath(PathText(p)) IN r = <<"ok", p>> /\ Follow(S, <<>>, r[2]) = <<p>>
Datas == \A p \in D : LET r == ParsePath(DataPathText(S, p)) IN r[1] = "ok" /\ FollowData(S, <<>>, r[2]) = <<p>>
\* and by nothing else
Unique == \A p, q \in D : p # q => DataPathText(S, p) # DataPathText(S, q)
\* data lookups never lead into operations
Contained == \A p \in D : \A q \in DataChildren(S, p) : q \in D
\* the data parent is the node whose data child it is
Parents == \A p \in D : p \in DataChildren(S, DataParent(S, p))
\* the data path is the path of the data parent and the instance name
Stepwise == \A p \in D : DataPathText(S, p) = (IF DataParent(S, p) = <<>> THEN "" ELSE DataPathText(S, DataParent(S, p))) \o "/" \o IName(S, p)
\* state roots: state data, not inside each other, and all state data is below them
States == LET T == StateRoots(S, <<>>) IN
          /\ \A p \in T : Get(S, p).cf = "false" /\ \A q \in T : p # q => ~IsPrefix(p, q)
          /\ \A p \in D : Get(S, p).cf = "false" <=> \E q \in T : IsPrefix(q, p)
\* the instance route of a node is split at each of its ancestors
RECURSIVE Up(_, _)
Up(p, k) == IF Len(DataRoute(S, p)) = k THEN p ELSE Up(DataParent(S, p), k)
Splits == \A p \in D : LET d == DataRoute(S, p)
                           r == FlatSeq([i \in 1..Len(d) |-> <<<<"m", IName(S, Up(p, i))>>, <<"s">>>>])
                       IN \A q \in D : SplitAt(S, q, r) = (IF IsPrefix(q, p) THEN 2 * Len(DataRoute(S, q)) ELSE -1)
=============================================================================
