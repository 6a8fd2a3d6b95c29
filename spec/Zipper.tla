------------------------------ MODULE Zipper ------------------------------
(***************************************************************************)
(* Instance nodes as a zipper over persistent trees.                       *)
(*                                                                         *)
(* An instance node is abstractly <<root, path>>: the whole tree it is part *)
(* of and its position.  Every operation maps a node to a new node or to    *)
(* an error and leaves the old node alone: that is all persistence means.   *)
(* A result is <<"node", root, path>>, <<"err", classes>> (set of admissible *)
(* exception classes), <<"names", set>> or <<"entries", n>>.                *)
(***************************************************************************)
EXTENDS Schema

Node(r, p) == <<"node", r, p>>
Err(c) == <<"err", c>>
NI == Err({"NonexistentInstance"})
NSN == Err({"NonexistentSchemaNode"})
IVE == Err({"InstanceValueError"})

RootOf(z) == z[2]
PathOf(z) == z[3]
ValOf(z) == At(z[2], z[3])
SnOf(S, z) == Snode(S, z[2], z[3])

IsEntry(z) == Len(z[3]) > 0 /\ At(z[2], Parent(z[3]))[1] = "a"
IsMember(z) == Len(z[3]) > 0 /\ At(z[2], Parent(z[3]))[1] = "o"
LastKey(z) == z[3][Len(z[3])]

\* the member name under which a name is stored
Canon(S, z, name) == LET k == KidAny(S, SnOf(S, z), name) IN
                     IF k = 0 THEN name ELSE S[k].in

Down(z, k) == Node(RootOf(z), Append(PathOf(z), k))

GetMember(S, z, name) == LET v == ValOf(z) nm == Canon(S, z, name) IN
    IF v[1] = "o" THEN IF nm \in DOMAIN v[2] THEN Down(z, nm) ELSE NI
    ELSE IF v[1] = "a" THEN NI ELSE IVE

\* idx is 0-based or negative, as in the API
GetEntry(z, idx) == LET v == ValOf(z) IN
    IF v[1] = "a"
    THEN LET n == Len(v[2]) i == IF idx < 0 THEN n + idx + 1 ELSE idx + 1 IN
         IF i \in 1..n THEN Down(z, i) ELSE NI
    ELSE IVE

PutMember(S, z, name, x) == LET v == ValOf(z) IN
    IF v[1] # "o" THEN IVE
    ELSE IF KidAny(S, SnOf(S, z), name) = 0 THEN NSN
    ELSE LET nm == Canon(S, z, name)
             r == Put(RootOf(z), PathOf(z), Obj(SetM(v[2], nm, x)))
         IN Node(r, Append(PathOf(z), nm))

DeleteMember(S, z, name) == LET v == ValOf(z) nm == Canon(S, z, name) IN
    IF v[1] = "a" THEN NI
    ELSE IF v[1] # "o" THEN IVE
    ELSE IF nm \notin DOMAIN v[2] THEN NI
    ELSE Node(Put(RootOf(z), PathOf(z), Obj(DelM(v[2], nm))), PathOf(z))

DeleteEntry(z, idx) == LET v == ValOf(z) IN
    IF v[1] = "o" THEN NI
    ELSE IF v[1] # "a" THEN IVE
    ELSE LET n == Len(v[2]) i == IF idx < 0 THEN n + idx + 1 ELSE idx + 1 IN
         IF i \in 1..n
         THEN Node(Put(RootOf(z), PathOf(z), Arr(DelE(v[2], i))), PathOf(z))
         ELSE NI

(***************************************************************************)
(* Isolated instances (schema nodes' orphan_instance and orphan_entry): a    *)
(* node whose tree has nothing besides it.  Its position there is the one    *)
(* its schema node gives it, entries being the only one of their list.       *)
(* b is the length of that position: nothing can be reached above it.        *)
(***************************************************************************)
RECURSIVE SkelTree(_, _, _), SkelPath(_, _)
SkelTree(v, p, x) == IF p = <<>> THEN x
    ELSE IF v[1] = "a" THEN Arr(<<SkelTree(v[2][p[1]], Tail(p), x)>>)
    ELSE Obj([m \in {p[1]} |-> SkelTree(v[2][m], Tail(p), x)])
SkelPath(v, p) == IF p = <<>> THEN <<>>
    ELSE <<IF v[1] = "a" THEN 1 ELSE p[1]>> \o SkelPath(v[2][p[1]], Tail(p))
Isolated(z) == Node(SkelTree(RootOf(z), PathOf(z), ValOf(z)), SkelPath(RootOf(z), PathOf(z)))
AtTop(z, b) == Len(PathOf(z)) = b
TopAt(z, b) == Node(RootOf(z), SubSeq(PathOf(z), 1, b))

Up(z) == IF PathOf(z) = <<>> THEN NI ELSE Node(RootOf(z), Parent(PathOf(z)))
Top(z) == Node(RootOf(z), <<>>)

Sibling(S, z, name) ==
    LET par == Node(RootOf(z), Parent(PathOf(z)))
        nm == Canon(S, par, name) IN
    IF KidAny(S, SnOf(S, par), name) = 0 THEN NSN
    ELSE IF nm \in DOMAIN ValOf(par)[2] /\ nm # LastKey(z) THEN Down(par, nm) ELSE NI

Next_(z) == LET arr == At(RootOf(z), Parent(PathOf(z)))[2] i == LastKey(z) IN
    IF i < Len(arr) THEN Node(RootOf(z), Append(Parent(PathOf(z)), i + 1)) ELSE NI
Previous(z) == LET i == LastKey(z) IN
    IF i > 1 THEN Node(RootOf(z), Append(Parent(PathOf(z)), i - 1)) ELSE NI

InsertAt_(z, i, x) == LET pp == Parent(PathOf(z)) arr == At(RootOf(z), pp)[2] IN
    Node(Put(RootOf(z), pp, Arr(InsE(arr, i, x))), Append(pp, i))
InsertBefore(z, x) == InsertAt_(z, LastKey(z), x)
InsertAfter(z, x) == InsertAt_(z, LastKey(z) + 1, x)

Update(z, x) == Node(Put(RootOf(z), PathOf(z), x), PathOf(z))

(***************************************************************************)
(* merge (RFC 7950 sections 7.5.8, 7.6.7, 7.7.9, 7.8.6)                     *)
(***************************************************************************)
KeyOf(S, n, e) == [i \in 1..Len(S[n].ky) |-> e[2][S[S[n].ky[i]].in]]
Keyed(S, n, e) == \A i \in 1..Len(S[n].ky) : S[S[n].ky[i]].in \in DOMAIN e[2]

\* merge is defined for values whose list entries have distinct complete keys
RECURSIVE Mergeable(_, _, _)
Mergeable(S, n, v) ==
    IF v[1] = "o" THEN S[n].k = "anydata" \/ \A m \in DOMAIN v[2] :
                         Kid(S, n, m) # 0 /\ Mergeable(S, Kid(S, n, m), v[2][m])
    ELSE IF v[1] = "a" /\ S[n].k = "list" THEN
         /\ \A i \in 1..Len(v[2]) : Keyed(S, n, v[2][i]) /\ Mergeable(S, n, v[2][i])
         /\ S[n].ky # <<>> => \A i, j \in 1..Len(v[2]) :
                i # j => KeyOf(S, n, v[2][i]) # KeyOf(S, n, v[2][j])
    ELSE TRUE
\* no keyless list below (and including) n
RECURSIVE KeyedDeep(_, _)
KeyedDeep(S, n) == (S[n].k = "list" => S[n].ky # <<>>)
                   /\ \A c \in Rng(S[n].dk) : KeyedDeep(S, c)

RECURSIVE MergeV(_, _, _, _)
MergeObj(S, n, old, new) ==
    Obj([m \in (DOMAIN old[2]) \cup (DOMAIN new[2]) |->
        IF m \notin DOMAIN new[2] THEN old[2][m]
        ELSE IF m \notin DOMAIN old[2] THEN new[2][m]
        ELSE LET c == Kid(S, n, m) IN
             IF c = 0 THEN new[2][m] ELSE MergeV(S, c, old[2][m], new[2][m])])

MergeSeq(S, n, old, new) ==
    IF S[n].k = "leaf-list"
    THEN Arr(old[2] \o SelectSeq(new[2], LAMBDA x : x \notin Rng(old[2])))
    ELSE IF S[n].ky = <<>> THEN Arr(old[2] \o new[2])
    ELSE LET matches(e) == {j \in 1..Len(new[2]) : KeyOf(S, n, new[2][j]) = KeyOf(S, n, e)}
             taken == {KeyOf(S, n, old[2][i]) : i \in 1..Len(old[2])}
         IN Arr([i \in 1..Len(old[2]) |->
                   IF matches(old[2][i]) = {} THEN old[2][i]
                   ELSE MergeObj(S, n, old[2][i], new[2][CHOOSE j \in matches(old[2][i]) : TRUE])]
                \o SelectSeq(new[2], LAMBDA x : KeyOf(S, n, x) \notin taken))

MergeV(S, n, old, new) ==
    IF S[n].k \in {"leaf", "anydata"} THEN new
    ELSE IF ~IsStruct(old) \/ ~IsStruct(new) THEN new
    ELSE IF old[1] = "a" THEN MergeSeq(S, n, old, new)
    ELSE MergeObj(S, n, old, new)

Merge(S, z, x) == Update(z, MergeV(S, SnOf(S, z), ValOf(z), x))

(***************************************************************************)
(* look_up: first entry with the given member values                       *)
(***************************************************************************)
LookUp(S, z, pairs) == LET v == ValOf(z) IN
    IF S[SnOf(S, z)].k # "list" \/ v[1] # "a" THEN IVE
    ELSE LET ok == {i \in 1..Len(v[2]) : \A j \in 1..Len(pairs) :
                       pairs[j][1] \in DOMAIN v[2][i][2] /\
                       v[2][i][2][pairs[j][1]] = pairs[j][2]}
         IN IF ok = {} THEN NI
            ELSE Down(z, CHOOSE i \in ok : \A k \in ok : i <= k)

Names(z) == LET v == ValOf(z) IN
    IF v[1] = "o" THEN <<"names", DOMAIN v[2]>>
    ELSE IF v[1] = "a" THEN <<"entries", Len(v[2])>> ELSE IVE

RECURSIVE JPtr(_, _)
JPtr(v, p) == IF p = <<>> THEN ""
    ELSE "/" \o (IF v[1] = "a" THEN ToString(p[1] - 1) ELSE p[1]) \o JPtr(v[2][p[1]], Tail(p))
JsonPointer(z) == IF PathOf(z) = <<>> THEN "/" ELSE JPtr(RootOf(z), PathOf(z))
=============================================================================
