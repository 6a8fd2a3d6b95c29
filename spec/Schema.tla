------------------------------ MODULE Schema ------------------------------
(***************************************************************************)
(* Abstract schema trees.                                                  *)
(*                                                                         *)
(* A schema S is a sequence of node records, node 1 is the root:           *)
(*   k    kind: root container list leaf leaf-list anydata choice case     *)
(*   nm, md   local name and module                                        *)
(*   p, c     parent id and sequence of children ids                       *)
(*   dp, dk   data parent, data children (through choices and cases)       *)
(*   in       name of an instance in its parent object (qualified iff the  *)
(*            module differs from that of the data parent)                 *)
(*   cfg mand pres df mn mx ky uq   config, mandatory, presence, defaults, *)
(*            cardinality (mx = -1: unbounded), keys (ids), unique         *)
(*   ty   type record    dc  default case (0 = none)                       *)
(*   wh   conditions with the node itself as context node                  *)
(*   whp  conditions with the data parent as context node                  *)
(*   mu   must constraints      st  stated status ("": none)               *)
(*   keep (root) modules whose obsolete nodes are kept                      *)
(***************************************************************************)
EXTENDS Base

DataKinds == {"container", "list", "leaf", "leaf-list", "anydata"}
IsData(S, n) == S[n].k \in DataKinds
IsLeafy(S, n) == S[n].k \in {"leaf", "leaf-list"}
IsSeqNode(S, n) == S[n].k \in {"list", "leaf-list"}
IsInternal(S, n) == S[n].k \in {"root", "container", "list"}

\* The derived fields, from first principles.  The trace carries them
\* precomputed; WellFormed says what they must be.
RECURSIVE DataParentOf(_, _)
DataParentOf(S, n) == LET p == S[n].p IN
    IF p = 0 THEN 0
    ELSE IF S[p].k \in {"choice", "case"} THEN DataParentOf(S, p) ELSE p
RECURSIVE DataKidsOf(_, _)
DataKidsOf(S, n) == SeqCat([i \in 1..Len(S[n].c) |->
    LET c == S[n].c[i] IN
    IF IsData(S, c) THEN <<c>>
    ELSE IF S[c].k \in {"choice", "case"} THEN DataKidsOf(S, c) ELSE <<>>])
INameOf(S, n) == IF S[DataParentOf(S, n)].md = S[n].md THEN S[n].nm
                 ELSE S[n].md \o ":" \o S[n].nm

WellFormed(S) == \A n \in 1..Len(S) :
    /\ \A i \in 1..Len(S[n].c) : S[S[n].c[i]].p = n
    /\ S[n].dp = DataParentOf(S, n)
    /\ S[n].dk = DataKidsOf(S, n)
    /\ IsData(S, n) => S[n].in = INameOf(S, n)

\* Data child with instance name `name` (0 if there is none)
Kid(S, n, name) == LET ks == {i \in Rng(S[n].dk) : S[i].in = name} IN
                   IF ks = {} THEN 0 ELSE CHOOSE k \in ks : TRUE
\* ... also accepting a redundant module qualifier, as in put_member("m1:x")
KidAny(S, n, name) == LET ks == {i \in Rng(S[n].dk) : name \in
                              {S[i].in, S[i].md \o ":" \o S[i].nm}} IN
                   IF ks = {} THEN 0 ELSE CHOOSE k \in ks : TRUE

KeyNames(S, n) == [i \in 1..Len(S[n].ky) |-> S[S[n].ky[i]].in]

\* -- positions in instance trees: sequences of member names and 1-based indices
RECURSIVE At(_, _)
At(v, p) == IF p = <<>> THEN v
            ELSE IF v[1] = "o" THEN At(v[2][p[1]], Tail(p))
            ELSE At(v[2][p[1]], Tail(p))

RECURSIVE Exists(_, _)
Exists(v, p) ==
    IF p = <<>> THEN TRUE
    ELSE IF v[1] = "o" THEN p[1] \in DOMAIN v[2] /\ Exists(v[2][p[1]], Tail(p))
    ELSE IF v[1] = "a" THEN p[1] \in DOMAIN v[2] /\ Exists(v[2][p[1]], Tail(p))
    ELSE FALSE

RECURSIVE Put(_, _, _)
Put(v, p, x) == IF p = <<>> THEN x
    ELSE IF v[1] = "o" THEN <<"o", SetM(v[2], p[1], Put(v[2][p[1]], Tail(p), x))>>
    ELSE <<"a", SetE(v[2], p[1], Put(v[2][p[1]], Tail(p), x))>>

\* schema node at a position: entries have the node of their list; `v` is the
\* tree (needed to tell entries from members)
RECURSIVE SnodeAt(_, _, _, _)
SnodeAt(S, n, v, p) ==
    IF p = <<>> THEN n
    ELSE IF v[1] = "o" THEN SnodeAt(S, Kid(S, n, p[1]), v[2][p[1]], Tail(p))
    ELSE SnodeAt(S, n, v[2][p[1]], Tail(p))
Snode(S, v, p) == SnodeAt(S, 1, v, p)

\* -- status: stated or else that of the parent; obsolete nodes of modules with
\* keep-obsolete are like current ones
RECURSIVE Status(_, _)
Status(S, n) == IF n = 1 THEN "current"
                ELSE IF S[n].st = "" THEN Status(S, S[n].p)
                ELSE IF S[n].st = "obsolete" /\ S[n].md \in Rng(S[1].keep) THEN "kept"
                ELSE S[n].st
\* does node n, unlike its parent, have status x?
Became(S, n, x) == S[n].st # "" /\ Status(S, n) = x /\ Status(S, S[n].p) # x
Gone(S, n) == Became(S, n, "obsolete")

Parent(p) == SubSeq(p, 1, Len(p) - 1)
=============================================================================
