----------------------------- MODULE MCZipper -----------------------------
(***************************************************************************)
(* All histories of navigation and editing over a small schema.            *)
(*                                                                         *)
(* State: one instance node (tree, position).  Every operation with every  *)
(* argument of a finite pool is a transition; algebraic laws of the zipper *)
(* and of merge are checked in every reachable state; one in EmitK   *)
(* transitions is printed, and the harness performs it on the real code.   *)
(*                                                                         *)
(* IOEnv.MODEL: JSON file with the schema table, initial trees, pools of   *)
(* values for members (mv) and entries (ev), and size bounds.              *)
(***************************************************************************)
EXTENDS Zipper, Json, IOUtils, SequencesExt, FiniteSetsExt
VARIABLE z

M == ndJsonDeserialize(IOEnv.MODEL)[1]
S == M.schema
EmitK == M.emit        \* print one transition of this many (0: none)
MV(n) == {Val(M.mv[n][i]) : i \in 1..Len(M.mv[n])}
EV(n) == {Val(M.ev[n][i]) : i \in 1..Len(M.ev[n])}

RECURSIVE MaxLen(_)
MaxLen(v) == IF v[1] = "o" THEN Max({0} \cup {MaxLen(v[2][k]) : k \in DOMAIN v[2]})
             ELSE IF v[1] = "a" THEN Max({Len(v[2])} \cup {MaxLen(v[2][k]) : k \in DOMAIN v[2]})
             ELSE 0

NamesHere(n) == {S[c].in : c \in Rng(S[n].dk)} \cup {S[c].md \o ":" \o S[c].nm : c \in Rng(S[n].dk)} \cup {"nosuch"}

n == SnOf(S, z)
v == ValOf(z)
ent == IsEntry(z)

\* all operations applicable to z: <<name, argument, result>>
Ops ==
    (IF v[1] = "o"
     THEN {<<"get", nm, GetMember(S, z, nm)>> : nm \in NamesHere(n) \ {"nosuch"}}
          \cup {<<"delm", nm, DeleteMember(S, z, nm)>> : nm \in NamesHere(n)}
          \cup UNION {{<<"put", <<nm, x>>, PutMember(S, z, nm, x)>> : nm \in {S[c].in, S[c].md \o ":" \o S[c].nm}, x \in MV(c)} : c \in Rng(S[n].dk)}
     ELSE IF v[1] = "a"
     THEN {<<"ent", i, GetEntry(z, i)>> : i \in (-Len(v[2]) - 1)..Len(v[2])}
          \cup {<<"dele", i, DeleteEntry(z, i)>> : i \in (-Len(v[2]) - 1)..Len(v[2])}
     ELSE {<<"get", "nosuch", GetMember(S, z, "nosuch")>>, <<"ent", 0, GetEntry(z, 0)>>, <<"delm", "x", DeleteMember(S, z, "x")>>})
    \cup {<<"up", 0, Up(z)>>, <<"top", 0, Top(z)>>}
    \cup (IF IsMember(z) THEN {<<"sib", nm, Sibling(S, z, nm)>> : nm \in NamesHere(SnOf(S, Up(z)))} ELSE {})
    \cup (IF ent THEN {<<"next", 0, Next_(z)>>, <<"prev", 0, Previous(z)>>}
                      \cup {<<"insb", x, InsertBefore(z, x)>> : x \in EV(n)}
                      \cup {<<"insa", x, InsertAfter(z, x)>> : x \in EV(n)}
                      \cup {<<"upd", x, Update(z, x)>> : x \in EV(n)}
          ELSE {<<"upd", x, Update(z, x)>> : x \in MV(n)})
    \cup (IF \/ M.merge = 0 \/ ~Mergeable(S, n, v) THEN {}
          ELSE {<<"merge", x, Merge(S, z, x)>> : x \in {y \in (IF ent THEN EV(n) ELSE MV(n)) : Mergeable(S, n, y)}})

Init == z \in {Node(Val(M.init[i]), <<>>) : i \in 1..Len(M.init)}
Next == \E o \in Ops :
    /\ IF o[3][1] = "node" THEN z' = o[3] /\ MaxLen(o[3][2]) <= M.maxlen ELSE z' = z
    /\ (EmitK > 0 /\ RandomElement(1..EmitK) = 1) => PrintT("@@TR " \o ToJson([z |-> <<z[2], z[3]>>, op |-> o[1], arg |-> o[2], res |->
            IF o[3][1] = "node" THEN o[3] ELSE <<"err", SetToSeq(o[3][2])>>]))

(************************** laws **************************)
WF == WellFormed(S)
PathExists == Exists(z[2], z[3])

UpUndoesDown ==
    /\ v[1] = "o" => \A m \in DOMAIN v[2] : Up(GetMember(S, z, m)) = z
    /\ v[1] = "a" => \A i \in 0..Len(v[2]) - 1 : Up(GetEntry(z, i)) = z
NextPrevInverse == ent =>
    /\ Next_(z)[1] = "node" => Previous(Next_(z)) = z
    /\ Previous(z)[1] = "node" => Next_(Previous(z)) = z
DeleteUndoesInsert == ent => \A x \in EV(n) :
    /\ DeleteEntry(Up(InsertBefore(z, x)), LastKey(z) - 1) = Up(z)
    /\ DeleteEntry(Up(InsertAfter(z, x)), LastKey(z)) = Up(z)
InsertedThere == ent => \A x \in EV(n) :
    /\ ValOf(InsertBefore(z, x)) = x /\ ValOf(InsertAfter(z, x)) = x
    /\ Next_(InsertBefore(z, x)) = Node(InsertBefore(z, x)[2], Append(Parent(z[3]), LastKey(z) + 1))
    /\ ValOf(Next_(InsertBefore(z, x))) = v
    /\ ValOf(Previous(InsertAfter(z, x))) = v
PutGet == v[1] = "o" => \A c \in Rng(S[n].dk) : \A x \in MV(c) :
    LET r == PutMember(S, z, S[c].in, x) IN
    /\ ValOf(r) = x
    /\ GetMember(S, Up(r), S[c].in) = r
    /\ \A m \in (DOMAIN v[2]) \ {S[c].in} : ValOf(Sibling(S, r, m)) = v[2][m]
    /\ DeleteMember(S, Up(r), S[c].in) = (IF S[c].in \in DOMAIN v[2] THEN DeleteMember(S, z, S[c].in) ELSE z)
\* an edit at the focus does not touch positions outside of it
Frame == \A x \in (IF ent THEN EV(n) ELSE MV(n)) :
    LET r == Update(z, x) IN
    \A k \in 1..Len(z[3]) :
        LET pre == SubSeq(z[3], 1, k - 1)
            a == At(z[2], pre) b == At(r[2], pre) IN
        /\ a[1] = b[1] /\ DOMAIN a[2] = DOMAIN b[2]
        /\ \A j \in DOMAIN a[2] : j # z[3][k] => a[2][j] = b[2][j]
MergeLaws == (M.merge = 1 /\ Mergeable(S, n, v)) => \A x \in {y \in (IF ent THEN EV(n) ELSE MV(n)) : Mergeable(S, n, y)} :
    LET r == Merge(S, z, x) IN
    /\ Merge(S, r, x) = r \/ ~KeyedDeep(S, n)          \* idempotent
    /\ v[1] = "o" => \A m \in DOMAIN v[2] : m \notin DOMAIN x[2] => ValOf(r)[2][m] = v[2][m]
    /\ v[1] = "o" /\ ~ent => DOMAIN ValOf(r)[2] = DOMAIN v[2] \cup DOMAIN x[2]
    /\ v[1] = "a" => Len(ValOf(r)[2]) >= Len(v[2])
    /\ S[n].k = "leaf-list" /\ ~ent => Rng(ValOf(r)[2]) = Rng(v[2]) \cup Rng(x[2])
=============================================================================
