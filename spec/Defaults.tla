----------------------------- MODULE Defaults -----------------------------
(***************************************************************************)
(* Default values in use (RFC 7950 sections 7.5.1, 7.6.1, 7.7.2, 7.9.3).    *)
(*                                                                         *)
(* Complete(S, env, t, ct) adds to tree t the defaults of content type ct.  *)
(* Conditions are evaluated on a tree with defaults (RFC 7950, 7.21.5), so   *)
(* the definition is in two steps: Base adds the defaults of unconditional  *)
(* nodes, and conditions are evaluated on that.  This is complete for       *)
(* schemas whose conditions do not depend on conditional defaults           *)
(* (stratified: the generators only produce those).                        *)
(***************************************************************************)
EXTENDS XPath

\* content type bits: 1 config, 2 nonconfig, 3 all
TypeBits(S, n) == IF S[n].k \in {"leaf", "leaf-list", "anydata"}
                  THEN IF S[n].cfg THEN 1 ELSE 2
                  ELSE IF S[n].cfg THEN 3 ELSE 2
Meets(a, b) == a = 3 \/ b = 3 \/ a = b
Adm(S, n, ct) == Meets(TypeBits(S, n), ct)

\* data nodes below a choice or case, and cases of a choice
\* the case of choice ch that has data in object o (0: none)
ActiveCase(S, ch, o) == LET cs == {i \in 1..Len(S[ch].c) :
        ~Gone(S, S[ch].c[i]) /\ \E d \in Rng(S[S[ch].c[i]].dk) : S[d].in \in DOMAIN o[2]} IN
    IF cs = {} THEN 0 ELSE S[ch].c[CHOOSE i \in cs : \A j \in cs : i <= j]

(* Fill(S, D, o, n, p, ct, lvl): the object o at node n and position p with  *)
(* defaults; conditions are evaluated in document D; with "S" \notin DOMAIN D,         *)
(* conditional nodes get no defaults.                                      *)
NoDoc == [T |-> <<"none">>]
DummyVal(S, c) == CASE S[c].k \in {"leaf", "anydata"} -> <<"dummy">>
                    [] S[c].k = "container" -> EmptyObj
                    [] OTHER -> Arr(<<IF S[c].k = "list" THEN EmptyObj ELSE <<"dummy">>>>)
\* condition with the node itself as context: all instances replaced by a dummy
OwnWhen(D, c, p, e) ==
    LET S == D.S
        o == At(D.T, p)
        t == Put(D.T, p, Obj(SetM(o[2], S[c].in, DummyVal(S, c))))
        q == Append(p, S[c].in)
    IN Holds([D EXCEPT !.T = t], e, IF IsSeqNode(S, c) THEN Append(q, 1) ELSE q)
And3(s) == IF "f" \in s THEN "f" ELSE IF "u" \in s THEN "u" ELSE "t"
\* non-presence containers on the way to p that are not in the tree
RECURSIVE Ensure(_, _)
Ensure(v, p) == IF p = <<>> THEN v
    ELSE IF v[1] = "a" THEN <<"a", SetE(v[2], p[1], Ensure(v[2][p[1]], Tail(p)))>>
    ELSE Obj(SetM(v[2], p[1], Ensure(IF p[1] \in DOMAIN v[2] THEN v[2][p[1]] ELSE EmptyObj, Tail(p))))
\* do the conditions of schema node c (child of the node at p) hold?
CondsHold(D0, c, p) == LET D == [D0 EXCEPT !.T = Ensure(D0.T, p)] IN
    And3({Holds(D, D.S[c].whp[i], p) : i \in 1..Len(D.S[c].whp)}
         \cup {OwnWhen(D, c, p, D.S[c].wh[i]) : i \in 1..Len(D.S[c].wh)})
Definite(t) == IF t = "u" THEN Assert(FALSE, "condition not determined") ELSE t
Uncond(S, c) == S[c].wh = <<>> /\ S[c].whp = <<>>

RECURSIVE FillV(_, _, _, _, _, _), FillKids(_, _, _, _, _, _, _), FillNew(_, _, _, _, _)
\* value v of node n at position p, completed
FillV(S, D, v, n, p, ct) ==
    IF S[n].k = "anydata" \/ n = 0 THEN v
    ELSE IF v[1] = "o"
    THEN LET o == Obj([m \in DOMAIN v[2] |->
                  IF Kid(S, n, m) = 0 THEN v[2][m]
                  ELSE FillV(S, D, v[2][m], Kid(S, n, m), Append(p, m), ct)])
         IN IF ~IsInternal(S, n) THEN v ELSE FillKids(S, D, o, S[n].c, 1, p, ct)
    ELSE IF v[1] = "a" /\ S[n].k = "list"
    THEN Arr([i \in 1..Len(v[2]) |-> FillV(S, D, v[2][i], n, Append(p, i), ct)])
    ELSE v
\* defaults of the (absent) schema children ks[i..] of the object o
FillKids(S, D, o, ks, i, p, ct) ==
    IF i > Len(ks) THEN o
    ELSE LET c == ks[i]
             cond == IF Uncond(S, c) THEN "t"
                     ELSE IF "S" \notin DOMAIN D THEN "f" ELSE Definite(CondsHold(D, c, p))
             o2 == IF ~Adm(S, c, ct) \/ Gone(S, c) THEN o
                   ELSE IF IsData(S, c)
                   THEN IF S[c].in \in DOMAIN o[2] THEN o
                        ELSE IF S[c].k \in {"list", "anydata"} \/ S[c].pres
                                \/ (S[c].k # "container" /\ S[c].df = <<>>) THEN o
                        ELSE IF cond # "t" THEN o
                        ELSE Obj(SetM(o[2], S[c].in,
                             CASE S[c].k = "leaf" -> Val(S[c].df[1])
                               [] S[c].k = "leaf-list" -> Arr([j \in 1..Len(S[c].df) |-> Val(S[c].df[j])])
                               [] OTHER -> FillNew(S, D, c, Append(p, S[c].in), ct)))
                   ELSE IF S[c].k = "choice"
                   THEN LET a == ActiveCase(S, c, o)
                            sel == IF a # 0 THEN a
                                   ELSE IF S[c].dc = 0 \/ Gone(S, S[c].dc) THEN 0 ELSE S[c].dc
                            ccond == IF sel = 0 THEN "f"
                                     ELSE IF Uncond(S, sel) THEN "t"
                                     ELSE IF "S" \notin DOMAIN D THEN "f" ELSE Definite(CondsHold(D, sel, p))
                        IN IF sel = 0 \/ cond # "t" \/ ccond # "t" \/ ~Adm(S, sel, ct) THEN o
                           ELSE FillKids(S, D, o, S[sel].c, 1, p, ct)
                   ELSE o
         IN FillKids(S, D, o2, ks, i + 1, p, ct)
FillNew(S, D, c, p, ct) == FillKids(S, D, EmptyObj, S[c].c, 1, p, ct)

\* tree with the defaults of unconditional nodes; conditional non-presence
\* containers are added too, as contexts
BaseTree(S, t) == FillV(S, NoDoc, t, 1, <<>>, 3)
Doc(S, t, ID, RT) == [S |-> S, T |-> t, ID |-> ID, RT |-> RT]
\* the accessible tree
Accessible(S, t, ID, RT) == FillV(S, Doc(S, BaseTree(S, t), ID, RT), t, 1, <<>>, 3)
Complete(S, t, ID, RT, ct) == FillV(S, Doc(S, BaseTree(S, t), ID, RT), t, 1, <<>>, ct)
=============================================================================
