---------------------------- MODULE TraceValues ----------------------------
(***************************************************************************)
(* Judges histories of structured values.  State: the heap.                 *)
(***************************************************************************)
EXTENDS Values, TraceBase
VARIABLES l, h

Ev_ == Trace[l]
Slot(s) == IF s[1] = "ref" THEN s ELSE Val(s)
Cell(c) == IF c[1] = "a" THEN <<"a", [i \in DOMAIN c[2] |-> Slot(c[2][i])]>>
           ELSE <<"o", [m \in {p[1] : p \in Rng(c[2])} |-> Slot((CHOOSE p \in Rng(c[2]) : p[1] = m)[2])]>>
Do(e) == CASE e.do = "new" -> New(h, Cell(e.c))
           [] e.do = "copy" -> CopyCell(h, e.k)
           [] e.do = "set" -> SetSlot(h, e.k, e.x, Slot(e.s))
           [] e.do = "del" -> DelSlot(h, e.k, e.x)
           [] e.do = "add" -> AddSlot(h, e.k, Slot(e.s))
\* res: what the library says of the pair
CmpClauses(e) ==
    LET s == Same(h, e.i, e.j) yes == IF s THEN "yes" ELSE "no" no == IF s THEN "no" ELSE "yes" IN
    If(e.eq # yes, Exp("== is " \o e.eq, <<Content(h, e.i), Content(h, e.j)>>))
    \cup If(e.ne # no, Exp("!= is " \o e.ne, <<Content(h, e.i), Content(h, e.j)>>))
    \cup If(s /\ e.hash # "yes", Exp("hashes differ", Content(h, e.i)))
    \cup If(e.lst # yes, Exp("list membership is " \o e.lst, <<Content(h, e.i), Content(h, e.j)>>))
    \cup If(e.mem # yes, Exp("set membership is " \o e.mem, <<Content(h, e.i), Content(h, e.j)>>))
\* content of all cells as the library shows them
ShowClauses(e) == UNION {If(Val(e.v[k]) # Content(h, k), Exp("content", Content(h, k))) : k \in 1..Len(h)}
OtherClauses(e) == If(e.eq # "no" \/ e.ne # "yes", "equal to a value of another kind: " \o e.what)
Init == l = 1 /\ h = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE Ev_.op = "load" -> h' = <<>>
             [] Ev_.op = "step" -> h' = Do(Ev_)
             [] OTHER -> UNCHANGED h /\ Report(l, CASE Ev_.op = "cmp" -> CmpClauses(Ev_)
                                                    [] Ev_.op = "other" -> OtherClauses(Ev_)
                                                    [] Ev_.op = "show" -> ShowClauses(Ev_))
=============================================================================
