------------------------------ MODULE MCValues ------------------------------
(***************************************************************************)
(* Heaps of up to MaxCells cells with few names and scalars: equality is an *)
(* equivalence that depends on content only, a copy is equal and later      *)
(* changes of either side do not show in the other one's top level.         *)
(***************************************************************************)
EXTENDS Values
CONSTANTS MaxCells, MaxSteps
VARIABLES h, n, last
vars == <<h, n, last>>
Scalars == {<<"i", 1>>, <<"b", "true">>, <<"s", "1">>}
Slots == Scalars \cup {<<"ref", k>> : k \in 1..Len(h)}
\* references only to older cells: no cycles
Fits(k, s) == s[1] = "ref" => s[2] < k
Init == h = <<>> /\ n = 0 /\ last = <<>>
Step(x, l) == h' = x /\ n' = n + 1 /\ last' = l
Next == /\ n < MaxSteps
        /\ \/ Len(h) < MaxCells /\ \E c \in {EmptyObj, <<"a", <<>>>>} : Step(New(h, c), <<>>)
           \/ \E k \in 1..Len(h) : \/ Len(h) < MaxCells /\ Step(CopyCell(h, k), <<k, Len(h) + 1>>)
                                   \/ \E s \in Slots : Fits(k, s) /\ Step(IF h[k][1] = "o" THEN SetSlot(h, k, "a", s) ELSE AddSlot(h, k, s), <<>>)
                                   \/ \E x \in DOMAIN h[k][2] : Step(DelSlot(h, k, x), <<>>)
Spec == Init /\ [][Next]_vars
Copies == last # <<>> => Same(h, last[1], last[2])
Equivalence == \A i, j, k \in 1..Len(h) : /\ Same(h, i, i)
                                          /\ Same(h, i, j) => Same(h, j, i)
                                          /\ Same(h, i, j) /\ Same(h, j, k) => Same(h, i, k)
\* a step changes the contents of one cell and of those that contain it only
RECURSIVE Contains(_, _)
Contains(k, j) == k = j \/ \E x \in DOMAIN h[k][2] : h[k][2][x][1] = "ref" /\ Contains(h[k][2][x][2], j)
Independent == [][/\ \A k \in 1..Len(h) : h'[k] # h[k] => \A j \in 1..Len(h) : j # k => h'[j] = h[j]
                 /\ \A k \in 1..Len(h) : ~(\E j \in 1..Len(h) : h'[j] # h[j] /\ Contains(k, j)) =>
                        Content(h', k) = Content(h, k)]_vars
=============================================================================
