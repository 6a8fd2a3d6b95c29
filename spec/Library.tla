------------------------------- MODULE Library -------------------------------
(***************************************************************************)
(* From a YANG library and module files to a set of loaded modules.          *)
(*                                                                         *)
(* L: sequence of entries [n |-> name, r |-> revision ("" if none),          *)
(*      ns |-> namespace, impl |-> implemented?, ft |-> features,            *)
(*      subs |-> sequence of submodule ids <<name, revision>>]               *)
(* D: sequence of directories, each a sequence of files                      *)
(*      [fn |-> file name, kind |-> "module" | "submodule" | "garbage",      *)
(*       n, r |-> name and revision in the text, px |-> own prefix,          *)
(*       bt |-> main module of a submodule, tag |-> identifies the text,     *)
(*       imps |-> sequence of imports <<module, prefix, revision>>]          *)
(* Module identifiers are <<name, revision>>.                                *)
(***************************************************************************)
EXTENDS Text

IdOf(e) == <<e.n, e.r>>
SubIds(e) == {e.subs[i] : i \in 1..Len(e.subs)}
MainIds(L) == {IdOf(L[i]) : i \in 1..Len(L)}
Ids(L) == MainIds(L) \cup UNION {SubIds(L[i]) : i \in 1..Len(L)}
EntryOf(L, id) == L[CHOOSE i \in 1..Len(L) : IdOf(L[i]) = id /\ \A j \in 1..Len(L) : IdOf(L[j]) = id => j <= i]
MainOf(L, id) == IF id \in MainIds(L) THEN id
                 ELSE IdOf(L[CHOOSE i \in 1..Len(L) : id \in SubIds(L[i])])
Implemented(L) == {IdOf(L[i]) : i \in {i \in 1..Len(L) : L[i].impl}}

\* -- files: in each directory, name@revision.yang and then name.yang; files whose text
\* is about another module or revision don't count
FileNames(id) == (IF id[2] = "" THEN <<>> ELSE <<id[1] \o "@" \o id[2] \o ".yang">>) \o <<id[1] \o ".yang">>
Candidates(D, id) == [d \in 1..Len(D) |-> [k \in 1..Len(FileNames(id)) |->
                        LET S == {i \in 1..Len(D[d]) : D[d][i].fn = FileNames(id)[k]} IN
                        IF S = {} THEN <<>> ELSE <<D[d][CHOOSE i \in S : TRUE]>>]]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Found(D, id) == LET all == Flat(Flat(Candidates(D, id)))
                    ok == SelectSeq(all, LAMBDA f : f.kind = "garbage" \/ (f.n = id[1] /\ f.r = id[2]))
                IN IF ok = <<>> THEN <<>> ELSE <<ok[1]>>
Text0(D, id) == Found(D, id)[1]
Readable(D, id) == Found(D, id) # <<>> /\ Text0(D, id).kind # "garbage"

\* -- revisions
RECURSIVE Newer(_, _)
\* (dates of equal form)
Newer(a, b) == IF a = "" THEN FALSE ELSE IF b = "" THEN TRUE
               ELSE IF Ch(a, 1) = Ch(b, 1) THEN Newer(From(a, 2), From(b, 2))
               ELSE DigitVal(Ch(a, 1)) > DigitVal(Ch(b, 1))
Latest(S) == CHOOSE x \in S : \A y \in S : ~Newer(y[2], x[2])
Revisions(L, n) == {x \in Ids(L) : x[1] = n}
\* what an import stands for: <<id>> or <<>>
Import(L, imp) ==
    LET S == {x \in MainIds(L) : x[1] = imp[1] /\ imp[3] \in {"", x[2]}} IN IF S = {} THEN <<>> ELSE <<Latest(S)>>
ImportsOf(D, id) == IF Readable(D, id) THEN Text0(D, id).imps ELSE <<>>
\* prefixes: set of <<prefix, id>>
Prefixes(L, D, id) == {<<Text0(D, id).px, MainOf(L, id)>>}
                      \cup {<<ImportsOf(D, id)[i][2], Import(L, ImportsOf(D, id)[i])[1]>> : i \in 1..Len(ImportsOf(D, id))}

\* -- imports among implemented modules
Parts(L, id) == {id} \cup SubIds(EntryOf(L, id))
DependsOn(L, D, id) == {x \in Implemented(L) : \E p \in Parts(L, id) : \E i \in 1..Len(ImportsOf(D, p)) :
                                                  Import(L, ImportsOf(D, p)[i]) = <<x>>}
RECURSIVE Stuck(_, _, _)
\* what remains after removing, again and again, modules that need nothing that remains
Stuck(L, D, S) == LET T == {x \in S : DependsOn(L, D, x) \cap S = {}} IN IF T = {} THEN S ELSE Stuck(L, D, S \ T)

\* -- what the loaded modules contain (all texts define typedef t, enumerating their tag, and
\* grouping g, with leaf g-TAG; modules and submodules have a container named after them
\* with a leaf of their own module's type t (modules: also a leaf idr) and, for import number i, a leaf of its type and
\* a container using its grouping; they augment the containers of the modules they import)
Num == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Top(D, id) == "top-" \o Text0(D, id).tag
Nodes(L, D) ==   \* <<route, enumerated values>>
    UNION {LET x == MainOf(L, id)[1] IN
           {<<<<<<Top(D, id), x>>>>, <<>>>>, <<<<<<Top(D, id), x>>, <<"own", x>>>>, <<Text0(D, MainOf(L, id)).tag>>>>}
           \cup (IF id \in MainIds(L) THEN {<<<<<<Top(D, id), x>>, <<"idr", x>>>>, <<>>>>} ELSE {})
           \cup UNION {LET imp == ImportsOf(D, id)[i] y == Import(L, imp)[1] IN
                {<<<<<<Top(D, id), x>>, <<"i" \o Num[i], x>>>>, <<Text0(D, y).tag>>>>,
                 <<<<<<Top(D, id), x>>, <<"c" \o Num[i], x>>>>, <<>>>>,
                 <<<<<<Top(D, id), x>>, <<"c" \o Num[i], x>>, <<"g-" \o Text0(D, y).tag, x>>>>, <<>>>>}
                \cup (IF y \in Implemented(L) /\ y # MainOf(L, id)
                      THEN {<<<<<<Top(D, y), y[1]>>, <<"by-" \o Text0(D, id).tag \o Num[i], x>>>>, <<Text0(D, MainOf(L, id)).tag>>>>} ELSE {})
               : i \in 1..Len(ImportsOf(D, id))}
          : id \in UNION {Parts(L, m) : m \in Implemented(L)}}

\* -- reasons for refusing the library
Refusals(L, D) ==
    (IF \E i, j \in 1..Len(L) : i # j /\ L[i].n = L[j].n /\ L[i].impl /\ L[j].impl THEN {"MultipleImplementedRevisions"} ELSE {})
    \cup (IF \E x \in Ids(L) : Found(D, x) = <<>> THEN {"ModuleNotFound"} ELSE {})
    \cup (IF \E x \in Ids(L) : Found(D, x) # <<>> /\ Text0(D, x).kind = "garbage" THEN {"UnexpectedInput"} ELSE {})
    \cup (IF \E x \in MainIds(L) : Readable(D, x) /\ Text0(D, x).kind # "module" THEN {"StatementNotFound"} ELSE {})
    \cup (IF \E i \in 1..Len(L) : \E x \in SubIds(L[i]) :
               Readable(D, x) /\ (Text0(D, x).kind # "submodule" \/ Text0(D, x).bt # L[i].n) THEN {"StatementNotFound"} ELSE {})
    \cup (IF \E x \in Ids(L) : \E i \in 1..Len(ImportsOf(D, x)) : Import(L, ImportsOf(D, x)[i]) = <<>>
          THEN {"ModuleNotRegistered"} ELSE {})
    \cup (IF Stuck(L, D, Implemented(L)) # {} THEN {"CyclicImports"} ELSE {})
=============================================================================
