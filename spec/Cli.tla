--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The yangson command as a sequence of steps, each of which may fail with   *)
(* the documented exit status.                                               *)
(*   1: files cannot be read, decoded or written                             *)
(*   2: YANG library or data model problem                                   *)
(*   3: the instance object is invalid                                       *)
(* Facts about a run:                                                        *)
(*   infile  "ok" | anything else: why it cannot be read or unpickled        *)
(*   lib     does the library load? (TRUE for pickled data models)           *)
(*   op      "none" | "id" | "tree" | "digest" | "dump" | "validate"         *)
(*   out     can the dump be written?                                        *)
(*   inst    "ok" | why the instance file cannot be read or is not JSON      *)
(*   sub     "ok" (or not given) | why the subschema doesn't exist           *)
(*   doc     is the JSON text a document of the (sub)schema and valid?       *)
(* Conversion of RFC 8525 libraries is at the end.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Steps == <<"infile", "lib", "op">>
\* the step that follows, or an exit status
After(f, step) ==
    CASE step = "infile" -> IF f.infile = "ok" THEN "lib" ELSE "exit 1"
      [] step = "lib" -> IF f.lib THEN "op" ELSE "exit 2"
      [] step = "op" -> CASE f.op = "dump" -> IF f.out THEN "exit 0" ELSE "exit 1"
                          [] f.op = "validate" -> "inst"
                          [] OTHER -> "exit 0"
      [] step = "inst" -> IF f.inst = "ok" THEN "sub" ELSE "exit 1"
      [] step = "sub" -> IF f.sub = "ok" THEN "doc" ELSE "exit 3"
      [] step = "doc" -> IF f.doc THEN "exit 0" ELSE "exit 3"
Exits == {"exit 0", "exit 1", "exit 2", "exit 3"}
RECURSIVE ExitFrom(_, _)
ExitFrom(f, step) == IF step \in Exits THEN step ELSE ExitFrom(f, After(f, step))
Exit(f) == LET x == ExitFrom(f, "infile") IN
           CASE x = "exit 0" -> 0 [] x = "exit 1" -> 1 [] x = "exit 2" -> 2 [] OTHER -> 3
Prints(f) == Exit(f) = 0 /\ f.op \in {"id", "tree", "digest"}

(* -- conversion ----------------------------------------------------------- *)
(* Y: [id |-> content id, ms |-> module sets, sc |-> schemas, ds |-> datastores]      *)
(*   module set  [n |-> name, mods |-> modules, imps |-> import-only modules]         *)
(*   module      [n, r, ns, ft |-> features, dv |-> names of deviation modules,       *)
(*                loc |-> locations, subs |-> sequence of [n, r, loc]]                *)
(*   schema      [n |-> name, ms |-> names of module sets]                            *)
(*   datastore   [n |-> name, sc |-> name of schema]                                  *)
R(q) == {q[i] : i \in 1..Len(q)}
First(loc) == IF loc = <<>> THEN "" ELSE loc[1]
SubEntry(s) == [n |-> s.n, r |-> s.r, loc |-> First(s.loc)]
Rev(s, n) == (CHOOSE m \in R(s.mods) : m.n = n).r
Entry(s, m, impl) == [n |-> m.n, r |-> m.r, ns |-> m.ns, impl |-> impl, ft |-> R(m.ft), loc |-> First(m.loc),
                      subs |-> {SubEntry(m.subs[i]) : i \in 1..Len(m.subs)},
                      dv |-> {<<n, Rev(s, n)>> : n \in R(m.dv)}]
\* implemented modules of the sets, and others that are only imported
Converted(Sets) ==
    LET I == UNION {{Entry(s, m, TRUE) : m \in R(s.mods)} : s \in Sets} IN
    I \cup {e \in UNION {{Entry(s, m, FALSE) : m \in R(s.imps)} : s \in Sets} : ~\E x \in I : x.n = e.n /\ x.r = e.r}
SetsOf(Y, sc) == {s \in R(Y.ms) : s.n \in R(sc.ms)}
\* the schema that is asked for: of a datastore, or by its name
Selected(Y, how, n) ==
    IF how = "schema" THEN {s \in R(Y.sc) : s.n = n}
    ELSE {s \in R(Y.sc) : \E d \in R(Y.ds) : d.n = n /\ d.sc = s.n}
\* references exist, names are unique, entries agree
ValidY(Y) ==
    /\ \A i, j \in 1..Len(Y.ms) : Y.ms[i].n = Y.ms[j].n => i = j
    /\ \A i, j \in 1..Len(Y.sc) : Y.sc[i].n = Y.sc[j].n => i = j
    /\ \A i, j \in 1..Len(Y.ds) : Y.ds[i].n = Y.ds[j].n => i = j
    /\ \A s \in R(Y.sc) : R(s.ms) \subseteq {m.n : m \in R(Y.ms)}
    /\ \A d \in R(Y.ds) : d.sc \in {s.n : s \in R(Y.sc)}
    /\ \A s \in R(Y.ms) :
          /\ \A i, j \in 1..Len(s.mods) : s.mods[i].n = s.mods[j].n => i = j
          /\ \A i, j \in 1..Len(s.imps) : s.imps[i].n = s.imps[j].n /\ s.imps[i].r = s.imps[j].r => i = j
          /\ \A m \in R(s.mods) : R(m.dv) \subseteq {x.n : x \in R(s.mods)}
          /\ \A m \in R(s.mods) \cup R(s.imps) : \A t \in R(Y.ms) : \A x \in R(t.mods) \cup R(t.imps) :
                (m.n = x.n /\ m.r = x.r) => (m.ns = x.ns /\ m.loc = x.loc /\ m.subs = x.subs)
          /\ \A m \in R(s.mods) \cup R(s.imps) : \A i, j \in 1..Len(m.subs) : m.subs[i].n = m.subs[j].n => i = j
=============================================================================
