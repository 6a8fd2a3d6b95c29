---------------------------- MODULE TraceZipper ----------------------------
(***************************************************************************)
(* Judges histories of operations on instance nodes recorded from the      *)
(* library.  State: the schema S and the heap of all nodes obtained so far. *)
(* Every event re-reports any heap node whose observable state changed      *)
(* (ev.changed): persistence demands that there is none.                    *)
(***************************************************************************)
EXTENDS Zipper, TraceBase
VARIABLES l, S, heap, base     \* base[i]: 0, or the length of the path of the isolated instance of node i

Ev == Trace[l]

Expected(e) == LET z == heap[e.n] b == base[e.n] IN
    CASE b > 0 /\ AtTop(z, b) /\ e.op = "up"  -> NI
      [] b > 0 /\ AtTop(z, b) /\ e.op = "sib" -> Err({"NonexistentInstance", "NonexistentSchemaNode"})
      [] b > 0 /\ e.op = "top" -> TopAt(z, b)
      [] e.op = "orphan" -> Isolated(z)
      [] e.op = "get"   -> GetMember(S, z, e.name)
      [] e.op = "ent"   -> GetEntry(z, e.idx)
      [] e.op = "put"   -> PutMember(S, z, e.name, Val(e.val))
      [] e.op = "delm"  -> DeleteMember(S, z, e.name)
      [] e.op = "dele"  -> DeleteEntry(z, e.idx)
      [] e.op = "up"    -> Up(z)
      [] e.op = "top"   -> Top(z)
      [] e.op = "sib"   -> Sibling(S, z, e.name)
      [] e.op = "next"  -> Next_(z)
      [] e.op = "prev"  -> Previous(z)
      [] e.op = "insb"  -> InsertBefore(z, Val(e.val))
      [] e.op = "insa"  -> InsertAfter(z, Val(e.val))
      [] e.op = "upd"   -> Update(z, Val(e.val))
      [] e.op = "merge" -> Merge(S, z, Val(e.val))
      [] e.op = "look"  -> LookUp(S, z, [i \in 1..Len(e.keys) |-> <<e.keys[i][1], Val(e.keys[i][2])>>])
      [] e.op = "iter"  -> Names(z)
      [] e.op = "goto"  -> Node(RootOf(z), e.path)
      [] e.op = "getx"  -> Err({"NonexistentSchemaNode", "NonexistentInstance"})
      [] e.op = "adopt" -> Node(Val(e.obs.top), e.obs.path)   \* default completion: judged elsewhere
      [] OTHER          -> <<"nothing">>       \* validate, xpath, ...: no node results

\* observation of a node by the library vs. the specification
ObsClauses(o, z) ==
    If(Val(o.val) # ValOf(z), Exp("value", ValOf(z)))
    \cup If(o.path # PathOf(z), Exp("path", PathOf(z)))
    \cup If(Val(o.top) # RootOf(z), Exp("tree", RootOf(z)))
    \cup If(o.jp # JsonPointer(z), Exp("json-pointer", JsonPointer(z)))
    \cup If(o.name # (IF PathOf(z) = <<>> THEN "/" ELSE
                     IF IsEntry(z) THEN Parent(PathOf(z))[Len(PathOf(z))-1] ELSE LastKey(z)), "name")

OpClauses(e, x) ==
    IF x[1] = "err" THEN
        IF e.out[1] # "err" THEN {Exp("expected an error", x[2])}
        ELSE If(e.out[2] \notin x[2], Exp("wrong exception " \o e.out[2], x[2]))
    ELSE IF e.out[1] = "err" THEN {"unexpected exception " \o e.out[2]}
    ELSE CASE x[1] = "node" -> ObsClauses(e.obs, x)
           [] x[1] = "names" -> If(Rng(e.out[2]) # x[2] \/ Len(e.out[2]) # Cardinality(x[2]), Exp("names", x[2]))
           [] x[1] = "entries" -> If(e.out[2] # [i \in 1..x[2] |-> i - 1], Exp("entries", x[2]))
           [] OTHER -> {}

Edits == {"put", "delm", "dele", "insb", "insa", "upd", "merge"}
Verdict(e, x) ==
    (IF IOEnv.MODE = "persist" /\ e.op \notin Edits THEN {} ELSE OpClauses(e, x))
    \cup If(e.changed # <<>>, "persistence: existing nodes changed " \o ToString(e.changed))
    \cup If(e.argchanged, "persistence: argument value changed")

Init == l = 1 /\ S = <<>> /\ heap = <<>> /\ base = <<>>

Load == /\ Ev.op = "load"
        /\ S' = Ev.schema
        /\ heap' = <<Node(Val(Ev.tree), <<>>)>>
        /\ base' = <<0>>
        /\ Report(l, If(Ev.obs.val # Ev.tree, "load: value differs from the data loaded")
                     \cup If(~WellFormed(Ev.schema), "HARNESS: schema table"))
Step == /\ Ev.op # "load"
        /\ S' = S
        /\ LET x == Expected(Ev) IN
           /\ heap' = IF x[1] = "node" /\ Ev.out[1] = "node" THEN Append(heap, x) ELSE heap
           /\ base' = IF x[1] = "node" /\ Ev.out[1] = "node"
                      THEN Append(base, IF Ev.op = "orphan" THEN Len(PathOf(x)) ELSE base[Ev.n]) ELSE base
           /\ Report(l, Verdict(Ev, x))
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Load \/ Step)
=============================================================================
