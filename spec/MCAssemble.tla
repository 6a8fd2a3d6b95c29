----------------------------- MODULE MCAssemble -----------------------------
(***************************************************************************)
(* Modules a and b (which augments and deviates a) are written statement by  *)
(* statement; rewritings that YANG defines as equivalent keep the schema.    *)
(***************************************************************************)
EXTENDS Assemble, Base
CONSTANT MaxBody, MaxAug, MaxDev
VARIABLES body, augs, devs, on

S(k, a, ss) == <<k, a, ss>>
Str == S("type", "string", <<>>)
Leaf(n, more) == S("leaf", n, <<Str>> \o more)
Pool == {Leaf("x", <<S("default", "d", <<>>)>>),
         S("container", "c", <<Leaf("x", <<S("if-feature", "f", <<>>)>>), S("uses", "G0", <<S("refine", "w", <<S("mandatory", "true", <<>>)>>)>>)>>),
         S("choice", "h", <<Leaf("y", <<>>), S("case", "z", <<Leaf("z", <<>>), Leaf("z2", <<S("if-feature", "not f", <<>>)>>)>>), S("default", "y", <<>>)>>),
         S("list", "l", <<S("key", "k", <<>>), Leaf("k", <<>>), Leaf("u", <<>>), S("unique", "u", <<>>), S("min-elements", "1", <<>>),
                          S("if-feature", "f", <<>>)>>),
         S("container", "e", <<S("config", "false", <<>>), S("uses", "G0", <<S("if-feature", "f", <<>>), S("when", "t", <<>>)>>)>>)}
G0 == S("grouping", "G0", <<Leaf("w", <<S("must", "m", <<>>)>>), S("container", "v", <<>>)>>)
APool == {S("augment", "/a:c", <<Leaf("n", <<S("mandatory", "true", <<>>)>>), S("container", "p", <<>>)>>),
          S("augment", "/a:c/p", <<S("container", "q", <<>>), S("when", "t2", <<>>)>>),
          S("augment", "/a:c/p/b:q", <<Leaf("r", <<>>), S("if-feature", "a:f", <<>>)>>),
          S("augment", "/a:h", <<Leaf("s", <<>>)>>)}
DPool == {S("deviation", "/a:c/a:w", <<S("deviate", "add", <<S("default", "7", <<>>)>>), S("deviate", "delete", <<S("must", "m", <<>>)>>)>>),
          S("deviation", "/a:c/b:p", <<S("deviate", "not-supported", <<>>)>>),
          S("deviation", "/a:l", <<S("deviate", "replace", <<S("min-elements", "3", <<>>)>>), S("deviate", "delete", <<S("unique", "a:u", <<>>)>>)>>)}
F(bd, ag, dv) == <<[n |-> "a", m |-> "a", px |-> [p \in {"a"} |-> "a"], ft |-> on, impl |-> TRUE, st |-> <<G0>> \o bd],
                   [n |-> "b", m |-> "b", px |-> [p \in {"a", "b"} |-> p], ft |-> {}, impl |-> TRUE, st |-> ag \o dv]>>
RECURSIVE Norm(_)
Norm(q) == {[q[i] EXCEPT !.ch = Norm(@)] : i \in 1..Len(q)}
Same(A, B) == Norm(Schema(A)) = Norm(Schema(B))
Cur == F(body, augs, devs)

Init == body = <<>> /\ augs = <<>> /\ devs = <<>> /\ on \in {{}, {"f"}}
Grow(q, x, max) == Len(q) < max /\ x \notin Rng(q)
Next == \/ \E x \in Pool : Grow(body, x, MaxBody) /\ body' = Append(body, x) /\ UNCHANGED <<augs, devs, on>>
        \/ \E x \in APool : Grow(augs, x, MaxAug) /\ augs' = Append(augs, x) /\ UNCHANGED <<body, devs, on>>
        \/ \E x \in DPool : Grow(devs, x, MaxDev) /\ devs' = Append(devs, x) /\ UNCHANGED <<body, augs, on>>
Spec == Init /\ [][Next]_<<body, augs, devs, on>>

\* the order of augments (and of statements) does not matter
AugOrder == Same(Cur, F(Reverse(body), Reverse(augs), devs))
\* deviations of different nodes commute
DevOrder == Same(Cur, F(body, augs, Reverse(devs)))
\* a grouping used once is the same as its content
Inline == Same(Cur, F(<<S("grouping", "G9", body), S("uses", "G9", <<>>)>>, augs, devs))
\* content may be moved to a submodule
Submodule == LET f == Cur IN
    Same(f, <<[f[1] EXCEPT !.st = <<>>], [f[1] EXCEPT !.n = "as", !.px = [p \in {"q"} |-> "a"], !.st = f[1].st], f[2]>>)
\* augments from the own module and from inside uses
RECURSIVE Long(_, _)
Long(q, in) == Map(q, LAMBDA s : IF in = "choice" /\ Kw(s) \in DataKw THEN S("case", Arg(s), <<s>>)
                                 ELSE <<s[1], s[2], Long(s[3], s[1])>>)
\* shorthand cases
Shorthand == Same(Cur, F(Long(body, "module"), augs, devs))
\* a guarded statement whose condition is false might as well not be there
RECURSIVE Prune(_, _)
Prune(F0, q) == Map(SelectSeq(q, LAMBDA s : Enabled(F0, "a", s)), LAMBDA s : <<s[1], s[2], Prune(F0, s[3])>>)
Guards == Same(Cur, F(Prune(Cur, body), augs, devs))
\* every augment whose target exists has been applied, and removed nodes are gone
RECURSIVE Paths(_, _)
Paths(q, pre) == UNION {{Append(pre, q[i].q)} \cup Paths(q[i].ch, Append(pre, q[i].q)) : i \in 1..Len(q)}
Complete == LET P == Paths(Schema(Cur), <<>>)
                C == {<<"c", "a">>} \X {<<"p", "b">>}
                gone == \E d \in Rng(devs) : Arg(d) = "/a:c/b:p" IN
            /\ (\E a \in Rng(augs) : Arg(a) = "/a:c") /\ (\E s \in Rng(body) : Arg(s) = "c")
               => (C \subseteq P <=> ~gone)
            /\ gone => \A p \in P : ~(Len(p) >= 2 /\ SubSeq(p, 1, 2) \in C)
\* a node is configuration only if all its ancestors are
RECURSIVE ConfigDown(_, _)
ConfigDown(q, c) == \A i \in 1..Len(q) : (q[i].cf = "true" => c) /\ ConfigDown(q[i].ch, q[i].cf = "true")
Config == ConfigDown(Schema(Cur), TRUE)
=============================================================================
