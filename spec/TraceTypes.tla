----------------------------- MODULE TraceTypes ----------------------------
(***************************************************************************)
(* Judges recorded uses of generated types.  State: the effective type, or   *)
(* "bad"/"odd" if the written type is to be refused / is not decided.        *)
(***************************************************************************)
EXTENDS TypeDefs, TraceBase
VARIABLES l, E, C

Ev_ == Trace[l]
TypeClauses(e, x) ==
    IF x.k = "odd" THEN {}
    ELSE IF e.out[1] = "err" /\ x.k = "ok" /\ \E i \in 1..Len(e.df) : ParseYang(x.t, e.df[i], e.ctx).k # "yes"
    THEN If(~e.out[3], "refused with an undocumented exception " \o e.out[2])
    ELSE IF e.out[1] = "err"
    THEN If(x.k = "ok", "a consistent type is refused with " \o e.out[2])
         \cup If(~e.out[3], "refused with an undocumented exception " \o e.out[2])
    ELSE IF x.k = "bad" THEN {"an inconsistent restriction is accepted"}
    ELSE If(x.t.b = "enumeration" /\ Rng(e.num) # Rng(x.t.en), Exp("enum values", x.t.en))
         \cup If(x.t.b = "bits" /\ Rng(e.num) # Rng(x.t.bt), Exp("bit positions", x.t.bt))
         \cup If(e.df # <<>> /\ LET d == ParseYang(x.t, e.df[Len(e.df)], e.ctx) IN
                 d.k = "yes" /\ (e.dfv = <<>> \/ e.dfv[1] # Canon(x.t, d.v)), "inherited default")
Parsed(t, e) == CASE e.how = "text" -> ParseText(t, e.in, C)
                  [] e.how = "json" -> ParseJson(t, e.in, C)
                  [] e.how = "xml" -> ParseXml(t, e.in, C)
\* -- the digest of a type: what the model knows of it, with the effective restrictions
DigestClauses(e, x) ==
    IF x.k # "ok" THEN {}
    ELSE IF e.out[1] = "err" THEN {"digest: exception " \o e.out[2]}
    ELSE LET t == x.t g == e.out[2]
             \* absent: as in the built-in type
             lims(got, all) == IF got = <<>> THEN all ELSE got
             P(what, a, b) == If(a # b, Exp("digest: " \o what, a))
             name(S) == {n[1] : n \in Rng(S)}
         IN P("base type", t.b, g.base) \cup P("derived type", e.tn, g.derived)
            \cup P("range", t.iv, lims(g.range, T0(e.ty, e.idents).iv))
            \cup P("length", t.ln, lims(g.length, T0(e.ty, e.idents).ln))
            \cup P("patterns", Cardinality({i \in 1..Len(t.pt) : ~t.pt[i][2]}), g.pats)
            \cup P("inverted patterns", Cardinality({i \in 1..Len(t.pt) : t.pt[i][2]}), g.npats)
            \cup (IF t.b = "decimal64" THEN P("fraction digits", t.fd, g.fd) ELSE {})
            \cup (IF t.b = "enumeration" THEN P("enums", name(t.en), Rng(g.enums)) ELSE {})
            \cup (IF t.b = "bits" THEN P("bits", Rng(t.bt), {<<g.bits[i], i - 1>> : i \in {i \in 1..Len(g.bits) : g.bits[i] # ""}}) ELSE {})
            \cup (IF t.b = "identityref" THEN P("identities", t.ids, Rng(g.ids)) ELSE {})
\* out: <<"no">>, <<"err", class>>, or <<"yes", value, canonical text, text parses
\* to the value, value is in the type, JSON form parses to the value>>
ValClauses(e) ==
    IF E.k # "ok" THEN {}
    ELSE IF e.out[1] = "err" THEN {"exception " \o e.out[2]}
    ELSE IF e.how = "illegal"       \* text with a character that YANG excludes
    THEN If(E.t.b = "string" /\ e.out[1] # "no", "accepted an illegal character " \o e.in)
    ELSE IF e.how = "native" THEN If((e.out[1] = "yes") # Has(E.t, e.in), "membership of a native value")
    ELSE LET r == Parsed(E.t, e) IN
         IF r.k = "odd" THEN {}
         ELSE IF r.k = "no" THEN If(e.out[1] = "yes", "accepted a value outside the type")
         ELSE IF e.out[1] = "no" THEN {Exp("refused", r.v)}
         ELSE If(e.out[2] # r.v, Exp("value", r.v))
              \cup If(e.out[3] # Canon(E.t, r.v), Exp("canonical text", Canon(E.t, r.v)))
              \cup If(~e.out[4] /\ ParseText(E.t, Canon(E.t, r.v), C) = r, "the canonical text denotes another value")
              \cup If(~e.out[5] /\ ParseJson(E.t, TyJson(E.t, r.v), C) = r, "the encoded value denotes another value")
Init == l = 1 /\ E = [k |-> "odd"] /\ C = [md |-> ""]
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE Ev_.op = "type" -> LET x == Elab(Ev_.ty, Ev_.idents) IN
                    /\ E' = (IF Ev_.out[1] = "err" THEN [k |-> "odd"] ELSE x)
                    /\ C' = Ev_.ctx /\ Report(l, TypeClauses(Ev_, x))
             [] Ev_.op = "digest" -> UNCHANGED <<E, C>> /\ Report(l, DigestClauses(Ev_, Elab(Ev_.ty, Ev_.idents)))
             [] Ev_.op = "val" -> UNCHANGED <<E, C>> /\ Report(l, ValClauses(Ev_))
=============================================================================
