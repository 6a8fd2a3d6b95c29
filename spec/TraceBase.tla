---------------------------- MODULE TraceBase ----------------------------
(* Reading traces and reporting verdicts; extended by all trace specs.     *)
EXTENDS Base, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Report(l, f) == \/ f = {}
                \/ /\ f # {}
                   /\ PrintT("@@FAIL " \o ToJson([l |-> l, c |-> SetToSeq(f)]))
=============================================================================
