------------------------------ MODULE TraceLib ------------------------------
(* What every trace validation shares: the recorded events, and Chk, which    *)
(* names the expectation that a recorded event did not meet.                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)
TraceLen == Len(Trace)

Has(e, f) == f \in DOMAIN e
Chk(l, name, c, info) == IF c THEN TRUE ELSE PrintT("MISMATCH " \o ToString(<<name, l, info>>)) /\ FALSE
Sum(q) == FoldSeq(LAMBDA a, b : a + b, 0, q)
Count(q, P(_)) == Len(SelectSeq(q, P))
\* The whole trace was consumed: to be used as POSTCONDITION with l counting events from 1.
Consumed == IF TLCGet("stats").diameter = TraceLen + 1 THEN PrintT(<<"CONSUMED", TraceLen>>)
            ELSE PrintT(<<"STUCK", TLCGet("stats").diameter, TraceLen>>)
=============================================================================
