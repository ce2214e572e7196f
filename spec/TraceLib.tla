------------------------------ MODULE TraceLib ------------------------------
(* What every trace specification shares.  A trace is a file of JSON lines,
   each the record of one event of the real code.  Variable l is the next line
   to be explained.  TLC's register 1 holds the furthest line ever reached, so
   that the postcondition can say how much of the trace is a behaviour of the
   specification. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
NTrace == Len(Trace)
Has(r, f) == f \in DOMAIN r
TraceStart == l = 1 /\ TLCSet(1, 1)
Line == Trace[l]
IsEvent(e) == l <= NTrace /\ Trace[l].e = e /\ l' = l + 1
(* For use as a CONSTRAINT *)
Mark == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
(* For use as a POSTCONDITION.  It never fails: the runner reads what it prints *)
Verdict == PrintT(<<"MATCHED", TLCGet(1) - 1, NTrace>>)
=============================================================================
