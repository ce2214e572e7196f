---------------------------- MODULE FlightTrace -----------------------------
EXTENDS TraceLib, Flight
vars == <<l, role, blk, st, room, have>>
Init == TraceStart /\ FlightInit /\ room = FALSE
New == IsEvent("new") /\ room' = (Line.cap >= 4 * Cardinality(Blocks)) /\ have' = {} /\ role' = [t \in Readers |-> "none"] /\ blk' = [t \in Readers |-> 0] /\ st' = [t \in Readers |-> "busy"]
CallE == IsEvent("call") /\ Call(Line.t, Line.k, Line.read)
DoneE == IsEvent("done") /\ \E t \in Readers : blk[t] = Line.k /\ Done(t, Line.ok)
RetE == IsEvent("ret") /\ Line.good /\ Return(Line.t, Line.ok)
PendE == IsEvent("pend") /\ Pending(Line.t)
AbE == IsEvent("abandon") /\ Abandon(Line.t)
EndE == IsEvent("end") /\ Line.waiting = 0 /\ (\A t \in Readers : role[t] = "none") /\ UNCHANGED fvars
Next == New \/ CallE \/ DoneE \/ RetE \/ PendE \/ AbE \/ EndE
Spec == Init /\ [][Next]_vars
=============================================================================
