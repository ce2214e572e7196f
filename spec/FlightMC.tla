------------------------------ MODULE FlightMC ------------------------------
EXTENDS Flight
Init == FlightInit /\ room \in BOOLEAN
Next == \E t \in Readers :
  \/ \E k \in Blocks, r \in BOOLEAN : Call(t, k, r)
  \/ \E ok \in BOOLEAN : Done(t, ok) \/ Return(t, ok)
  \/ Abandon(t)
Spec == Init /\ [][Next]_fvars
(* If every read is answered, and everybody polls, then everybody is served *)
Live == Spec /\ \A t \in Readers :
  WF_fvars(\E ok \in BOOLEAN : Done(t, ok)) /\ WF_fvars(\E ok \in BOOLEAN : Return(t, ok))
Answered == \A t \in Readers : role[t] # "none" ~> role[t] = "none"
=============================================================================
