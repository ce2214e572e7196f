--------------------------- MODULE FlightThreads ----------------------------
(* The same as Flight, seen from outside by threads that don't know when the
   others' calls take effect.  An event of a thread's is logged
     call: before it asks for a block         ret: after it was answered
     read: as it begins to read the store     done: as the store answers
   Calls end, and between read and done of one thread nobody else reads the
   same block.  The answer is the block, or else an error if a read of it failed
   that had not returned when the call began. *)
EXTENDS TraceLib
CONSTANTS Readers
(* per reader: the block it asks for, -1 if none; whether it is reading;
   whether its own read failed; whether a failure could have reached it *)
VARIABLES ask, busy, failed, told
fvars == <<ask, busy, failed, told>>
vars == <<l, ask, busy, failed, told>>
All(x) == [t \in Readers |-> x]
Zero == ask = All(-1) /\ busy = All(FALSE) /\ failed = All(FALSE) /\ told = All(FALSE)
Init == TraceStart /\ Zero
New == IsEvent("new") /\ ask' = All(-1) /\ busy' = All(FALSE) /\ failed' = All(FALSE) /\ told' = All(FALSE)
Call == /\ IsEvent("call") /\ ask[Line.t] = -1
        /\ ask' = [ask EXCEPT ![Line.t] = Line.k]
        /\ told' = [told EXCEPT ![Line.t] = \E u \in Readers : ask[u] = Line.k /\ failed[u]]
        /\ failed' = [failed EXCEPT ![Line.t] = FALSE]
        /\ UNCHANGED busy
Read == /\ IsEvent("read") /\ ask[Line.t] = Line.k
        /\ \A u \in Readers : busy[u] => ask[u] # Line.k
        /\ busy' = [busy EXCEPT ![Line.t] = TRUE] /\ UNCHANGED <<ask, failed, told>>
Done == /\ IsEvent("done") /\ busy[Line.t]
        /\ busy' = [busy EXCEPT ![Line.t] = FALSE]
        /\ failed' = [failed EXCEPT ![Line.t] = ~Line.ok]
        /\ told' = IF Line.ok THEN told ELSE [u \in Readers |-> told[u] \/ ask[u] = Line.k]
        /\ UNCHANGED ask
Ret == /\ IsEvent("ret") /\ ask[Line.t] # -1 /\ Line.good /\ ~busy[Line.t]
       /\ IF failed[Line.t] THEN ~Line.ok ELSE Line.ok \/ told[Line.t]
       /\ ask' = [ask EXCEPT ![Line.t] = -1] /\ failed' = [failed EXCEPT ![Line.t] = FALSE]
       /\ UNCHANGED <<busy, told>>
End == IsEvent("end") /\ (\A t \in Readers : ask[t] = -1) /\ UNCHANGED fvars
Next == New \/ Call \/ Read \/ Done \/ Ret \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
