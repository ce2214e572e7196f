----------------------------- MODULE FsckTrace -----------------------------
(* What the file systems of a real pool have stored, each time that it had been synced *)
EXTENDS TraceLib, Sound
VARIABLES seen   \* The file systems that were listed since the last snapshot
vars == <<l, seen>>
Init == TraceStart /\ seen = {}
Skip(e) == IsEvent(e) /\ UNCHANGED seen
Start == (IsEvent("new") \/ IsEvent("crash")) /\ seen' = {}
Fs == /\ IsEvent("fs")
      \* A mount that hasn't looked for dying inodes yet finds those that were in use when power failed
      /\ IF Sound(Line, IF Line.why = "found" THEN {x[1]: x \in {Line.inos[i]: i \in DOMAIN Line.inos}} ELSE {Line.open[i]: i \in DOMAIN Line.open})
         THEN TRUE ELSE FALSE
      /\ seen' = seen \cup {Line.tree}
Snap == /\ IsEvent("snap")
        /\ IF Forest(Line.trees, Line.tents) /\ seen = {Line.trees[i][1]: i \in DOMAIN Line.trees} THEN TRUE ELSE FALSE
        /\ seen' = {}
Next == Start \/ Fs \/ Snap \/ Skip("tree") \/ Skip("remount")
Spec == Init /\ [][Next]_vars
=============================================================================
