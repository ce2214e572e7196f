--------------------------- MODULE PoolCreateTrace ---------------------------
EXTENDS TraceLib, PoolCreate
Init == TraceStart
Next ==
  /\ IsEvent("parse")
  /\ LET p == Parse(Line.s) IN
       IF p.ok THEN Line.r = "ok" /\ Line.ast = p.ast ELSE Line.r = "err"
Spec == Init /\ [][Next]_l
=============================================================================
