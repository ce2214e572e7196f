---------------------------- MODULE PoolCreateGen ----------------------------
(* All short sequences of words, which the driver feeds to the real parser *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLE s
Words == {"mirror", "raid", "da0", "/dev/x", "3", "40000", "%"}
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E w \in Words : s' = Append(s, w)
Spec == Init /\ [][Next]_s
Emit == PrintT(<<"GEN", ToJson(s)>>)
=============================================================================
