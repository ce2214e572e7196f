------------------------------ MODULE LruTrace ------------------------------
EXTENDS TraceLib, Lru
vars == <<l, cap, order, sz, held>>
Init == TraceStart /\ LruInit(0)
Acc == Line.size = Size' /\ Line.cap = cap
New == /\ IsEvent("new") /\ cap' = Line.cap /\ order' = <<>> /\ sz' = <<>> /\ held' = {}
Ins == IsEvent("ins") /\ Insert(Line.k, Line.n) /\ Acc
Ok == IF Line.r < 0 THEN TRUE ELSE Line.ok
GetE == IsEvent("get") /\ Get(Line.k, Line.r) /\ Ok /\ Acc
HoldE == IsEvent("hold") /\ Hold(Line.k, Line.r) /\ Ok /\ Acc
RelE == IsEvent("rel") /\ Release(Line.k) /\ Acc
Ref == IsEvent("ref") /\ Peek(Line.k, Line.r) /\ Ok /\ Acc
Rem == IsEvent("rem") /\ Remove(Line.k, Line.r) /\ Ok /\ Acc
DropE == IsEvent("drop") /\ Drop /\ Acc
Nop == IsEvent("nop") /\ UNCHANGED lvars /\ Acc
(* Another block of the same name, whose old one needn't make room, is a bug that must not go unnoticed *)
Conf == /\ IsEvent("conf")
        /\ IF Line.k \in Keys THEN Line.r = "panic" \/ \A i \in DOMAIN Expire(order, Line.n) : Expire(order, Line.n)[i] # Line.k
           ELSE Line.r = "ok"
        /\ UNCHANGED lvars
Next == New \/ Ins \/ GetE \/ HoldE \/ RelE \/ Ref \/ Rem \/ DropE \/ Nop \/ Conf
Spec == Init /\ [][Next]_vars
=============================================================================
