------------------------------ MODULE CreditMC ------------------------------
EXTENDS Credit
CONSTANTS Cap, N
P == 1..N
Init == cap = Cap /\ bank = Cap /\ purse = [i \in P |-> 0]
Next == \E i, j \in P :
  \/ \E n \in 0..Cap : Borrow(i, n) \/ Move(i, j, SplitAmt(i, n)) \/ Move(i, j, n)
  \/ Move(i, j, HalveAmt(i)) \/ Move(i, j, purse[i]) \/ Repay(i)
Spec == Init /\ [][Next]_cvars
Bound == \A i \in P : purse[i] \in (-Cap)..(2 * Cap)
(* Unsigned splits never overdraw a purse *)
Sound == \A i \in P, n \in 0..Cap : purse[i] >= 0 => purse[i] - SplitAmt(i, n) >= 0 /\ purse[i] - HalveAmt(i) >= 0
=============================================================================
