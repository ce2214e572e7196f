------------------------------ MODULE CodecMC -------------------------------
(* The code can do what it promises: checks every erasure set of all codes of
   up to MaxM columns and MaxF parity columns *)
EXTENDS Codec
CONSTANTS MaxM, MaxF
VARIABLES m, f
Init == m \in 2..MaxM /\ f \in 1..MaxF /\ f < m
Next == FALSE /\ UNCHANGED <<m, f>>
Spec == Init /\ [][Next]_<<m, f>>
Field == \A a \in 1..255 : Mul(a, Inv(a)) = 1
ASSUME Field
VMDS == VSupported(m - f, m) /\ f <= 4 => VRecoverable(m - f, f)
MDS == Recoverable(m - f, f)
=============================================================================
