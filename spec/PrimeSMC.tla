------------------------------ MODULE PrimeSMC ------------------------------
(* The layout's promises, of every n, k and f, over a whole repetition *)
EXTENDS PrimeS
CONSTANT Ns
VARIABLES n, k, f
vars == <<n, k, f>>
Init == n \in Ns /\ k \in 2..n /\ f \in 1..(k - 1)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Chunks == {<<s, b>> : s \in 0..(SPR(n) - 1), b \in 0..(k - 1)}
Loc(c) == <<Disk(n, k, f, c[1], c[2]), Offset(n, k, f, c[1], c[2])>>
(* No two chunks of a stripe share a disk: losing f disks costs no stripe more than f chunks *)
Declustered == \A s \in 0..(SPR(n) - 1) :
  Cardinality({Disk(n, k, f, s, b) : b \in 0..(k - 1)}) = k
(* Chunks and places correspond one to one: no chunk overwrites another, no space is wasted *)
Bijective == {Loc(c) : c \in Chunks} = {<<d, o>> : d \in 0..(n - 1), o \in 0..(Depth(n, k) - 1)}
(* Parity, and the load of reconstruction, is spread evenly *)
ParityOn(d) == Cardinality({s \in 0..(SPR(n) - 1) : \E b \in M(k, f)..(k - 1) : Disk(n, k, f, s, b) = d})
Balanced == \A d \in 0..(n - 1) : ParityOn(d) = (n - 1) * f
Shared(d, e) == Cardinality({s \in 0..(SPR(n) - 1) : On(n, k, f, s, d) /\ On(n, k, f, s, e)})
Even == \A d \in 0..(n - 1), e \in 0..(n - 1) : d # e => Shared(d, e) = k * (k - 1)
Quick == \A s \in 0..(SPR(n) - 1), d \in 0..(n - 1) : On(n, k, f, s, d) <=> OnQ(n, k, f, s, Column(n, s, d))
(* The next repetition is the same, further down *)
Periodic == \A c \in Chunks :
  /\ Disk(n, k, f, c[1] + SPR(n), c[2]) = Disk(n, k, f, c[1], c[2])
  /\ Offset(n, k, f, c[1] + SPR(n), c[2]) = Offset(n, k, f, c[1], c[2]) + Depth(n, k)
=============================================================================
