------------------------------- MODULE LruMC --------------------------------
EXTENDS Lru
CONSTANTS K, Cap, MaxN
Init == LruInit(Cap)
Next == \E k \in K : \/ \E n \in 0..MaxN : Insert(k, n)
                     \/ \E r \in -1..MaxN : Get(k, r) \/ Remove(k, r)
                     \/ Drop
                     \/ \E r \in -1..MaxN : Hold(k, r)
                     \/ Release(k)
Spec == Init /\ [][Next]_lvars
(* What was used last survives any insertion that leaves room for it *)
Recent == [][\A k \in K, n \in 0..MaxN :
  (Insert(k, n) /\ order # <<>> /\ k \notin Keys /\ held = {} /\ sz[order[Len(order)]] + n <= cap)
    => \E i \in DOMAIN order' : order'[i] = order[Len(order)]]_lvars
=============================================================================
