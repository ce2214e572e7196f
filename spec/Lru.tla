-------------------------------- MODULE Lru ---------------------------------
(* The block cache.  order lists the cached blocks' keys, from the least to the
   most recently used; sz is each block's size; and held are those that somebody
   has a handle to.  Those aren't evicted: as long as a tree's node is locked,
   everybody must lock the same copy of it.  If there's no room without evicting
   any, then the cache exceeds its capacity for a while. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES cap, order, sz, held
lvars == <<cap, order, sz, held>>

Keys == {order[i] : i \in DOMAIN order}
RECURSIVE Sum(_)
Sum(o) == IF o = <<>> THEN 0 ELSE sz[Head(o)] + Sum(Tail(o))
Size == Sum(order)
Del(o, k) == SelectSeq(o, LAMBDA x : x # k)
Put(f, k, n) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN n ELSE f[x]]

(* Make room for n bytes: expire the least recently used, no more than necessary *)
RECURSIVE Expire(_, _)
Expire(o, n) ==
  LET free == SelectSeq(o, LAMBDA x : x \notin held)
  IN IF free # <<>> /\ Sum(o) + n > cap THEN Expire(Del(o, Head(free)), n) ELSE o

LruInit(c) == cap = c /\ order = <<>> /\ sz = <<>> /\ held = {}

InsertNew(k, n) ==
  /\ n <= cap
  /\ LET o == Expire(order, n)
     IN ~(\E i \in DOMAIN o : o[i] = k) /\ order' = Append(o, k)
  /\ sz' = Put(sz, k, n) /\ UNCHANGED <<cap, held>>
(* Caching a block that's cached already does no more than make it recent *)
InsertDup(k, n) ==
  /\ k \in Keys /\ sz[k] = n
  /\ \E o \in {order, Expire(order, n)} :
       /\ \E i \in DOMAIN o : o[i] = k
       /\ order' \in {o, Append(Del(o, k), k)}
  /\ UNCHANGED <<cap, sz, held>>
Insert(k, n) == InsertNew(k, n) \/ InsertDup(k, n)
(* A hit is the block itself, and makes it the most recently used *)
Get(k, r) ==
  /\ r = IF k \in Keys THEN sz[k] ELSE -1
  /\ order' = IF k \in Keys THEN Append(Del(order, k), k) ELSE order
  /\ UNCHANGED <<cap, sz, held>>
(* A hit whose handle is kept *)
Hold(k, r) ==
  /\ r = IF k \in Keys THEN sz[k] ELSE -1
  /\ order' = IF k \in Keys THEN Append(Del(order, k), k) ELSE order
  /\ held' = IF k \in Keys THEN held \cup {k} ELSE held
  /\ UNCHANGED <<cap, sz>>
Release(k) == held' = held \ {k} /\ UNCHANGED <<cap, order, sz>>
(* A peek is no use *)
Peek(k, r) ==
  /\ r = IF k \in Keys THEN sz[k] ELSE -1
  /\ UNCHANGED lvars
Remove(k, r) ==
  /\ r = IF k \in Keys THEN sz[k] ELSE -1
  /\ order' = Del(order, k)
  /\ held' = held \ {k}
  /\ UNCHANGED <<cap, sz>>
Drop == order' = SelectSeq(order, LAMBDA x : x \in held) /\ UNCHANGED <<cap, sz, held>>

(* After an insertion everything fits, unless everything else is in use *)
Bounded == [][(Keys' \ Keys # {}) =>
                (Size' <= cap \/ \A i \in 1..(Len(order') - 1) : order'[i] \in held)]_lvars
Kept == [][\A k \in held : k \in held' => \E i \in DOMAIN order' : order'[i] = k]_lvars
NoDup == \A i, j \in DOMAIN order : i # j => order[i] # order[j]
=============================================================================
