-------------------------------- MODULE BTree --------------------------------
(* How a tree changes shape: insertion splits full nodes on the way down,
   removal merges or evens out lean ones on the way down, and a range deletion
   first cuts, leaving damaged nodes, and then repairs those along the cut.

   A node is [ks, ch, d]: its entries' keys, its children (none in a leaf), and
   whether the first pass of a range deletion found it in danger.  An internal
   node's key for a child is a lower bound of the child's keys.

   Whether the result is a sound tree of the right keys, for every history with
   few keys, and for sequential and balanced splitting.  TreeTrace asks the
   same of the real trees. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS N, MinI, MaxI, MinL, MaxL, Sequential
VARIABLES root, set, last
vars == <<root, set, last>>

Leaf(n) == n.ch = <<>>
Size(n) == Len(n.ks)
Lf(ks) == [ks |-> ks, ch |-> <<>>, d |-> FALSE]
Nd(ks, ch) == [ks |-> ks, ch |-> ch, d |-> FALSE]
Min(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinOf(n) == IF Leaf(n) THEN MinL ELSE MinI
MaxOf(n) == IF Leaf(n) THEN MaxL ELSE MaxI
RECURSIVE KeysIn(_), Height(_)
KeysIn(n) == IF Leaf(n) THEN {n.ks[i] : i \in DOMAIN n.ks} ELSE UNION {KeysIn(n.ch[i]) : i \in DOMAIN n.ch}
Height(n) == IF Leaf(n) THEN 1 ELSE 1 + Height(n.ch[1])
Has(n, k) == \E i \in DOMAIN n.ks : n.ks[i] = k
(* The child where k belongs *)
Pos(n, k) == LET s == {i \in DOMAIN n.ks : n.ks[i] <= k} IN IF s = {} THEN 1 ELSE CHOOSE i \in s : \A j \in s : j <= i
Cut(s, a, b) == SubSeq(s, a, b)
Without(s, i) == Cut(s, 1, i - 1) \o Cut(s, i + 1, Len(s))
Part(n, a, b) == [ks |-> Cut(n.ks, a, b), ch |-> IF Leaf(n) THEN <<>> ELSE Cut(n.ch, a, b), d |-> n.d]
Join(a, b) == [ks |-> a.ks \o b.ks, ch |-> a.ch \o b.ch, d |-> a.d]
SetChild(n, i, c) == [n EXCEPT !.ch = [@ EXCEPT ![i] = c]]
RmChild(n, i) == [n EXCEPT !.ks = Without(@, i), !.ch = Without(@, i)]

(* Insertion *)
Full(n, k) == ~(Leaf(n) /\ Has(n, k)) /\ Size(n) >= MaxOf(n)
LeftSize(n) == IF Sequential THEN Size(n) - MinOf(n) ELSE (Size(n) + 1) \div 2
Lh(n) == Part(n, 1, LeftSize(n))
Rh(n) == Part(n, LeftSize(n) + 1, Size(n))
Sorted(s) == LET RECURSIVE F(_)
                 F(x) == IF x = {} THEN <<>> ELSE LET m == CHOOSE a \in x : \A b \in x : a <= b IN <<m>> \o F(x \ {m})
             IN F(s)
RECURSIVE InsInto(_, _)
InsInto(n, k) ==
  IF Leaf(n) THEN Lf(Sorted(KeysIn(n) \cup {k}))
  ELSE LET i == Pos(n, k)
           m == IF k < n.ks[i] THEN [n EXCEPT !.ks = [@ EXCEPT ![i] = k]] ELSE n
           c == m.ch[i]
       IN IF Full(c, k)
          THEN InsInto([m EXCEPT !.ks = Cut(@, 1, i) \o <<Rh(c).ks[1]>> \o Cut(@, i + 1, Len(@)),
                                 !.ch = Cut(@, 1, i - 1) \o <<Lh(c), Rh(c)>> \o Cut(@, i + 1, Len(@))], k)
          ELSE SetChild(m, i, InsInto(c, k))
InsertAt(n, k) == IF Full(n, k) THEN InsInto(Nd(<<0, Rh(n).ks[1]>>, <<Lh(n), Rh(n)>>), k) ELSE InsInto(n, k)

(* Repair of child i, with its right sibling if there's one.  Result: the node,
   and how many nodes at or before the child went, and after it *)
Share(a, b) == Max2(1, (Size(b) - Size(a)) \div 2)
FirstKey(n) == n.ks[1]
Fix(n, i) ==
  LET right == i < Size(n)
      a == n.ch[IF right THEN i ELSE i - 1]
      b == n.ch[IF right THEN i + 1 ELSE i]
      j == IF right THEN i ELSE i - 1
  IN IF Size(a) + Size(b) <= MaxOf(a)
     THEN [n |-> RmChild(SetChild(n, j, Join(a, b)), j + 1), before |-> IF right THEN 0 ELSE 1, after |-> IF right THEN 1 ELSE 0]
     ELSE LET cut == IF right THEN Size(a) + Share(a, b) ELSE Size(a) - Share(b, a)
              all == Join(a, b)
              x == [Part(all, 1, cut) EXCEPT !.d = a.d]
              y == [Part(all, cut + 1, Size(all)) EXCEPT !.d = b.d]
          IN [n |-> [SetChild(SetChild(n, j, x), j + 1, y) EXCEPT !.ks = [@ EXCEPT ![j + 1] = FirstKey(y)]], before |-> 0, after |-> 0]

(* A root with one child gives way to it; one without any, to an empty leaf *)
Empty == [ks |-> <<>>, ch |-> <<Lf(<<>>)>>, d |-> FALSE]   \* An internal node without children
MergeRoot(n) == IF n = Empty THEN Lf(<<>>) ELSE IF ~Leaf(n) /\ Size(n) = 1 THEN n.ch[1] ELSE n
RECURSIVE MergeDown(_)
MergeDown(n) == LET m == MergeRoot(n) IN IF m = n THEN n ELSE MergeDown(m)

(* Removal *)
RECURSIVE Rem(_, _)
Rem(n, k) ==
  IF Leaf(n) THEN Lf(Sorted(KeysIn(n) \ {k}))
  ELSE LET i == Pos(n, k)
           m == IF Size(n.ch[i]) <= MinOf(n.ch[i]) THEN Fix(n, i).n ELSE n
           j == Pos(m, k)
       IN SetChild(m, j, Rem(m.ch[j], k))
RemoveFrom(n, k) == Rem(MergeRoot(n), k)

(* Range deletion: the keys in a..b-1.  Up is the key right of the node, or N+1.
   First the cut. *)
Norm(n) == IF ~Leaf(n) /\ n.ks = <<>> THEN Empty ELSE n
Flag(n, x) == [n EXCEPT !.d = x]
RECURSIVE Pass1(_, _, _, _)
Pass1(n, a, b, up) ==
  IF Leaf(n) THEN LET m == Lf(Sorted(KeysIn(n) \ a..(b - 1))) IN Flag(m, Size(m) < MinL)
  ELSE
  LET z == Size(n)
      bound(i) == IF i < z THEN n.ks[i + 1] ELSE up
      i == Pos(n, a)
      linc == a < n.ks[1] \/ n.ks[i] = a       \* Child i from its first key
      j == Pos(n, b)
      rexc == IF up <= N /\ b >= up THEN j + 1 ELSE IF n.ks[j] = b THEN j ELSE 0   \* up to before child rexc
      L == IF linc THEN 0 ELSE i
      R == IF rexc # 0 THEN 0 ELSE j
      first == IF linc THEN i ELSE i + 1
      lst == IF rexc # 0 THEN rexc - 1 ELSE j - 1
  IN IF L # 0 /\ L = R
     THEN LET c == Pass1(n.ch[L], a, b, bound(L))
              gone == Size(c) = 0
              m == IF gone THEN RmChild(n, L) ELSE SetChild(n, L, c)
          IN Flag(Norm(m), Size(m) <= MinI \/ (~gone /\ c.d))
     ELSE LET lc == IF L # 0 THEN <<Pass1(n.ch[L], a, b, bound(L))>> ELSE <<>>
              rc == IF R # 0 THEN <<Pass1(n.ch[R], a, b, bound(R))>> ELSE <<>>
              keep(i2) == i2 # L /\ i2 # R /\ ~(i2 \in first..lst)
              F[p \in 0..z] == IF p = 0 THEN <<<<>>, <<>>>>
                 ELSE LET q == F[p - 1]
                          c == IF p = L THEN lc[1] ELSE IF p = R THEN rc[1] ELSE n.ch[p]
                      IN IF keep(p) \/ ((p = L \/ p = R) /\ Size(c) # 0) THEN <<Append(q[1], n.ks[p]), Append(q[2], c)>> ELSE q
              m == Nd(F[z][1], F[z][2])
          IN Flag(Norm(m), Size(m) < MinI \/ (lc # <<>> /\ lc[1].d) \/ (rc # <<>> /\ rc[1].d))
(* Then the repair *)
Under(c, common) == IF Leaf(c) THEN Size(c) < MinL ELSE IF common THEN Size(c) <= MinI + 1 ELSE Size(c) <= MinI
RECURSIVE FixLeft(_, _, _, _, _, _)
FixLeft(n, l0, mb, mm, stole, two) ==
  LET i == l0 - mb IN
  IF Under(n.ch[i], ~two \/ mm > 0 \/ stole) /\ Size(n) > 1
  THEN LET f == Fix(n, i) IN FixLeft(f.n, l0, mb + f.before, mm + f.after, stole \/ (f.before = 0 /\ f.after = 0), two)
  ELSE [n |-> n, mb |-> mb, mm |-> mm]
RECURSIVE Pass2(_)
Pass2(n) ==
  IF Leaf(n) THEN n
  ELSE
  LET bad == {i \in DOMAIN n.ch : n.ch[i].d} IN
  IF bad = {} THEN n
  ELSE LET l0 == CHOOSE i \in bad : \A j \in bad : i <= j
           two == Cardinality(bad) > 1
           r0 == IF two THEN CHOOSE i \in bad \ {l0} : \A j \in bad \ {l0} : i <= j ELSE 0
           f == FixLeft(n, l0, 0, 0, FALSE, two)
           i == l0 - f.mb
           n1 == SetChild(f.n, i, Pass2(f.n.ch[i]))
       IN IF two /\ f.mm = 0
          THEN LET j == r0 - f.mb
                   g == IF Under(n1.ch[j], FALSE) THEN Fix(n1, j) ELSE [n |-> n1, before |-> 0, after |-> 0]
                   j2 == j - g.before
               IN SetChild(g.n, j2, Pass2(g.n.ch[j2]))
          ELSE n1
RECURSIVE Clear(_)
Clear(n) == [ks |-> n.ks, ch |-> [i \in DOMAIN n.ch |-> Clear(n.ch[i])], d |-> FALSE]
RangeDel(n, a, b) == Clear(MergeDown(Pass2(MergeDown(Pass1(n, a, b, N + 1)))))

Init == root = Lf(<<>>) /\ set = {} /\ last = "new"
Insert(k) == root' = InsertAt(root, k) /\ set' = set \cup {k} /\ last' = "insert"
Remove(k) == root' = RemoveFrom(root, k) /\ set' = set \ {k} /\ last' = "remove"
RDel(a, b) == root' = RangeDel(root, a, b) /\ set' = set \ (a..(b - 1)) /\ last' = "rdel"
Next == \/ \E k \in 1..N : Insert(k) \/ Remove(k)
        \/ \E a \in 1..N, b \in 2..(N + 1) : a < b /\ RDel(a, b)
Spec == Init /\ [][Next]_vars
View == <<root, set>>

RECURSIVE Sound(_, _, _, _)
Sound(n, top, lo, hi) ==
  /\ \A i \in 1..(Size(n) - 1) : n.ks[i] < n.ks[i + 1]
  /\ Size(n) <= MaxOf(n)
  /\ top \/ Size(n) >= MinOf(n)
  /\ IF Leaf(n) THEN \A i \in DOMAIN n.ks : n.ks[i] >= lo /\ n.ks[i] < hi
     ELSE /\ Size(n) = Len(n.ch) /\ Size(n) >= 1
          /\ \A i \in DOMAIN n.ch :
               /\ n.ks[i] < hi
               /\ Sound(n.ch[i], FALSE, n.ks[i], IF i < Size(n) THEN n.ks[i + 1] ELSE hi)
               /\ Height(n.ch[i]) = Height(n.ch[1])
Balanced == Sound(root, TRUE, 0, N + 1)
TheMap == KeysIn(root) = set
(* Every key is where a search looks for it *)
RECURSIVE Search(_, _)
Search(n, k) == IF Leaf(n) THEN Has(n, k) ELSE Search(n.ch[Pos(n, k)], k)
Found == \A k \in 1..N : Search(root, k) = (k \in set)

=============================================================================
