----------------------------- MODULE TreeTrace -----------------------------
(* Whether the histories of concurrent operations on a tree are those of an
   ordered map, and whether what is in memory and in the store is a sound tree
   whenever nothing is under way.

   The map: every operation acts on each of its keys at one moment between its
   invocation and its return.  (A range query or deletion needn't act on all
   of its keys at the same moment.)  cfg[k] is the set of what may be the case
   of key k: its value, and which of the operations that are under way have
   acted on it already. *)
EXTENDS TraceLib
VARIABLES lim, top, cfg, pend
vars == <<l, lim, top, cfg, pend>>
keys == IF top < 0 THEN {} ELSE 0..top
Init == TraceStart /\ lim = <<>> /\ top = -1 /\ cfg = <<>> /\ pend = <<>>

New ==
  /\ IsEvent("new")
  /\ lim' = Line.limits /\ top' = Line.n - 1
  /\ cfg' = [k \in 0..top' |-> {<<0, {}>>}]
  /\ pend' = [x \in {} |-> 0]

Above(b, k) == CASE b[1] = "u" -> TRUE [] b[1] = "i" -> k >= b[2] [] OTHER -> k > b[2]
Below(b, k) == CASE b[1] = "u" -> TRUE [] b[1] = "i" -> k <= b[2] [] OTHER -> k < b[2]
Touches(o, k) == CASE o.op \in {"insert", "remove", "get"} -> k = o.k
                   [] o.op = "last" -> k >= o.r
                   [] OTHER -> Above(o.lo, k) /\ Below(o.hi, k)
First(b) == CASE b[1] = "u" -> 0 [] b[1] = "i" -> b[2] [] OTHER -> b[2] + 1
Last(b) == CASE b[1] = "u" -> top [] b[1] = "i" -> b[2] [] OTHER -> b[2] - 1
KeysOf(o) == CASE o.op \in {"insert", "remove", "get"} -> {o.k}
                    [] o.op = "last" -> (IF o.r < 0 THEN 0 ELSE o.r)..top
                    [] OTHER -> First(o.lo)..Last(o.hi)
(* What the operation found there *)
Found(o, k) == IF o.op = "range" THEN LET s == SelectSeq(o.r, LAMBDA x : x[1] = k) IN IF s = <<>> THEN 0 ELSE s[1][2] ELSE o.r
Legal(o, k, v) == CASE o.op = "rdel" -> TRUE
                    [] o.op = "last" -> (v # 0) = (k = o.r)
                    [] OTHER -> v = Found(o, k)
After(o, v) == CASE o.op = "insert" -> o.v [] o.op \in {"remove", "rdel"} -> 0 [] OTHER -> v

RECURSIVE Closure(_, _, _)
Closure(cs, k, busy) ==
  LET more == {<<After(Trace[pend[p]], c[1]), c[2] \cup {p}>> : <<c, p>> \in
                  {x \in cs \X busy : x[2] \notin x[1][2] /\ Legal(Trace[pend[x[2]]], k, x[1][1])}}
  IN IF more \subseteq cs THEN cs ELSE Closure(cs \cup more, k, busy)

Inv ==
  /\ IsEvent("inv")
  /\ pend' = (Line.id :> l) @@ pend
  /\ UNCHANGED <<lim, top, cfg>>
Ascending(r) == \A i \in 1..(Len(r) - 1) : r[i][1] < r[i + 1][1]
Ret ==
  /\ IsEvent("ret")
  /\ LET id == Line.id
         o == Trace[pend[id]]
         mine == KeysOf(o) \cap keys
         Next1(k) == {<<c[1], c[2] \ {id}>> : c \in {x \in Closure(cfg[k], k, {p \in DOMAIN pend : Touches(Trace[pend[p]], k)}) : id \in x[2]}}
     IN /\ IF o.op = "range" THEN Ascending(o.r) /\ \A i \in DOMAIN o.r : o.r[i][1] \in mine ELSE TRUE
        /\ IF o.op = "last" THEN o.r = -1 \/ o.r \in keys ELSE TRUE
        /\ IF o.op \in {"insert", "remove", "get"}
           THEN LET s == Next1(o.k) IN (s # {}) /\ (cfg' = IF s = cfg[o.k] THEN cfg ELSE [cfg EXCEPT ![o.k] = s])
           ELSE LET f == [k \in mine |-> Next1(k)] IN (\A k \in mine : f[k] # {}) /\ cfg' = [k \in keys |-> IF k \in mine THEN f[k] ELSE cfg[k]]
        /\ pend' = [p \in DOMAIN pend \ {id} |-> pend[p]]
  /\ UNCHANGED <<lim, top>>

(* Cleaning leaves nothing behind *)
Cleaned == IsEvent("cleaned") /\ Line.left = 0 /\ UNCHANGED <<lim, top, cfg, pend>>
(* A tree that's dropped gives back its credit *)
Dropped == IsEvent("dropped") /\ Line.lent = 0 /\ UNCHANGED <<lim, top, cfg, pend>>

(* Its nodes, each before its children: parent's index, height, kind, key in the
   parent, number of entries, lowest and highest key, transactions, stored? *)
Par(x) == x[1]
Lvl(x) == x[2]
Leaf(x) == x[3] = "leaf"
Key(x) == x[4]
Count(x) == x[5]
Lo(x) == x[6]
Hi(x) == x[7]
T0(x) == x[8]
T1(x) == x[9]
Stored(x) == x[10]
(* The last leaf before node i *)
Sound(n, r) ==
  /\ n[1][1] = 0 /\ Lvl(n[1]) = r.height
  /\ \A i \in DOMAIN n :
       LET x == n[i] IN
         /\ x[3] \in {"leaf", "int"}
         /\ Leaf(x) = (Lvl(x) = 1)
         /\ IF Stored(x) THEN r.wrote[i] >= T0(x) /\ r.wrote[i] < T1(x) ELSE r.wrote[i] = -1
         /\ IF i = 1
            THEN Leaf(x) \/ Count(x) >= 1
            ELSE LET p == n[Par(x)] IN
              /\ Par(x) < i /\ Lvl(p) = Lvl(x) + 1
              /\ IF Leaf(x) THEN Count(x) \in lim[3]..lim[4] ELSE Count(x) \in lim[1]..lim[2]
              /\ T0(p) <= T0(x) /\ T1(x) <= T1(p)
              /\ IF Leaf(x) THEN T1(x) = T0(x) + 1 ELSE TRUE
              /\ IF Stored(p) THEN Stored(x) ELSE TRUE
              /\ Key(x) <= Lo(x)
              /\ IF Leaf(n[i - 1]) THEN Hi(n[i - 1]) < Key(x) ELSE TRUE
  /\ \A i \in DOMAIN n : IF Leaf(n[i]) THEN TRUE ELSE Cardinality({j \in DOMAIN n : Par(n[j]) = i}) = Count(n[i])
  /\ IF r.dirty THEN TRUE ELSE \A i \in DOMAIN n : Stored(n[i])

Value(its, k) == LET s == SelectSeq(its, LAMBDA x : x[1] = k) IN IF s = <<>> THEN 0 ELSE s[1][2]
Tree ==
  /\ IsEvent("tree") /\ DOMAIN pend = {}
  /\ LET n == Line.nodes
         stored == {i \in DOMAIN n : Stored(n[i])}
         young == {i \in stored : T1(n[i]) > Line.t0}
     IN /\ Line.ok = "true" /\ Line.limits = lim
        /\ IF Sound(n, Line) THEN TRUE ELSE FALSE
        \* Everything in the store is the tree's, and everything of the tree is in the store
        /\ Line.recs[1] = Cardinality(stored) /\ Line.recs[2] = Line.blobs
        /\ Line.missing = <<>>
        /\ Len(Line.adr) = Cardinality(young) /\ {Line.adr[i] : i \in DOMAIN Line.adr} = young
        \* The leaves hold all of the credit that's lent
        /\ Line.lent[1] = Line.lent[2] /\ Line.debt >= 0
        /\ Ascending(Line.items) /\ \A i \in DOMAIN Line.items : Line.items[i][1] \in keys
        /\ cfg' = [k \in keys |-> {c \in cfg[k] : c[1] = Value(Line.items, k)}]
        /\ \A k \in keys : cfg'[k] # {}
  /\ UNCHANGED <<lim, top, pend>>
Next == New \/ Inv \/ Ret \/ Cleaned \/ Dropped \/ Tree
Spec == Init /\ [][Next]_vars
=============================================================================
