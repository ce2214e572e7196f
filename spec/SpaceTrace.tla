----------------------------- MODULE SpaceTrace -----------------------------
(* Snapshots of a real pool, each taken just after a sync: whether every block
   that is in use is used by exactly one thing that the pool's trees refer to,
   every other block has been accounted for as free, and cleaning empties
   zones. *)
EXTENDS TraceLib, Functions, Sums
VARIABLES prev,     \* the line of this episode's previous snapshot, or 0
          maxrid,   \* the greatest record identifier ever seen
          range     \* <<cluster, zone>> -> <<first block, blocks>>, as far as it's known
vars == <<l, prev, maxrid, range>>
Init == TraceStart /\ prev = 0 /\ maxrid = 0 /\ range = [x \in {} |-> <<>>]
\* A crash takes the pool back in time, so that it's no matter what it was like before
New == (IsEvent("new") \/ IsEvent("crash")) /\ prev' = 0 /\ maxrid' = 0 /\ range' = [x \in {} |-> <<>>]
Skip(e) == IsEvent(e) /\ UNCHANGED <<prev, maxrid, range>>

\* Live extents are <<cluster, first block, blocks, record (-1 for direct ones)>>
Within(x, z) == x[1] = z[1] /\ x[2] >= z[3] /\ x[2] + x[3] <= z[3] + z[4]
Overlaps(x, c, r) == x[1] = c /\ x[2] < r[1] + r[2] /\ r[1] < x[2] + x[3]
\* Closed zones are <<cluster, zone, first block, blocks, freed blocks, first txg, last txg + 1>>

\* No block is used twice
Disjoint(s) ==
  \A i \in 1..Len(s.exts) - 1:
    LET a == s.exts[i] b == s.exts[i + 1] IN
      a[3] > 0 /\ (a[1] < b[1] \/ (a[1] = b[1] /\ a[2] + a[3] <= b[2]))
\* Blocks are in use if and only if something refers to them
Accounted(s) ==
  /\ s.used = Sum(s.exts, 3)
  /\ s.used <= s.size
  /\ \A z \in Range(s.closed): Sum(SelectSeq(s.exts, LAMBDA x: Within(x, z)), 3) = z[4] - z[5]
\* The live extents are in zones that may hold data, and don't cross their boundaries
InZones(s) ==
  /\ \A z \in Range(s.closed): \A x \in Range(s.exts): Overlaps(x, z[1], <<z[3], z[4]>>) => Within(x, z)
  /\ {<<z[1], z[2]>>: z \in Range(s.closed)} =
       UNION {{<<c - 1, z - 1>>: z \in {y \in DOMAIN s.states[c]: s.states[c][y] = "C"}}: c \in DOMAIN s.states}
  /\ \A k \in DOMAIN range:
       s.states[k[1] + 1][k[2] + 1] \in {"E", "D"} => \A x \in Range(s.exts): ~Overlaps(x, k[1], range[k])
  /\ \A z \in Range(s.closed): <<z[1], z[2]>> \in DOMAIN range => range[<<z[1], z[2]>>] = <<z[3], z[4]>>
\* Records are <<rid, cluster, block, blocks, refcount, lsize, csize, compressed, checksum>>
\* The allocation table is the inverse of the indirection table
Inverted(s) == Range(s.allc) = {<<r[2], r[3], r[1]>>: r \in Range(s.recs)} /\ Len(s.allc) = Len(s.recs)
\* Every record is referred to, by the one thing that it belongs to, and everything that's referred to is there
Referenced(s) ==
  LET R == {r[1]: r \in Range(s.recs)} IN
    /\ \A i \in 1..Len(s.recs) - 1: s.recs[i][1] < s.recs[i + 1][1]
    /\ Range(s.refs) = R
    /\ Len(s.refs) = Cardinality(R)
    /\ \A r \in Range(s.recs): r[5] = 1
\* Everything that's dirty has been written
Clean(s) == s.mem = 0
\* Direct nodes are <<cluster, block, blocks, tree, level, first txg, last txg + 1>>.  The cleaner relies on their txgs.
Txgs(s) ==
  \A n \in Range(s.dn): n[6] < n[7] /\
    \A z \in Range(s.closed):
      Within(n, z) =>
        IF n[5] = 1 THEN n[7] = n[6] + 1 /\ z[6] <= n[6] /\ n[6] < z[7]
                    ELSE z[6] < n[7] /\ n[6] < z[7]

Same(y, z) == y[1] = z[1] /\ y[2] = z[2] /\ y[6] = z[6] /\ y[7] = z[7]
\* Zones only fill up once, and records never change
Since(p, s) ==
  /\ LET new == Range(s.exts) \ Range(p.exts) IN
       \A y \in Range(p.closed), z \in Range(s.closed):
         y[1] = z[1] /\ y[2] = z[2] =>
           IF Same(y, z) THEN y[5] <= z[5] /\ \A x \in new: ~Within(x, z)
                         ELSE y[7] <= z[6]
  /\ LET P == {<<r[1], r[6], r[7], r[8], r[9]>>: r \in Range(p.recs)}
         I == {r[1]: r \in Range(p.recs)} IN
       \A r \in Range(s.recs): IF r[1] \in I THEN <<r[1], r[6], r[7], r[8], r[9]>> \in P ELSE r[1] > maxrid
\* Cleaning vacated every zone of which at least half had been freed
Cleaned(p, s) ==
  \A y \in Range(p.closed): 2 * y[5] >= y[4] => \A z \in Range(s.closed): ~Same(y, z)

Snap ==
  /\ IsEvent("snap")
  /\ LET s == Line IN
       \* (The condition of an IF, lest TLC evaluate it as an action, with one stack frame per element)
       /\ IF /\ Clean(s) /\ Disjoint(s) /\ Accounted(s) /\ InZones(s) /\ Inverted(s) /\ Referenced(s) /\ Txgs(s)
             /\ prev # 0 => Since(Trace[prev], s)
             /\ s.why = "cleaned" => Trace[prev].why = "before" /\ Cleaned(Trace[prev], s)
          THEN TRUE ELSE FALSE
       /\ prev' = l
       /\ maxrid' = IF s.recs # <<>> /\ s.recs[Len(s.recs)][1] > maxrid THEN s.recs[Len(s.recs)][1] ELSE maxrid
       /\ range' = [k \in {<<z[1], z[2]>>: z \in Range(s.closed)} |->
                      LET z == CHOOSE z \in Range(s.closed): <<z[1], z[2]>> = k IN <<z[3], z[4]>>] @@ range
Next == New \/ Snap \/ Skip("tree") \/ Skip("fs") \/ Skip("remount")
Spec == Init /\ [][Next]_vars
=============================================================================
