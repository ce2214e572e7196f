------------------------------- MODULE PrimeS -------------------------------
(* PRIME-S, the declustered RAID layout (Alvarez et al., "Declustered disk
   array architectures with optimal and near-optimal parallelism").  There are
   n disks, a prime number, and stripes of k chunks, f of them parity.  A chunk
   is named <<a, p>>: data chunk a if p = -1, else the p'th parity chunk of the
   stripe that data chunk a begins.

   Stripe s is in iteration z = s div n.  Its b'th chunk is on disk
   ((s*m + b) * y) mod n for a data chunk, where m = k-f, and likewise with
   b >= m for a parity chunk, where y runs through 1..n-1 with z.  Every disk
   lays out its chunks in the order of their stripes, without gaps.  It's an
   on-disk format. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

M(k, f) == k - f
SPI(n) == n                                  \* stripes per iteration
SPR(n) == n * (n - 1)                        \* stripes per repetition
Datachunks(n, k, f) == SPR(n) * M(k, f)      \* per repetition
Depth(n, k) == k * (n - 1)                   \* rows per repetition

Y(n, s) == ((s \div n) % (n - 1)) + 1
(* Chunk b of stripe s, b counting data first *)
Disk(n, k, f, s, b) == ((((s % n) * M(k, f) + b) % n) * Y(n, s)) % n
(* The chunk's number among those on its disk.  Every iteration puts k chunks on
   each disk, so only this iteration must be searched.  A stripe's chunks are on
   different disks *)
On(n, k, f, s, d) == \E b \in 0..(k - 1) : Disk(n, k, f, s, b) = d
(* A quicker way to say so, x being the column that this iteration puts on disk d *)
Column(n, s, d) == CHOOSE x \in 0..(n - 1) : (x * Y(n, s)) % n = d
OnQ(n, k, f, s, x) == (x - (s % n) * M(k, f)) % n < k
Before(n, k, f, s, d) ==
  LET x == Column(n, s, d)
  IN Cardinality({t \in (s - (s % n))..(s - 1) : OnQ(n, k, f, t, x)})
Offset(n, k, f, s, b) == (s \div n) * k + Before(n, k, f, s, Disk(n, k, f, s, b))

(* The same, by chunk name *)
Stripe(k, f, id) == id[1] \div M(k, f)
Pos(k, f, id) == IF id[2] < 0 THEN id[1] % M(k, f) ELSE M(k, f) + id[2]
Canonical(k, f, id) == id[1] >= 0 /\ (id[2] < 0 \/ (id[1] % M(k, f) = 0 /\ id[2] < f))
DiskOf(n, k, f, id) == Disk(n, k, f, Stripe(k, f, id), Pos(k, f, id))
OffsetOf(n, k, f, id) == Offset(n, k, f, Stripe(k, f, id), Pos(k, f, id))
Name(k, f, s, b) == IF b < M(k, f) THEN <<s * M(k, f) + b, -1>> ELSE <<s * M(k, f), b - M(k, f)>>

(* The chunk at a place, if id is it *)
IsAt(n, k, f, id, d, o) == Canonical(k, f, id) /\ DiskOf(n, k, f, id) = d /\ OffsetOf(n, k, f, id) = o

(* The order of iteration: a stripe's data chunks, then its parity *)
Rank(k, f, id) == Stripe(k, f, id) * k + Pos(k, f, id)
Nth(k, f, r) == Name(k, f, r \div k, r % k)
=============================================================================
