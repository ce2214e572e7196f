----------------------------- MODULE FsDataMC -----------------------------
(* Fs's account of a file's contents, in runs and records, against the obvious
   one: an array of bytes, of which each is a hole (-1, which reads as 0) or the
   tag of what wrote it. *)
EXTENDS Fs
CONSTANTS RS, N, Tags, MaxOps
VARIABLES fs, by, size, n
vars == <<fs, by, size, n>>
Z == <<0, 0>>
F == 2
Init == /\ fs = (1 :> Root(493, 0, 0, Z)) @@ (F :> NewInode("reg", 420, 0, 0, 0, "", RS, 0, Z))
        /\ by = [k \in 0..N-1 |-> -1] /\ size = 0 /\ n = 0
Tick == n < MaxOps /\ n' = n + 1
DoWrite == \E off \in 0..N-1, tag \in Tags: \E len \in 1..N-off:
              /\ fs' = Write(fs, F, off, len, tag, Z)
              /\ by' = [k \in 0..N-1 |-> IF off <= k /\ k < off + len THEN tag ELSE by[k]]
              /\ size' = Max2(size, off + len)
DoTrunc == \E s \in 0..N:
              /\ fs' = Setattr(fs, F, [size |-> s], Z)
              /\ by' = [k \in 0..N-1 |-> IF k < s THEN by[k] ELSE -1]
              /\ size' = s
DoDealloc == \E off \in 0..N-1: \E len \in 1..N-off:
              /\ fs' = Deallocate(fs, F, off, len, Z)
              /\ by' = [k \in 0..N-1 |-> IF off <= k /\ k < off + len /\ k < size THEN -1 ELSE by[k]]
              /\ UNCHANGED size
Next == Tick /\ (DoWrite \/ DoTrunc \/ DoDealloc)
Spec == Init /\ [][Next]_vars
View == <<fs, by, size>>
ino == fs[F]
At(runs, k) == LET c == {x \in ToSet(runs): x[1] <= k /\ k < x[2]} IN IF c = {} THEN -1 ELSE (CHOOSE x \in c: TRUE)[3]
\* Reads yield what was last written, and zeros elsewhere
Reads == /\ ino.size = size
         /\ \A off \in 0..N, len \in 0..N:
              LET r == ReadRuns(ino, off, len)
              IN  /\ ReadLen(ino, off, len) = Cardinality({k \in 0..N-1: off <= k /\ k < off + len /\ k < size})
                  /\ \A k \in 0..N-1: At(r, k) = IF off <= k /\ k < off + len /\ k < size THEN by[k] ELSE -1
\* All that was written is stored, and SEEK_DATA and SEEK_HOLE don't lie
IsStored(k) == \E x \in Stored(ino): x[1] <= k /\ k < x[2]
Space == /\ \A k \in 0..N-1: by[k] # -1 => IsStored(k)
         /\ SumExt(ino.ext) <= size
Seeks == \A off \in 0..N:
            LET d == SeekData(ino, off)
                holes == {to \in 0..N: SeekHoleOk(ino, off, "ok", to)}
            IN  /\ d[1] = "ok" => /\ d[2] >= off /\ d[2] < size
                                  /\ \A k \in off..d[2]-1: by[k] = -1
                /\ d[1] = "ENXIO" => \A k \in off..N-1: by[k] = -1
                /\ off <= size => holes # {} /\ \A to \in holes: off <= to /\ to <= size
                /\ off > size => SeekHoleOk(ino, off, "ENXIO", 0) /\ holes = {}
Inv == Consistent([fs EXCEPT ![1].ents = ("f" :> F)]) /\ Reads /\ Space /\ Seeks
=============================================================================
