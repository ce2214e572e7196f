-------------------------------- MODULE Fs --------------------------------
(* What a user may observe of one file system.

   The state is a function from inode numbers to inodes, and everything that
   fs.rs promises its callers is a function of it.  All of the operators below
   are pure: each takes the table of inodes and an operation's arguments and
   yields the new table, or the result.  FsTrace says that the real code's
   histories are behaviours of them, and FsMC that they preserve the
   invariants at the end of this module, whatever the VFS does.

   File contents are kept as runs <<start, end, tag>>, in order and disjoint.
   A tag stands for what one write(2) wrote: the driver writes bytes that are a
   function of the tag and of their offset, so that it can tell from what it
   reads which write they came from.  Whatever is in no run is a hole, and reads
   as zeros.

   ext holds the lengths of the stored records.  It's what st_blocks and
   SEEK_HOLE and SEEK_DATA expose.

   Times are intervals <<lo, hi>>: the time of an update lies between the
   beginning and the end of the operation that made it. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Empty == [x \in {} |-> 0]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == (x :> v) @@ f

----------------------------------------------------------------------------
(* Runs *)
\* Adds a run at the end, merging it with the last one if possible
Push(rs, r) == IF r[1] >= r[2] THEN rs
               ELSE IF Len(rs) > 0 /\ rs[Len(rs)][2] = r[1] /\ rs[Len(rs)][3] = r[3]
                    THEN [rs EXCEPT ![Len(rs)] = <<@[1], r[2], r[3]>>]
                    ELSE Append(rs, r)
PushAll(rs, new) == FoldLeft(Push, rs, new)
\* That part of the runs that is within [s, e)
Clip(rs, s, e) == FoldLeft(LAMBDA acc, r: Push(acc, <<Max2(r[1], s), Min2(r[2], e), r[3]>>), <<>>, rs)
Beyond == 1073741824
Cut(rs, s, e) == PushAll(Clip(rs, 0, s), Clip(rs, e, Beyond))
Overlay(rs, s, e, tag) == PushAll(Push(Clip(rs, 0, s), <<s, e, tag>>), Clip(rs, e, Beyond))

(* Records: ext maps a record's index to the length of what is stored of it *)
SumExt(ext) == FoldFunction(+, 0, ext)
ExtAfterWrite(ext, rs, off, len) ==
    LET recs == (off \div rs)..((off + len - 1) \div rs)
        one(i) == LET upto == Min2(off + len - i * rs, rs)
                      old == IF i \in DOMAIN ext THEN ext[i] ELSE 0
                  IN  Max2(old, upto)
    IN [i \in recs |-> one(i)] @@ ext
\* Everything in [s, e) goes away.  A record's tail need not be stored, but a
\* hole at its beginning or in its middle must be.
ExtAfterDealloc(ext, rs, s, e) ==
    LET len(i) == LET b == i * rs
                      lo == Max2(s, b) - b
                      hi == Min2(e, b + rs) - b
                  IN  IF lo >= hi \/ lo >= ext[i] THEN ext[i]
                      ELSE IF hi >= ext[i] THEN lo ELSE ext[i]
    IN [i \in {j \in DOMAIN ext: len(j) > 0} |-> len(i)]

----------------------------------------------------------------------------
(* Inodes *)
NewInode(ty, perm, uid, gid, rdev, tgt, rs, par, t) ==
    [ty |-> ty, perm |-> perm, uid |-> uid, gid |-> gid, rdev |-> rdev, tgt |-> tgt, rs |-> rs,
     par |-> par, nlink |-> IF ty = "dir" THEN 2 ELSE 1, size |-> 0, flags |-> 0,
     ents |-> Empty, runs |-> <<>>, ext |-> Empty, xa |-> Empty,
     at |-> t, mt |-> t, ct |-> t, bt |-> t]
\* The root's "." is its only link
Root(perm, uid, gid, t) == [NewInode("dir", perm, uid, gid, 0, "", 4096, 1, t) EXCEPT !.nlink = 1]
IsDir(I, i) == i \in DOMAIN I /\ I[i].ty = "dir"
TouchDir(I, p, t) == [I EXCEPT ![p].mt = t, ![p].ct = t]
Result(I, r) == [fs |-> I, r |-> r]

Create(I, p, n, ino, ty, perm, uid, gid, rdev, tgt, rs, t) ==
    LET J == TouchDir(I, p, t)
        K == [J EXCEPT ![p].ents = Put(@, n, ino), ![p].nlink = IF ty = "dir" THEN @ + 1 ELSE @]
    IN  Put(K, ino, NewInode(ty, perm, uid, gid, rdev, tgt, rs, IF ty = "dir" THEN p ELSE 0, t))

\* What lookup yields: <<error, inode, what a directory's handle takes for its parent>>
ParOf(I, i) == IF i = 1 THEN 0 ELSE IF I[i].ty = "dir" THEN I[i].par ELSE 0
Lookup(I, p, n) ==
    CASE n = "."  -> <<"ok", p, ParOf(I, p)>>
      [] n = ".." -> <<"ok", I[p].par, ParOf(I, I[p].par)>>
      [] OTHER    -> IF n \in DOMAIN I[p].ents THEN LET i == I[p].ents[n] IN <<"ok", i, ParOf(I, i)>>
                     ELSE <<"ENOENT", 0, 0>>

Link(I, p, n, i, t) ==
    [TouchDir(I, p, t) EXCEPT ![p].ents = Put(@, n, i), ![i].nlink = @ + 1, ![i].ct = t]

\* One link of a non-directory is gone
DropLink(I, i, keep, t) ==
    IF I[i].nlink = 1 /\ ~keep THEN Del(I, i)
    ELSE [I EXCEPT ![i].nlink = @ - 1, ![i].ct = t]

\* keep: somebody has the file open
Unlink(I, p, n, keep, t) ==
    IF n \notin DOMAIN I[p].ents THEN Result(I, "ENOENT")
    ELSE LET i == I[p].ents[n]
             J == [TouchDir(I, p, t) EXCEPT ![p].ents = Del(@, n)]
         IN  Result(DropLink(J, i, keep, t), "ok")
\* Nobody needs the inode any more
Forget(I, i) == IF i \in DOMAIN I /\ I[i].nlink = 0 THEN Del(I, i) ELSE I

Rmdir(I, p, n, t) ==
    IF n \notin DOMAIN I[p].ents THEN Result(I, "ENOENT")
    ELSE LET i == I[p].ents[n]
         IN  IF I[i].ents # Empty THEN Result(I, "ENOTEMPTY")
             ELSE Result(Del([TouchDir(I, p, t) EXCEPT ![p].ents = Del(@, n), ![p].nlink = @ - 1], i), "ok")

\* A file that rename replaces goes away with its last link even if it is open
Rename(I, p, n, q, m, t) ==
    IF n \in {".", ".."} THEN Result(I, "EINVAL")
    ELSE LET i == I[p].ents[n]
             isdir == I[i].ty = "dir"
             ex == m \in DOMAIN I[q].ents
             d == I[q].ents[m]
         IN  IF ex /\ isdir /\ I[d].ents # Empty THEN Result(I, "ENOTEMPTY")
             ELSE LET J0 == IF ~ex THEN I
                            ELSE IF isdir THEN Del([I EXCEPT ![q].nlink = @ - 1], d)
                            ELSE DropLink(I, d, FALSE, t)
                      J1 == [J0 EXCEPT ![p].ents = Del(@, n), ![p].nlink = IF isdir THEN @ - 1 ELSE @]
                      J2 == [J1 EXCEPT ![q].ents = Put(@, m, i), ![q].nlink = IF isdir THEN @ + 1 ELSE @]
                      J3 == IF isdir THEN [J2 EXCEPT ![i].par = q] ELSE J2
                      \* Whether the file's own ctime changes is unspecified
                      J4 == [J3 EXCEPT ![i].ct = <<@[1], t[2]>>]
                  IN  Result(TouchDir(TouchDir(J4, p, t), q, t), "ok")

----------------------------------------------------------------------------
(* Data *)
Dealloc(ino, s, e) == [ino EXCEPT !.runs = Cut(@, s, e), !.ext = ExtAfterDealloc(@, ino.rs, s, e)]
Resize(ino, size) == [(IF size < ino.size THEN Dealloc(ino, size, Beyond) ELSE ino) EXCEPT !.size = size]
Write(I, i, off, len, tag, t) ==
    [I EXCEPT ![i].runs = Overlay(@, off, off + len, tag),
              ![i].ext = ExtAfterWrite(@, I[i].rs, off, len),
              ![i].size = Max2(@, off + len),
              ![i].mt = t, ![i].ct = t]
Deallocate(I, i, off, len, t) ==
    LET s == Min2(off, I[i].size)
        e == Min2(off + len, I[i].size)
    IN  IF s >= e THEN I ELSE [I EXCEPT ![i] = [Dealloc(@, s, e) EXCEPT !.mt = t, !.ct = t]]
ReadLen(ino, off, len) == Max2(0, Min2(off + len, ino.size) - off)
ReadRuns(ino, off, len) == Clip(ino.runs, off, Min2(off + len, ino.size))

\* The stored ranges, as a set of <<start, end>>
Stored(ino) == {<<k * ino.rs, k * ino.rs + ino.ext[k]>>: k \in DOMAIN ino.ext}
MinOf(S) == CHOOSE x \in S: \A y \in S: x <= y
SeekData(ino, off) ==
    LET c == {Max2(x[1], off): x \in {y \in Stored(ino): y[2] > off}}
    IN  IF off > ino.size \/ c = {} THEN <<"ENXIO", 0>> ELSE <<"ok", MinOf(c)>>
\* Beyond the last of the data, POSIX permits the file's size as well
SeekHoleOk(ino, off, r, to) ==
    LET S == Stored(ino)
        in(p) == \E x \in S: x[1] <= p /\ p < x[2]
        \* A hole can only begin here or where something ends
        c == {p \in {off, ino.size} \cup {x[2]: x \in S}: p >= off /\ p <= ino.size /\ ~in(p)}
    IN  IF off > ino.size THEN r = "ENXIO"
        ELSE /\ r = "ok"
             /\ \/ to = MinOf(c)
                \/ to = ino.size /\ \A x \in S: x[2] <= off

----------------------------------------------------------------------------
(* Attributes.  a is a record of those that are to be set *)
Or(a, f, v) == IF f \in DOMAIN a THEN a[f] ELSE v
OrT(a, f, v) == IF f \in DOMAIN a THEN <<a[f], a[f]>> ELSE v
Setattr(I, i, a, t) ==
    LET o == I[i]
        s == IF "size" \in DOMAIN a THEN Resize(o, a.size) ELSE o
        ct == OrT(a, "ct", t)
    IN  [I EXCEPT ![i] =
            [s EXCEPT !.perm = Or(a, "perm", @), !.uid = Or(a, "uid", @), !.gid = Or(a, "gid", @),
                      !.flags = Or(a, "flags", @),
                      !.at = OrT(a, "at", @), !.bt = OrT(a, "bt", @), !.ct = ct,
                      !.mt = OrT(a, "mt", IF "size" \in DOMAIN a THEN ct ELSE @)]]
Within(x, iv) == iv[1] <= x /\ x <= iv[2]
AttrOk(ino, i, a) ==
    /\ a.ino = i /\ a.ty = ino.ty /\ a.perm = ino.perm /\ a.uid = ino.uid /\ a.gid = ino.gid
    /\ a.nlink = ino.nlink /\ a.size = ino.size /\ a.rdev = ino.rdev /\ a.flags = ino.flags
    /\ a.bytes = SumExt(ino.ext)
    /\ ino.ty = "reg" => a.blk = ino.rs
    /\ Within(a.at, ino.at) /\ Within(a.mt, ino.mt) /\ Within(a.ct, ino.ct) /\ Within(a.bt, ino.bt)

----------------------------------------------------------------------------
(* Extended attributes: from "namespace:name" to [len, tag] *)
SetX(I, i, x, v, t) == [I EXCEPT ![i].xa = Put(@, x, v), ![i].ct = <<@[1], t[2]>>]
GetX(ino, x) == IF x \in DOMAIN ino.xa THEN <<"ok", ino.xa[x]>> ELSE <<"ENOATTR", 0>>
DelX(I, i, x, t) == IF x \in DOMAIN I[i].xa THEN Result([I EXCEPT ![i].xa = Del(@, x), ![i].ct = <<@[1], t[2]>>], "ok")
                    ELSE Result(I, "ENOATTR")

----------------------------------------------------------------------------
\* What a mount finds of a file system that went away in this state
Mounted(I) == [i \in {j \in DOMAIN I: I[j].nlink > 0} |-> I[i]]

(* Invariants *)
Links(I, i) == {<<p, n>> \in UNION {{p} \X DOMAIN I[p].ents: p \in {x \in DOMAIN I: I[x].ty = "dir"}}:
                    I[p].ents[n] = i}
Kids(I, i) == {k \in {I[i].ents[n]: n \in DOMAIN I[i].ents}: I[k].ty = "dir"}
Consistent(I) ==
    /\ IsDir(I, 1)
    /\ \A i \in DOMAIN I:
        LET o == I[i]
        IN /\ \A n \in DOMAIN o.ents: o.ents[n] \in DOMAIN I
           /\ o.ty # "dir" => o.nlink = Cardinality(Links(I, i)) /\ o.ents = Empty
           /\ o.ty = "dir" => o.nlink = (IF i = 1 THEN 1 ELSE 2) + Cardinality(Kids(I, i))
           /\ o.ty = "dir" /\ i # 1 => \E n \in DOMAIN I[o.par].ents: Links(I, i) = {<<o.par, n>>}
           /\ \A k \in 1..Len(o.runs): /\ o.runs[k][1] < o.runs[k][2]
                                       /\ o.runs[k][2] <= o.size
                                       /\ k > 1 => o.runs[k-1][2] <= o.runs[k][1]
                                       \* What isn't a hole is stored
                                       /\ \A r \in (o.runs[k][1] \div o.rs)..((o.runs[k][2] - 1) \div o.rs):
                                            r \in DOMAIN o.ext /\ Min2(o.runs[k][2], (r + 1) * o.rs) <= r * o.rs + o.ext[r]
           /\ \A r \in DOMAIN o.ext: o.ext[r] > 0 /\ o.ext[r] <= o.rs /\ r * o.rs + o.ext[r] <= o.size
=============================================================================
