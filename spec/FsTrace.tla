------------------------------ MODULE FsTrace ------------------------------
(* The real file system's histories are behaviours of Fs *)
EXTENDS Fs, TraceLib
VARIABLES fs,    \* the inodes
          top,   \* the highest inode number ever given out
          rd,    \* readdir sessions
          dur,   \* what is known to be durable
          atm,   \* are access times updated?
          hist   \* the states since what's known to be durable; only kept if the trace has crashes
vars == <<fs, top, rd, dur, atm, hist, l>>
T == <<Line.t0, Line.t1>>
Init == TraceStart /\ fs = Empty /\ top = 0 /\ rd = Empty /\ dur = Empty /\ atm = FALSE /\ hist = <<>>
Same == UNCHANGED <<fs, top, rd, dur, atm>>
Only == UNCHANGED <<top, rd, dur, atm>>

\* An entry whose name's hash collides with that of one that came or went needn't be returned, and may be twice
\* (Line.col has all of those names)
Shake(p, ns) == [s \in DOMAIN rd |-> IF rd[s].d = p THEN [rd[s] EXCEPT !.must = @ \ ns, !.may = @ \cup ns] ELSE rd[s]]
New == /\ IsEvent("new")
       /\ fs' = (1 :> Root(Line.perm, Line.uid, Line.gid, <<0, Line.t>>))
       /\ top' = Line.top
       /\ rd' = Empty
       /\ dur' = Empty
       /\ atm' = Line.atime
ECreate == /\ IsEvent("create") /\ Line.r = "ok"
           /\ Line.n \notin DOMAIN fs[Line.p].ents
           /\ Line.ino > top /\ Line.ino \notin DOMAIN fs
           /\ Line.par = (IF Line.ty = "dir" THEN Line.p ELSE 0)
           /\ fs' = Create(fs, Line.p, Line.n, Line.ino, Line.ty, Line.perm, Line.uid, Line.gid, Line.rdev, Line.tgt,
                           Line.rs, T)
           /\ top' = Line.ino
           \* A readdir in progress need not return it
           /\ rd' = Shake(Line.p, ToSet(Line.col))
           /\ UNCHANGED <<dur, atm>>
ELookup == /\ IsEvent("lookup") /\ Same
           /\ LET r == Lookup(fs, Line.p, Line.n)
              IN  r[1] = Line.r /\ (Line.r = "ok" => Line.ino = r[2] /\ Line.par = r[3])
EILookup == /\ IsEvent("ilookup") /\ Same
            /\ IF Line.i \in DOMAIN fs THEN Line.r = "ok" /\ Line.ino = Line.i /\ Line.par = ParOf(fs, Line.i)
               ELSE Line.r = "ENOENT"
\* What a readdir session in this directory must still return, if the entry was there from the beginning
Gone(p, n) == Shake(p, {n} \cup ToSet(Line.col))
ELink == /\ IsEvent("link") /\ Line.r = "ok"
         /\ fs' = Link(fs, Line.p, Line.n, Line.i, T)
         /\ rd' = Shake(Line.p, ToSet(Line.col))
         /\ UNCHANGED <<top, dur, atm>>
EUnlink == /\ IsEvent("unlink")
           /\ LET x == Unlink(fs, Line.p, Line.n, Line.held, T) IN x.r = Line.r /\ fs' = x.fs
           /\ rd' = Gone(Line.p, Line.n)
           /\ UNCHANGED <<top, dur, atm>>
EForget == IsEvent("forget") /\ Line.r = "ok" /\ fs' = Forget(fs, Line.i) /\ Only
ERmdir == /\ IsEvent("rmdir")
          /\ LET x == Rmdir(fs, Line.p, Line.n, T) IN x.r = Line.r /\ fs' = x.fs
          /\ rd' = IF Line.r = "ok" THEN Gone(Line.p, Line.n) ELSE rd
          /\ UNCHANGED <<top, dur, atm>>
ERename == /\ IsEvent("rename")
           /\ LET x == Rename(fs, Line.p, Line.n, Line.q, Line.m, T) IN x.r = Line.r /\ fs' = x.fs
           /\ Line.r = "ok" => Line.ino = Line.i
           /\ rd' = IF Line.r # "ok" THEN rd
                    ELSE [s \in DOMAIN rd |->
                            LET gone == (IF rd[s].d = Line.p THEN {Line.n} ELSE {}) \cup (IF rd[s].d = Line.q THEN {Line.m} ELSE {})
                                        \cup (IF rd[s].d \in {Line.p, Line.q} THEN ToSet(Line.col) ELSE {})
                            IN [rd[s] EXCEPT !.must = @ \ gone, !.may = @ \cup gone]]
           /\ UNCHANGED <<top, dur, atm>>
EGetattr == /\ IsEvent("getattr") /\ Same /\ Line.r = "ok"
            /\ Line.i \in DOMAIN fs /\ AttrOk(fs[Line.i], Line.i, Line)
ESetattr == /\ IsEvent("setattr") /\ Line.r = "ok" /\ fs' = Setattr(fs, Line.i, Line, T) /\ Only
EWrite == /\ IsEvent("write") /\ Line.r = "ok" /\ Line.cnt = Line.len
          /\ fs' = Write(fs, Line.i, Line.off, Line.len, Line.tag, T) /\ Only
ERead == /\ IsEvent("read") /\ Line.r = "ok"
         /\ Line.cnt = ReadLen(fs[Line.i], Line.off, Line.len)
         /\ Line.runs = ReadRuns(fs[Line.i], Line.off, Line.len)
         /\ fs' = IF atm THEN [fs EXCEPT ![Line.i].at = T] ELSE fs
         /\ Only
EDealloc == IsEvent("dealloc") /\ Line.r = "ok" /\ fs' = Deallocate(fs, Line.i, Line.off, Line.len, T) /\ Only
ELseek == /\ IsEvent("lseek") /\ Same
          /\ IF Line.wh = "data" THEN LET x == SeekData(fs[Line.i], Line.off)
                                     IN  x[1] = Line.r /\ (Line.r = "ok" => x[2] = Line.to)
            ELSE SeekHoleOk(fs[Line.i], Line.off, Line.r, IF Line.r = "ok" THEN Line.to ELSE 0)
EReadlink == IsEvent("readlink") /\ Same /\ Line.r = "ok" /\ Line.tgt = fs[Line.i].tgt
ESetX == /\ IsEvent("setx") /\ Line.r = "ok"
         /\ fs' = SetX(fs, Line.i, Line.x, [len |-> Line.len, tag |-> Line.tag], T) /\ Only
EGetX == /\ IsEvent("getx") /\ Same
         /\ LET x == GetX(fs[Line.i], Line.x)
            IN  x[1] = Line.r /\ (Line.r = "ok" => x[2] = [len |-> Line.len, tag |-> Line.tag])
EGetXLen == /\ IsEvent("getxlen") /\ Same
            /\ LET x == GetX(fs[Line.i], Line.x)
               IN  x[1] = Line.r /\ (Line.r = "ok" => x[2].len = Line.len)
EDelX == /\ IsEvent("delx")
         /\ LET x == DelX(fs, Line.i, Line.x, T) IN x.r = Line.r /\ fs' = x.fs
         /\ Only
EListX == /\ IsEvent("listx") /\ Same /\ Line.r = "ok" /\ Line.lenok
          /\ Len(Line.names) = Cardinality(DOMAIN fs[Line.i].xa)
          /\ ToSet(Line.names) = DOMAIN fs[Line.i].xa
\* Every entry that was there all the while is returned exactly once, and none twice
EReaddir == /\ IsEvent("readdir") /\ Line.r = "ok"
            /\ LET d == Line.d
                   \* What the session has returned up to where it resumes
                   old == IF Line.s \in DOMAIN rd THEN rd[Line.s] ELSE [d |-> d, got |-> <<>>, must |-> DOMAIN fs[d].ents \cup {".", ".."}, may |-> {}]
                   kept == SubSeq(old.got, 1, Line.k)
                   new == [k \in 1..Len(Line.ents) |-> Line.ents[k][1]]
                   all == kept \o new
                   typ(n) == IF n \in {".", ".."} THEN "dir" ELSE fs[fs[d].ents[n]].ty
                   num(n) == IF n = "." THEN d ELSE IF n = ".." THEN fs[d].par ELSE fs[d].ents[n]
               IN /\ \A k \in 1..Len(new): new[k] \in DOMAIN fs[d].ents \cup {".", ".."}
                  /\ \A k \in 1..Len(new): Line.ents[k][2] = num(new[k]) /\ Line.ents[k][3] = typ(new[k])
                  \* An entry that went away and came back may come twice
                  /\ LET solid == SelectSeq(all, LAMBDA n: n \notin old.may) IN Cardinality(ToSet(solid)) = Len(solid)
                  /\ Line.eof => old.must \subseteq ToSet(all)
                  /\ rd' = Put(rd, Line.s, [old EXCEPT !.got = all])
            /\ UNCHANGED <<fs, top, dur, atm>>
ESync == IsEvent("sync") /\ Line.r = "ok" /\ dur' = fs /\ UNCHANGED <<fs, top, rd, atm>>
ENop == IsEvent("nop") /\ Line.r = "ok" /\ Same
ESetprop == IsEvent("setprop") /\ Line.r = "ok" /\ atm' = Line.atime /\ UNCHANGED <<fs, top, rd, dur>>
ERemount == /\ IsEvent("remount") /\ Line.r = "ok" /\ Line.check = "true"
            /\ fs' = Mounted(dur)
            /\ dur' = Mounted(dur)
            \* Inode numbers of deleted files may return after a remount
            /\ top' = FoldSet(Max2, 1, DOMAIN Mounted(dur))
            /\ rd' = Empty
            /\ UNCHANGED atm
\* After a power failure, everything that was durable is there, and what wasn't yet is there up to some moment.
\* hist is empty unless the episode has crashes
Same0(I, x) == /\ DOMAIN I = {r.i: r \in ToSet(x)}
               /\ Len(x) = Cardinality(DOMAIN I)
               /\ \A k \in 1..Len(x):
                    LET r == x[k]
                        o == I[r.i]
                    IN  /\ AttrOk(o, r.i, r)
                        /\ r.runs = o.runs /\ r.tgt = o.tgt
                        /\ Len(r.xa) = Cardinality(DOMAIN o.xa)
                        /\ \A j \in 1..Len(r.xa): /\ r.xa[j][1] \in DOMAIN o.xa
                                                   /\ o.xa[r.xa[j][1]] = [len |-> r.xa[j][2], tag |-> r.xa[j][3]]
                        /\ LET ents == IF o.ty = "dir" THEN o.ents @@ ("." :> r.i @@ ".." :> o.par) ELSE Empty
                           IN /\ Len(r.ents) = Cardinality(DOMAIN ents)
                              /\ \A j \in 1..Len(r.ents): r.ents[j][1] \in DOMAIN ents /\ ents[r.ents[j][1]] = r.ents[j][2]
ECrash == /\ IsEvent("crash") /\ Line.r = "ok" /\ Line.check = "true" /\ Line.check2 = "true" /\ Line.stable
          /\ \E k \in 1..Len(hist): Same0(Mounted(hist[k]), Line.inos)
          /\ Same
Body == \/ New \/ ECreate \/ ELookup \/ EILookup \/ ELink \/ EUnlink \/ EForget \/ ERmdir \/ ERename \/ EGetattr
        \/ ESetattr \/ EWrite \/ ERead \/ EDealloc \/ ELseek \/ EReadlink \/ ESetX \/ EGetX \/ EGetXLen \/ EDelX
        \/ EListX \/ EReaddir \/ ESync \/ ENop \/ ESetprop \/ ERemount \/ ECrash
Next == /\ Body
        /\ hist' = IF Line.e = "new" THEN (IF Line.crash THEN <<fs'>> ELSE <<>>)
                   ELSE IF hist = <<>> THEN <<>>
                   ELSE IF Line.e \in {"sync", "remount"} THEN <<fs'>>
                   ELSE IF fs' = fs THEN hist ELSE Append(hist, fs')
Spec == Init /\ [][Next]_vars
=============================================================================
