------------------------------ MODULE Datasets ------------------------------
(* The datasets of a pool: a hierarchy of named file systems, each with
   properties of its own, that its descendants inherit.

   A dataset's name is that of the pool and any number of components, separated
   by slashes; here, a sequence.  The state:
     ds     path (without the pool) -> the dataset's id
     own    path -> the properties that are set on that very dataset
     files  path -> the names in its root directory
     up     the paths of the datasets that are mounted

   Eff(o, s) is the set of the possible states after operation o, with its
   result, happens in state s; it's empty if the operation couldn't have had
   that result.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Pool == "tp"
Nothing == [x \in {} |-> x]
Empty == [ds |-> Nothing, own |-> Nothing, files |-> Nothing, up |-> {}]

InPool(n) == n[1] = Pool
\* The pool's own name may be followed by a slash
Path(n) == IF n = <<Pool, "">> THEN <<>> ELSE Tail(n)
WellFormed(p) == \A i \in DOMAIN p : p[i] # ""
Exists(s, n) == InPool(n) /\ Path(n) \in DOMAIN s.ds
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Children(s, p) == {q \in DOMAIN s.ds : Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p}
But(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

(* Properties.  Values are strings. *)
Default == [atime |-> "1", recordsize |-> "17"]
RECURSIVE Levels(_, _, _)
\* How far above p is the property set?  -1 if nowhere
Levels(s, p, k) == IF k \in DOMAIN s.own[p] THEN 0
                   ELSE IF p = <<>> THEN -1
                   ELSE LET x == Levels(s, Parent(p), k) IN IF x = -1 THEN -1 ELSE x + 1
RECURSIVE Join(_)
Join(p) == IF p = <<>> THEN "" ELSE "/" \o Head(p) \o Join(Tail(p))
Lookup(s, n, k) ==
  LET p == Path(n) IN
  IF k = "name" THEN <<Join(n), -2>>
  ELSE LET i == Levels(s, p, k) IN
       IF i = -1 THEN <<IF k = "mountpoint" THEN Join(n) ELSE Default[k], -1>>
       ELSE LET q == SubSeq(p, 1, Len(p) - i)
                v == s.own[q][k]
            \* The mountpoint of a dataset's descendants is below its own
            IN <<IF k = "mountpoint" THEN v \o Join(SubSeq(p, Len(p) - i + 1, Len(p))) ELSE v, i>>

(* Operations *)
If(b, s) == IF b THEN {s} ELSE {}
Create(o, s) ==
  LET p == Path(o.n)
      err == IF ~InPool(o.n) THEN "ENOENT"
             ELSE IF ~WellFormed(p) THEN "EINVAL"
             ELSE IF p # <<>> /\ Parent(p) \notin DOMAIN s.ds THEN "ENOENT"
             ELSE IF p \in DOMAIN s.ds THEN "EEXIST"
             ELSE "ok"
  IN IF o.r # err THEN {}
     ELSE IF err # "ok" THEN {s}
     ELSE IF \E q \in DOMAIN s.ds : s.ds[q] = o.tid THEN {}
     ELSE {[s EXCEPT !.ds = (p :> o.tid) @@ @, !.own = (p :> Nothing) @@ @, !.files = (p :> {}) @@ @]}
Destroy(o, s) ==
  LET p == Path(o.n)
      err == IF ~Exists(s, o.n) THEN "ENOENT"
             ELSE IF p \in s.up \/ Children(s, p) # {} THEN "EBUSY"
             ELSE "ok"
  IN IF o.r # err THEN {}
     ELSE IF err # "ok" THEN {s}
     ELSE {[s EXCEPT !.ds = But(@, p), !.own = But(@, p), !.files = But(@, p)]}
Mount(o, s) ==
  LET p == Path(o.n)
      err == IF ~Exists(s, o.n) THEN "ENOENT" ELSE IF p \in s.up THEN "EBUSY" ELSE "ok"
  IN IF o.r # err THEN {} ELSE IF err # "ok" THEN {s} ELSE {[s EXCEPT !.up = @ \cup {p}]}
Umount(o, s) == {[s EXCEPT !.up = @ \ {Path(o.n)}]}
Set(o, s) ==
  LET p == Path(o.n)
      err == IF ~Exists(s, o.n) THEN "ENOENT" ELSE IF o.k = "mountpoint" /\ ~o.abs THEN "EINVAL" ELSE "ok"
  IN IF o.r # err THEN {} ELSE IF err # "ok" THEN {s}
     ELSE {[s EXCEPT !.own[p] = (o.k :> o.v) @@ @]}
Get(o, s) == If(IF Exists(s, o.n) THEN o.r = "ok" /\ <<o.v, o.src>> = Lookup(s, o.n, o.k) ELSE o.r = "ENOENT", s)
ChildName(n, q) == Join(Append(n, q[Len(q)]))
List(o, s) ==
  If(IF Exists(s, o.n)
     THEN /\ o.r = "ok"
          /\ {x[1] : x \in {o.c[i] : i \in DOMAIN o.c}} = {ChildName(o.n, q) : q \in Children(s, Path(o.n))}
          /\ Len(o.c) = Cardinality(Children(s, Path(o.n)))
          /\ \A i \in DOMAIN o.c : \A q \in Children(s, Path(o.n)) : ChildName(o.n, q) = o.c[i][1] => s.ds[q] = o.c[i][2]
     ELSE o.r = "ENOENT", s)
\* Only of datasets that are mounted
Touch(o, s) == {[s EXCEPT !.files[Path(o.n)] = @ \cup {o.k}]}
Files(o, s) == If({o.c[i] : i \in DOMAIN o.c} = s.files[Path(o.n)] /\ Len(o.c) = Cardinality(s.files[Path(o.n)]), s)

Eff(o, s) == CASE o.op = "create" -> Create(o, s)
               [] o.op = "destroy" -> Destroy(o, s)
               [] o.op = "mount" -> Mount(o, s)
               [] o.op = "umount" -> Umount(o, s)
               [] o.op = "set" -> Set(o, s)
               [] o.op = "get" -> Get(o, s)
               [] o.op = "list" -> List(o, s)
               [] o.op = "touch" -> Touch(o, s)
               [] o.op = "files" -> Files(o, s)

(* What's always so *)
Forest(s) ==
  /\ DOMAIN s.own = DOMAIN s.ds /\ DOMAIN s.files = DOMAIN s.ds /\ s.up \subseteq DOMAIN s.ds
  /\ \A p \in DOMAIN s.ds : p = <<>> \/ Parent(p) \in DOMAIN s.ds
  /\ \A p, q \in DOMAIN s.ds : p # q => s.ds[p] # s.ds[q]
\* A property comes from the nearest dataset that has it
Nearest(s) ==
  \A p \in DOMAIN s.ds : \A k \in {"atime", "mountpoint"} :
    LET i == Levels(s, p, k) IN
      /\ i = -1 \/ i \in 0..Len(p)
      /\ \A j \in 0..Len(p) : (i = -1 \/ j < i) => k \notin DOMAIN s.own[SubSeq(p, 1, Len(p) - j)]
      /\ i >= 0 => k \in DOMAIN s.own[SubSeq(p, 1, Len(p) - i)]
=============================================================================
