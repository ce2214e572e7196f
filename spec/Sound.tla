------------------------------- MODULE Sound -------------------------------
(* When the keys that are stored for a file system make sense together *)
EXTENDS Integers, Sequences, FiniteSets, Sums
\* A file system is a record of sequences:
\*   inos: <<inode, type, links, size, bytes, record size>>
\*   ents: <<directory, name, inode, type>>
\*   xt:   extents, <<inode, offset, length, ...>>
\*   xa:   extended attributes, <<inode, namespace, name, ...>>
\*   dying: inodes
LOCAL Rng(q) == {q[i]: i \in DOMAIN q}
Top == 1
DType == [Dir |-> 4, Reg |-> 8, Link |-> 10, Fifo |-> 1, Char |-> 2, Block |-> 6, Socket |-> 12]
Dots == {".", ".."}

RECURSIVE Closure(_, _, _)
Closure(from, done, edges) ==
  IF from = {} THEN done ELSE LET n == {e[2]: e \in {x \in edges: x[1] \in from}} \ done IN Closure(n, done \cup n, edges)

\* Are these the contents of a file system of which the inodes in held, and only they, are still in use though they have no links?
Sound(f, held) ==
  LET ids == {x[1]: x \in Rng(f.inos)}
      ino == [i \in ids |-> CHOOSE x \in Rng(f.inos): x[1] = i]
      ents == Rng(f.ents)
      named == {e \in ents: e[2] \notin Dots}
      dirs == {i \in ids: ino[i][2] = "Dir"}
  IN
  /\ Cardinality(ids) = Len(f.inos) /\ Top \in dirs
  \* Names are unique.  What they refer to exists, and is of the type they say it is.
  /\ Cardinality({<<e[1], e[2]>>: e \in ents}) = Len(f.ents)
  /\ \A e \in ents: e[1] \in dirs /\ e[3] \in ids /\ e[4] = DType[ino[e[3]][2]]
  \* Directories form a tree
  /\ \A d \in dirs:
       /\ \E e \in ents: e[1] = d /\ e[2] = "." /\ e[3] = d
       /\ \E e \in ents: e[1] = d /\ e[2] = ".." /\ IF d = Top THEN e[3] = Top ELSE {<<n[1], n[3]>>: n \in {m \in named: m[3] = d}} = {<<e[3], d>>}
       /\ d # Top => Cardinality({e \in named: e[3] = d}) = 1
  /\ {i \in ids: ino[i][3] > 0} = Closure({Top}, {Top}, {<<e[1], e[3]>>: e \in named})
  \* Everything has as many links as it says
  /\ \A i \in ids: ino[i][3] = Cardinality({e \in ents: e[3] = i /\ <<e[1], e[2]>> # <<Top, "..">>})
  \* Whatever has none is listed as dying, and somebody still uses it
  /\ {i \in ids: ino[i][3] = 0} = Rng(f.dying)
  /\ Len(f.dying) = Cardinality(Rng(f.dying))
  /\ Rng(f.dying) \subseteq held
  \* Extents belong to files.  They don't overlap, and a file accounts for what they occupy.
  /\ \A x \in Rng(f.xt):
       /\ x[1] \in ids
       /\ LET i == ino[x[1]] IN i[2] = "Reg" /\ x[2] % i[6] = 0 /\ 0 < x[3] /\ x[3] <= i[6] /\ x[2] + x[3] <= i[4]
  /\ Cardinality({<<x[1], x[2]>>: x \in Rng(f.xt)}) = Len(f.xt)
  /\ \A i \in ids: ino[i][2] = "Reg" => ino[i][5] = Sum(SelectSeq(f.xt, LAMBDA x: x[1] = i), 3)
  \* So do extended attributes
  /\ \A x \in Rng(f.xa): x[1] \in ids
  /\ Cardinality({<<x[1], x[2], x[3]>>: x \in Rng(f.xa)}) = Len(f.xa)
  \* There's nothing else
  /\ f.bad = <<>>

\* Trees are <<id, parent or -1>>, and entries are <<parent, child, name>>
Forest(trees, tents) ==
  /\ Cardinality({t[1]: t \in Rng(trees)}) = Len(trees)
  /\ Cardinality({<<t[1], t[3]>>: t \in Rng(tents)}) = Len(tents)
  /\ {<<t[2], t[1]>>: t \in Rng(tents)} = {<<t[1], t[2]>>: t \in {x \in Rng(trees): x[2] # -1}}
  /\ Len(tents) = Cardinality({t \in Rng(trees): t[2] # -1})
  /\ \A t \in Rng(trees): t[2] # -1 => t[2] \in {u[1]: u \in Rng(trees)}
=============================================================================
