------------------------------ MODULE Scatter -------------------------------
(* Scatter-gather lists.  A list's content is run-length encoded: a sequence of
   <<byte, count>> *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
RECURSIVE Merge(_, _)
(* Joins neighbouring runs of the same byte *)
Merge(acc, s) ==
  IF s = <<>> THEN acc
  ELSE LET h == Head(s)
           n == Len(acc)
       IN IF h[2] = 0 THEN Merge(acc, Tail(s))
          ELSE IF n > 0 /\ acc[n][1] = h[1]
          THEN Merge([acc EXCEPT ![n] = <<h[1], acc[n][2] + h[2]>>], Tail(s))
          ELSE Merge(Append(acc, h), Tail(s))
Content(list) == Merge(<<>>, Flat(list))
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
Bytes(list) == Total([i \in DOMAIN Flat(list) |-> Flat(list)[i][2]])

Block == 4096
(* Made ready for the disk: the same bytes, then zeros up to the next whole
   block, in pieces that are whole blocks *)
Padded(i, o) ==
  LET pad == (Block - (Bytes(i) % Block)) % Block
  IN Content(o) = Content(i \o <<<<<<0, pad>>>>>>)
=============================================================================
