----------------------------- MODULE PoolCreate -----------------------------
(* The language of vdev specifications given to "bfffs pool create".

     pool   ::= disk+ | mirror+ | raid+
     mirror ::= "mirror" disk+
     raid   ::= "raid" num num ( disk+ | mirror+ )

   Words are separated by white space; a disk's name begins with a letter or
   a slash.  A string is a sequence of character codes.  Parse(s) is the one
   meaning of s, or the error. *)
EXTENDS Naturals, Sequences
Space == {9, 10, 11, 12, 13, 32}
Digit == 48..57
Alpha == (65..90) \cup (97..122)
NameStart == Alpha \cup {47}
(* Anything but blank, tab, and newline may continue a name *)
NameChar(c) == c \notin {32, 9, 10}
MIRROR == <<109, 105, 114, 114, 111, 114>>
RAID == <<114, 97, 105, 100>>
MAXNUM == 32767

RECURSIVE NameEnd(_, _)
NameEnd(s, i) == IF i <= Len(s) /\ NameChar(s[i]) THEN NameEnd(s, i + 1) ELSE i
RECURSIVE NumEnd(_, _)
NumEnd(s, i) == IF i <= Len(s) /\ s[i] \in Digit THEN NumEnd(s, i + 1) ELSE i
(* Saturates, so that no number is too long *)
RECURSIVE NumVal(_, _, _, _)
NumVal(s, i, e, acc) ==
  IF i = e THEN acc
  ELSE NumVal(s, i + 1, e, IF acc > MAXNUM THEN acc ELSE 10 * acc + (s[i] - 48))

(* The words of s from position i, or a sequence that ends with "bad" *)
RECURSIVE Lex(_, _, _)
Lex(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] \in Space THEN Lex(s, i + 1, acc)
  ELSE IF s[i] \in NameStart THEN
    LET e == NameEnd(s, i)
        w == SubSeq(s, i, e - 1)
        k == IF w = MIRROR THEN "mirror" ELSE IF w = RAID THEN "raid" ELSE "name"
    IN Lex(s, e, Append(acc, [k |-> k, w |-> w, n |-> 0]))
  ELSE IF s[i] \in Digit THEN
    LET e == NumEnd(s, i)
    IN Lex(s, e, Append(acc, [k |-> "num", w |-> <<>>, n |-> NumVal(s, i, e, 0)]))
  ELSE Append(acc, [k |-> "bad", w |-> <<>>, n |-> 0])

Kind(t, i) == IF i <= Len(t) THEN t[i].k ELSE "end"

(* <<names, next position>> *)
RECURSIVE Names(_, _, _)
Names(t, i, acc) == IF Kind(t, i) = "name" THEN Names(t, i + 1, Append(acc, t[i].w)) ELSE <<acc, i>>

Err == [ok |-> FALSE, ast |-> <<>>, i |-> 0]

RECURSIVE Mirrors(_, _, _)
Mirrors(t, i, acc) ==
  IF Kind(t, i) # "mirror" THEN [ok |-> acc # <<>>, ast |-> acc, i |-> i]
  ELSE LET d == Names(t, i + 1, <<>>) IN
       IF d[1] = <<>> THEN Err
       ELSE Mirrors(t, d[2], Append(acc, [k |-> "mirror", d |-> d[1]]))

Disks(t, i) ==
  LET d == Names(t, i, <<>>)
  IN [ok |-> d[1] # <<>>, ast |-> [j \in DOMAIN d[1] |-> [k |-> "disk", d |-> <<d[1][j]>>]], i |-> d[2]]

RECURSIVE Raids(_, _, _)
Raids(t, i, acc) ==
  IF Kind(t, i) # "raid" THEN [ok |-> acc # <<>>, ast |-> acc, i |-> i]
  ELSE IF Kind(t, i + 1) # "num" \/ Kind(t, i + 2) # "num" THEN Err
  ELSE IF t[i + 1].n > MAXNUM \/ t[i + 2].n > MAXNUM THEN Err
  ELSE LET v == IF Kind(t, i + 3) = "mirror" THEN Mirrors(t, i + 3, <<>>) ELSE Disks(t, i + 3) IN
       IF ~v.ok THEN Err
       ELSE Raids(t, v.i, Append(acc, [k |-> "raid", n |-> t[i + 1].n, f |-> t[i + 2].n, v |-> v.ast]))

Parse(s) ==
  LET t == Lex(s, 1, <<>>)
      r == CASE Kind(t, 1) = "name" -> Disks(t, 1)
             [] Kind(t, 1) = "mirror" -> Mirrors(t, 1, <<>>)
             [] Kind(t, 1) = "raid" -> Raids(t, 1, <<>>)
             [] OTHER -> Err
  IN IF r.ok /\ r.i = Len(t) + 1 THEN [ok |-> TRUE, ast |-> r.ast] ELSE [ok |-> FALSE, ast |-> <<>>]
=============================================================================
