---------------------------- MODULE ScatterTrace ----------------------------
EXTENDS TraceLib, Scatter
(* rest: what a cursor has yet to yield *)
VARIABLE rest
vars == <<l, rest>>
Init == TraceStart /\ rest = <<>>
Pad == /\ IsEvent("pad") /\ Line.kept
       /\ \A i \in DOMAIN Line.olen : Line.olen[i] > 0 /\ Line.olen[i] % Block = 0
       /\ Padded(Line.i, Line.o) /\ UNCHANGED rest
Cursor == IsEvent("cursor") /\ rest' = Line.i
(* As much as possible of the current piece: at most max bytes *)
NextE ==
  /\ IsEvent("next")
  /\ Line.peek = IF rest = <<>> THEN 0 ELSE Len(rest[1])
  /\ IF rest = <<>> THEN Line.r = <<>> /\ UNCHANGED rest
     ELSE LET n == IF Len(rest[1]) < Line.max THEN Len(rest[1]) ELSE Line.max
          IN /\ Line.r = SubSeq(rest[1], 1, n)
             /\ rest' = IF n = Len(rest[1]) THEN Tail(rest)
                        ELSE <<SubSeq(rest[1], n + 1, Len(rest[1]))>> \o Tail(rest)
Zero == /\ IsEvent("zero") /\ Line.zeros /\ Total(Line.olen) = Line.n /\ Line.sum = Line.n
        /\ UNCHANGED rest
(* A checksum depends on the bytes, all of them, and not on how they're cut up *)
Sum == IsEvent("sum") /\ Line.whole /\ Line.cut /\ Line.flip /\ UNCHANGED rest
(* A range of an ordered type is empty if nothing can be in it *)
Empty(s, t) ==
  /\ s[1] # "u" /\ t[1] # "u"
  /\ s[2] > t[2] \/ (s[2] = t[2] /\ (s[1] = "e" \/ t[1] = "e"))
Range == IsEvent("range") /\ Line.r = Empty(Line.s, Line.t) /\ UNCHANGED rest
Next == Pad \/ Cursor \/ NextE \/ Zero \/ Sum \/ Range
Spec == Init /\ [][Next]_vars
=============================================================================
