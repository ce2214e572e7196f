--------------------------- MODULE PropertyTrace ----------------------------
EXTENDS TraceLib, Property
vars == <<l>>
Init == TraceStart
ParseE ==
  /\ IsEvent("parse")
  /\ LET want == Parse(Line.name, Line.eq, Line.value, Line.canon)
     IN IF Line.r = "ok"
        THEN /\ <<"ok", Line.v>> \in want
             /\ Line.pname = Line.v[1] /\ Line.shown = Show(Line.v[1], Line.v[2])
             /\ Line.again /\ Line.disk /\ Line.acc = Line.v[2]
             /\ Line.inh = Inh(Line.v[1], Line.v[2])
             /\ Line.ser = Ser(Line.v[1], Line.v[2], Line.vb)
        ELSE <<Line.r>> \in want
PName == IsEvent("pname") /\ Line.r = IF IsName(Line.s) THEN Names[Line.s] ELSE "err"
PSrc ==
        /\ IsEvent("psrc")
        /\ Line.r = IF Line.s \in {"default", "local", "none", "inherited"} THEN Line.s ELSE "err"
        \* One step of inheritance stands for any number
        /\ Line.v = CASE Line.s = "none" -> -2 [] Line.s = "default" -> -1 [] Line.s = "local" -> 0 [] Line.s = "inherited" -> 1 [] OTHER -> -3
Src == IsEvent("src") /\ Line.shown = SourceShown(Line.i) /\ Line.inh = (Line.i > 0) /\ Line.disk
       /\ Line.ser = SourceSer(Line.i)
Mp == IsEvent("mp") /\ Line.r = "basemountpoint" /\ Line.p = <<"mountpoint", "/x">>
      /\ Line.object = 0   \* Where properties are stored
Def == IsEvent("default") /\ Line.v = <<Line.n, Default[Line.n]>> /\ Line.same /\ Line.inh
(* Reading what's on disk *)
Disk ==
  /\ IsEvent("disk")
  /\ LET t == Line.b[1]
         rest == SubSeq(Line.b, 5, Len(Line.b))
     IN Line.r = CASE t = 0 -> IF rest[1] <= 1 THEN <<"atime", rest[1]>> ELSE "err"
                   [] t = 4 -> <<"recordsize", rest[1]>>
                   [] t \in 1..3 -> <<CHOOSE p \in DOMAIN Tag : Tag[p] = t, SubSeq(rest, 5, Len(rest))>>
                   [] OTHER -> "err"
Next == ParseE \/ PName \/ PSrc \/ Src \/ Mp \/ Def \/ Disk
Spec == Init /\ [][Next]_vars
=============================================================================
