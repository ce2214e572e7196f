--------------------------- MODULE EncodingTrace ----------------------------
EXTENDS TraceLib, Encoding
vars == <<l>>
Init == TraceStart
Pba == /\ IsEvent("pba") /\ Line.ser = PbaSer(Line.c, Line.lba) /\ Line.same /\ Line.typ = 10
       /\ Line.lt = PbaLt(Line.c, Line.lba, Line.c2, Line.lba2)
       /\ Line.gt = PbaLt(Line.c2, Line.lba2, Line.c, Line.lba)
       /\ Line.eq = (Line.c = Line.c2 /\ Line.lba = Line.lba2)
Rid == /\ IsEvent("rid") /\ Line.ser = Line.n /\ Line.same /\ Line.typ = 8
       /\ Line.lt = Lt(Line.n, Line.n2) /\ Line.gt = Lt(Line.n2, Line.n) /\ Line.eq = (Line.n = Line.n2)
       /\ Line.shown = Line.dec
Txg == /\ IsEvent("txg") /\ Line.ser = LE32(Line.n) /\ Line.same
       /\ Line.add = Line.n + Line.y /\ Line.aa = Line.add /\ Line.chk = Line.add
       /\ Line.sub = IF Line.n >= Line.y THEN Line.n - Line.y ELSE -1
       /\ Line.lt = (Line.n < Line.y) /\ Line.conv = Line.n /\ Line.over = (Line.y > Line.n)
UuidE == /\ IsEvent("uuid") /\ Line.ser = Line.b /\ Line.same /\ Line.yaml = Line.b
         /\ Line.hex = HexStr(Line.b) /\ Line.dashes = <<8, 13, 18, 23>> /\ Line.parsed /\ Line.short
(* Error numbers survive; those without a name are all the same *)
Some == [x \in {1, 2, 5, 6, 17, 22, 28} |-> CASE x = 1 -> "EPERM" [] x = 2 -> "ENOENT" [] x = 5 -> "EIO" [] x = 6 -> "ENXIO"
             [] x = 17 -> "EEXIST" [] x = 22 -> "EINVAL" [] x = 28 -> "ENOSPC"]
(* Numbers below 35 are the same everywhere *)
Errno == /\ IsEvent("errno") /\ Line.same /\ Line.read
         /\ Line.i \in 1..34 => Line.known
         /\ Line.i \in DOMAIN Some => Line.name = Some[Line.i]
         /\ Line.i <= 0 => ~Line.known
         /\ IF Line.known THEN Line.back = Line.i /\ Line.ser = LE16(Line.i) ELSE Line.name = "EUNKNOWN"
         /\ Line.i \in 1..34 => Line.nix
Unknown == IsEvent("unknown") /\ Line.r = "refused" /\ Line.custom
Next == Pba \/ Rid \/ Txg \/ UuidE \/ Errno \/ Unknown
Spec == Init /\ [][Next]_vars
=============================================================================
