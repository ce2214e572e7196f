------------------------------ MODULE Encoding ------------------------------
(* The encodings of the basic types.  Numbers are little-endian; big ones are
   given here as the sequence of their bytes, least significant first. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
LE16(n) == <<n % 256, n \div 256>>
LE32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
RECURSIVE Less(_, _, _)
(* The numbers of bytes a and b, of equal length, compared from the i'th byte downward *)
Less(a, b, i) == i > 0 /\ (a[i] < b[i] \/ (a[i] = b[i] /\ Less(a, b, i - 1)))
Lt(a, b) == Less(a, b, Len(a))
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE HexStr(_)
HexStr(b) == IF b = <<>> THEN "" ELSE (Hex[(Head(b) \div 16) + 1] \o Hex[(Head(b) % 16) + 1]) \o HexStr(Tail(b))
(* Addresses are ordered by cluster, then by LBA *)
PbaSer(c, lba) == LE16(c) \o lba
PbaLt(c, a, d, b) == c < d \/ (c = d /\ Lt(a, b))
=============================================================================
