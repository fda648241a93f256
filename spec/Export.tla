------------------------------ MODULE Export ------------------------------
(***************************************************************************)
(* The files the assembler writes for its output formats.  A case is       *)
(*   [fmt |-> upper-case extension or "" for none, name |-> codes of the   *)
(*    base name without its extension, ez, pay |-> the assembled bytes]    *)
(* The file is a sequence of pieces; the pieces of a format and the state  *)
(* in which each is written are given here, and ExportTrace steps through  *)
(* them along an observed file.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Bitwise

Txt == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AscMap == [c \in {SubSeq(Txt, i, i) : i \in 1..Len(Txt)} |-> 31 + CHOOSE i \in 1..Len(Txt) : SubSeq(Txt, i, i) = c]
Asc(s) == [i \in 1..Len(s) |-> AscMap[SubSeq(s, i, i)]]
Rep(b, n) == [i \in 1..n |-> b]
W16(v) == <<v % 256, (v \div 256) % 256>>
W32(v) == W16(v % 65536) \o W16(v \div 65536)
Cut(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0
               ELSE IF n <= 64 THEN s[n] + SumTo(s, n - 1)
               ELSE LET h == n \div 2 IN SumTo(SubSeq(s, 1, h), h) + SumTo(SubSeq(s, h + 1, n), n - h)
Sum(s) == SumTo(s, Len(s))

----------------------------------------------------------------------------
(* Which format an extension names.                                        *)
Prgm == {"73P", "82P", "83P", "8XP", "8XV", "85P", "86P", "85S", "86S"}
Kind(c) == IF c.fmt \in Prgm THEN "prgm"
           ELSE CASE c.fmt = "8XK" -> "app" [] c.fmt = "ROM" -> "rom" [] c.fmt = "HEX" -> "hex" [] OTHER -> "bin"
Known(c) == c.fmt \in Prgm \cup {"8XK", "ROM", "HEX", "BIN", ""}

----------------------------------------------------------------------------
(* Programs and variables.                                                 *)
IsUp(x) == x \in 65..90
IsLow(x) == x \in 97..122
IsDig(x) == x \in 48..57
Upper(s) == [i \in 1..Len(s) |-> IF IsLow(s[i]) THEN s[i] - 32 ELSE s[i]]
First(s) == IF Len(s) > 0 /\ IsLow(s[1]) THEN [s EXCEPT ![1] = @ - 32] ELSE s
Old(c) == c.fmt \in {"73P", "82P", "83P", "8XP", "8XV"}        \* names of letters and digits
Folds(c) == Old(c) /\ c.fmt # "82P"
Whole(c) == CASE c.fmt = "82P" -> <<220>> \o c.name
              [] c.fmt = "8XV" -> First(c.name)
              [] Folds(c) -> Upper(c.name)
              [] OTHER -> c.name
Name(c) == Cut(Whole(c), 8)
Var85(c) == c.fmt \in {"85P", "85S"}

HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Hex2(b) == <<HexDigit(b \div 16), HexDigit(b % 16)>>
Hex4(v) == Hex2(v \div 256) \o Hex2(v % 256)
HexText(s) == [i \in 1..2 * Len(s) |-> HexDigit(IF i % 2 = 1 THEN s[(i + 1) \div 2] \div 16 ELSE s[i \div 2] % 16)]

Signature(c) ==
  LET t == CASE c.fmt = "73P" -> "73" [] c.fmt = "82P" -> "82" [] c.fmt = "83P" -> "83" [] c.fmt \in {"8XP", "8XV"} -> "83"
             [] c.fmt \in {"85P", "85S"} -> "85" [] c.fmt \in {"86P", "86S"} -> "86"
  IN  Asc("**TI") \o Asc(t) \o Asc(IF c.fmt \in {"8XP", "8XV"} THEN "F" ELSE "*") \o Asc("*")
      \o <<26, IF Var85(c) THEN 12 ELSE 10, 0>>
Comment == LET t == Asc("File generated by spasm") IN t \o Rep(0, 42 - Len(t))
Tokens(c) == CASE c.fmt = "86P" -> <<142, 40>> [] c.fmt = "82P" -> <<213, 0, 17>> [] OTHER -> <<>>
Trailer == <<63, 212, 63, 48, 48, 48, 48, 63, 212>>
Content(c) == IF c.fmt = "83P" THEN HexText(c.pay) \o Trailer ELSE Tokens(c) \o c.pay
VarLen(c) == 2 + (IF c.fmt = "83P" THEN 2 * Len(c.pay) + Len(Trailer) ELSE Len(Tokens(c)) + Len(c.pay))
TypeId(c) == CASE c.fmt = "8XV" -> 21 [] c.fmt \in {"85P", "86P"} -> 18 [] c.fmt \in {"85S", "86S"} -> 12 [] OTHER -> 6
NameField(c) == (IF Old(c) THEN <<>> ELSE <<Len(Name(c))>>)
                \o Name(c) \o (IF Var85(c) THEN <<>> ELSE Rep(0, 8 - Len(Name(c))))
                \o (IF c.fmt \in {"8XP", "8XV"} THEN <<0, 0>> ELSE <<>>)
HeadLen(c) == IF Var85(c) THEN 6 + Len(Name(c)) ELSE 3 + Len(NameField(c))
VarHead(c) == W16(HeadLen(c)) \o W16(VarLen(c)) \o <<TypeId(c)>> \o NameField(c) \o W16(VarLen(c)) \o W16(VarLen(c) - 2)
DataLen(c) == Len(VarHead(c)) + VarLen(c) - 2
\* the 2 bytes of the inner length are part of VarLen
PrgmPiece(c, i) == CASE i = 1 -> Signature(c) [] i = 2 -> Comment [] i = 3 -> W16(DataLen(c)) [] i = 4 -> VarHead(c) [] i = 5 -> Content(c)
                     [] i = 6 -> W16((Sum(VarHead(c)) + Sum(Content(c))) % 65536)

Im(k) == [c |-> k, f |-> "exporter", l |-> 0 - 1]
Sw(k) == [c |-> k, f |-> "exporter", l |-> 0 - 1, n |-> 0]
PrgmIm(c) ==
  LET w == Whole(c)
      odd == IF Folds(c) THEN SelectSeq(w, LAMBDA x : ~(IsUp(x) \/ IsLow(x) \/ IsDig(x))) ELSE <<>>
      hd == IF Len(c.pay) >= 2 THEN <<c.pay[1], c.pay[2]>> ELSE IF Len(c.pay) = 1 THEN <<c.pay[1], 0>> ELSE <<0, 0>>
  IN  Rep(Im("W"), Len(odd)) \o (IF Folds(c) /\ ~(Len(w) > 0 /\ IsUp(w[1])) THEN <<Im("W")>> ELSE <<>>)
      \o (IF c.fmt = "8XP" /\ ((~c.ez /\ hd \notin {<<187, 109>>, <<239, 105>>}) \/ (c.ez /\ hd # <<239, 123>>)) THEN <<Im("W")>> ELSE <<>>)
PrgmDs(c) == LET n == VarLen(c) - (IF c.fmt = "82P" THEN 3 ELSE 0)
             IN  IF n > 65535 THEN <<Sw("SW550")>> ELSE IF n > 24575 /\ ~c.ez THEN <<Sw("SW551")>> ELSE <<>>

----------------------------------------------------------------------------
(* Intel hex.  A record's checksum makes the sum of its bytes 0.           *)
Record(n, addr, ty, b) ==
  LET x == <<n, addr \div 256, addr % 256, ty>> \o b
      s == (256 - (Sum(x) % 256)) % 256
  IN  <<58>> \o HexText(x) \o Hex2(s)
DataRec(b, o) == Record(Len(b), 16384 + (o % 16384), 0, b)
EndRec == Record(0, 0, 1, <<>>)
CrLf == <<13, 10>>
\* piece i of the hex text of b: for every 16 KB a page record and its data records
NRecs(b) == (Len(b) + 31) \div 32
HexPiece(b, i) ==      \* i in 1..NRecs(b)
  LET o == (i - 1) * 32
      d == SubSeq(b, o + 1, IF o + 32 < Len(b) THEN o + 32 ELSE Len(b))
      p == o \div 16384
  IN  (IF o % 16384 = 0 THEN Record(2, 0, 2, <<p \div 256, p % 256>>) \o CrLf ELSE <<>>) \o DataRec(d, o) \o CrLf

----------------------------------------------------------------------------
(* Flash applications.                                                     *)
At(b, i) == IF i < Len(b) THEN b[i + 1] ELSE 0          \* counted from 0
RECURSIVE Field(_, _, _, _)
\* where the data of the header field with this id (or, for 64, this group) begins; 0 if there is none
Field(b, id, mask, i) ==
  IF At(b, i) # 128 THEN 0
  ELSE LET t == At(b, i + 1)
       IN  IF (IF mask = 240 THEN t - (t % 16) ELSE t) = id THEN i + 2 ELSE Field(b, id, mask, i + 2 + (t % 16))
Over(c) == (Len(c.pay) + 96) % 16384                    \* how much of the last page is used
NoRoom(c) == Over(c) \in 1..96 /\ Len(c.pay) + 96 > 16384
AppDs(c) ==
  LET b == c.pay
      ty == Field(b, 18, 255, 6)
  IN  IF NoRoom(c) THEN <<Sw("SE505")>>
      ELSE (IF Over(c) \in 1..1023 /\ Len(b) + 96 >= 16384 THEN <<Sw("SW802")>> ELSE <<>>)
           \o (IF ~(At(b, 0) = 128 /\ At(b, 1) = 15) THEN <<Sw("SE501")>>
               ELSE IF ty = 0 \/ At(b, ty) # 1 \/ At(b, ty + 1) # 4 THEN <<Sw("SE502")>>
               ELSE IF Field(b, 129, 255, 6) = 0 THEN <<Sw("SE503")>>
               ELSE IF Field(b, 64, 240, 6) = 0 THEN <<Sw("SE504")>>
               ELSE <<>>)
AppOk(c) == \A i \in 1..Len(AppDs(c)) : AppDs(c)[i].c = "SW802"
Pages(c) == (Len(c.pay) + 16383) \div 16384
Put(b, i, x) == [j \in 1..Len(b) |-> IF j - 1 \in i .. i + Len(x) - 1 THEN x[j - i] ELSE b[j]]
Patched(c) ==
  LET n == Len(c.pay) - 6
      b1 == Put(c.pay, 2, <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>)
      pg == Field(b1, 129, 255, 6)
  IN  Put(b1, pg, <<Pages(c)>>)
AppName(b) == LET i == Field(b, 64, 240, 6)
                  n == At(b, i - 1) % 16
              IN  [j \in 1..(IF n < 8 THEN n ELSE 8) |-> At(b, i + j - 1)]

\* MD5; words are <<high half, low half>>
AddW(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + l \div 65536) % 65536, l % 65536>>
NotW(a) == <<65535 - a[1], 65535 - a[2]>>
AndW(a, b) == <<a[1] & b[1], a[2] & b[2]>>
OrW(a, b) == <<a[1] | b[1], a[2] | b[2]>>
XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
RotW(a, s) == IF s >= 16 THEN LET t == s - 16 IN
                 <<((a[2] * 2^t) % 65536) + a[1] \div 2^(16 - t), ((a[1] * 2^t) % 65536) + a[2] \div 2^(16 - t)>>
              ELSE <<((a[1] * 2^s) % 65536) + a[2] \div 2^(16 - s), ((a[2] * 2^s) % 65536) + a[1] \div 2^(16 - s)>>
KT == << <<55146,42104>>, <<59591,46934>>, <<9248,28891>>, <<49597,52974>>, <<62844,4015>>, <<18311,50730>>, <<43056,17939>>, <<64838,38145>>,
 <<27008,39128>>, <<35652,63407>>, <<65535,23473>>, <<35164,55230>>, <<27536,4386>>, <<64920,29075>>, <<42617,17294>>, <<18868,2081>>,
 <<63006,9570>>, <<49216,45888>>, <<9822,23121>>, <<59830,51114>>, <<54831,4189>>, <<580,5203>>, <<55457,59009>>, <<59347,64456>>,
 <<8673,52710>>, <<49975,2006>>, <<62677,3463>>, <<17754,5357>>, <<43491,59653>>, <<64751,41976>>, <<26479,729>>, <<36138,19594>>,
 <<65530,14658>>, <<34673,63105>>, <<28061,24866>>, <<64997,14348>>, <<42174,59972>>, <<19422,53161>>, <<63163,19296>>, <<48831,48240>>,
 <<10395,32454>>, <<60065,10234>>, <<54511,12421>>, <<1160,7429>>, <<55764,53305>>, <<59099,39397>>, <<8098,31992>>, <<50348,22117>>,
 <<62505,8772>>, <<17194,65431>>, <<43924,9127>>, <<64659,41017>>, <<25947,22979>>, <<36620,52370>>, <<65519,62589>>, <<34180,24017>>,
 <<28584,32335>>, <<65068,59104>>, <<41729,17172>>, <<19976,4513>>, <<63315,32386>>, <<48442,62005>>, <<10967,53947>>, <<60294,54161>> >>
RotBy == << <<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>> >>
RECURSIVE Md5Round(_, _, _)
Md5Round(m, i, q) ==      \* m: 16 words, q: <<a, b, c, d>>
  IF i = 64 THEN q
  ELSE LET r == i \div 16
           f == CASE r = 0 -> OrW(AndW(q[2], q[3]), AndW(NotW(q[2]), q[4]))
                  [] r = 1 -> OrW(AndW(q[4], q[2]), AndW(NotW(q[4]), q[3]))
                  [] r = 2 -> XorW(XorW(q[2], q[3]), q[4])
                  [] r = 3 -> XorW(q[3], OrW(q[2], NotW(q[4])))
           g == CASE r = 0 -> i [] r = 1 -> (5 * i + 1) % 16 [] r = 2 -> (3 * i + 5) % 16 [] r = 3 -> (7 * i) % 16
           s == AddW(AddW(q[1], f), AddW(KT[i + 1], m[g + 1]))
       IN  Md5Round(m, i + 1, <<q[4], AddW(q[2], RotW(s, RotBy[r + 1][(i % 4) + 1])), q[2], q[3]>>)
Md5Init == << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>> >>
\* the message with its padding; byte i (from 1)
Padded(b) == LET z == (55 - Len(b)) % 64 IN b \o <<128>> \o Rep(0, z) \o W32((Len(b) * 8) % 1073741824) \o <<0, 0, 0, 0>>
Md5Block(p, k, q) ==      \* block k (from 0) of p
  LET m == [j \in 1..16 |-> LET o == 64 * k + 4 * (j - 1) IN <<p[o + 4] * 256 + p[o + 3], p[o + 2] * 256 + p[o + 1]>>]
      n == Md5Round(m, 0, q)
  IN  [j \in 1..4 |-> AddW(q[j], n[j])]
Md5Bytes(q) == LET w(x) == <<x[2] % 256, x[2] \div 256, x[1] % 256, x[1] \div 256>> IN w(q[1]) \o w(q[2]) \o w(q[3]) \o w(q[4])

\* natural numbers as bytes, least significant first
Dig(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
RECURSIVE Conv(_, _, _, _), Carry(_, _, _, _)
Conv(a, b, k, i) == IF i > Len(a) THEN 0 ELSE a[i] * Dig(b, k - i) + Conv(a, b, k, i + 1)
Carry(r, i, n, c) == IF i > n THEN <<>> ELSE LET x == r[i] + c IN <<x % 256>> \o Carry(r, i + 1, n, x \div 256)
MulB(a, b) == LET n == Len(a) + Len(b)
                  r == [k \in 1..n |-> Conv(a, b, k + 1, 1)]
              IN  Carry(r, 1, n, 0)
AddB(a, b) == LET n == (IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) + 1
              IN  Carry([i \in 1..n |-> Dig(a, i) + Dig(b, i)], 1, n, 0)
SameB(a, b) == \A i \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) : Dig(a, i) = Dig(b, i)
RECURSIVE LessB(_, _, _)
LessB(a, b, i) == IF i = 0 THEN FALSE ELSE IF Dig(a, i) # Dig(b, i) THEN Dig(a, i) < Dig(b, i) ELSE LessB(a, b, i - 1)
\* the key TI's "freeware" applications (0104) are checked with
PublicN == <<173,36,49,218,34,151,228,23,94,172,97,163,21,79,163,216,71,17,87,148,221,51,10,183,255,54,186,89,254,218,25,95,
             234,124,22,116,59,215,188,237,138,13,168,133,229,229,195,77,91,242,13,10,179,239,145,129,237,57,186,44,77,137,142,135>>
\* s * s = k * n + (what the message stands for), where k is a witness
\* f: 0 -2m, 1 -m, 2 m, 3 2m
RabinOk(hash, s, f, k) ==
  LET m == <<1>> \o hash
      t == IF f \in {0, 3} THEN AddB(m, m) ELSE m
      sq == MulB(s, s)
  IN  /\ f \in 0..3
      /\ LessB(s, PublicN, 66)
      /\ IF f \in {2, 3} THEN SameB(sq, AddB(MulB(k, PublicN), t))
                         ELSE SameB(AddB(sq, t), MulB(k, PublicN))
SigBlock(s, f) == LET x == <<2, 45, Len(s)>> \o s \o (IF f = 0 THEN <<0>> ELSE <<1, f>>) IN x \o Rep(255, 96 - Len(x))
AppHead(c) ==
  LET nm == AppName(c.pay)
      tot == Len(c.pay) + 96
      hex == 77 * (tot \div 32) + 17 * Pages(c) + 11 + (IF tot % 32 = 0 THEN 0 ELSE 13 + 2 * (tot % 32))
  IN  Asc("**TIFL**") \o <<1, 1, 1, 136, 1, 1, 25, 151, Len(nm)>> \o nm \o Rep(0, 8 - Len(nm)) \o Rep(0, 23) \o <<115, 36>> \o Rep(0, 24) \o W32(hex)

----------------------------------------------------------------------------
\* where byte o of the image is in an application's file, its hex text beginning after the header
HexAt(o) == 78 + 17 * (o \div 16384 + 1) + 77 * (o \div 32) + 9 + 2 * (o % 32)
UnHex(ch) == IF ch \in 48..57 THEN ch - 48 ELSE IF ch \in 65..70 THEN ch - 55 ELSE 0
ByteAt(f, o) == IF HexAt(o) + 2 > Len(f) THEN 0 ELSE 16 * UnHex(f[HexAt(o) + 1]) + UnHex(f[HexAt(o) + 2])
BytesAt(f, o, n) == [i \in 1..n |-> ByteAt(f, o + i - 1)]

----------------------------------------------------------------------------
ExpIm(c) == IF Kind(c) = "prgm" THEN PrgmIm(c) ELSE <<>>
ExpDs(c) == CASE Kind(c) = "prgm" -> PrgmDs(c) [] Kind(c) = "app" -> AppDs(c)
              [] OTHER -> IF Known(c) THEN <<>> ELSE <<Sw("SW803")>>
ExpRc(c) == LET d == ExpDs(c) IN
            IF \E i \in 1..Len(d) : SubSeq(d[i].c, 2, 2) = "E" THEN 3
            ELSE IF Len(d) + Len(ExpIm(c)) > 0 THEN 1 ELSE 0

\* known answers
MD5Of(b) == LET p == Padded(b) IN Md5Bytes(Md5Block(p, 0, Md5Init))
ASSUME MD5Of(<<>>) = <<212,29,140,217,143,0,178,4,233,128,9,152,236,248,66,126>>
ASSUME MD5Of(<<97, 98, 99>>) = <<144,1,80,152,60,210,79,176,214,150,63,125,40,225,127,114>>
===========================================================================
