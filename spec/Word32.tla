------------------------------ MODULE Word32 ------------------------------
(***************************************************************************)
(* 32-bit two's-complement arithmetic on TLC's (32-bit, overflow-checked)  *)
(* integers.  Every operator is total on -2^31 .. 2^31-1 and wraps exactly *)
(* like the C `int' arithmetic the assembler is specified to use.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

MinInt == (0 - 2147483647) - 1

Lo(x) == x % 65536                      \* 0 .. 65535
Hi(x) == x \div 65536                   \* -32768 .. 32767
Sgn16(h) == ((h + 32768) % 65536) - 32768
Mk(h, l) == Sgn16(h % 65536) * 65536 + l

Add(a, b) == LET l == Lo(a) + Lo(b)
             IN  Mk(Hi(a) + Hi(b) + l \div 65536, l % 65536)
BNot(a) == (0 - 1) - a
Neg(a) == Add(BNot(a), 1)
Sub(a, b) == Add(Add(a, BNot(b)), 1)

\* a * n for a byte n
MulByte(a, n) == LET l == Lo(a) * n
                 IN  Mk((Hi(a) % 65536) * n + l \div 65536, l % 65536)
Byte(a, i) == CASE i = 0 -> a % 256
                [] i = 1 -> (a \div 256) % 256
                [] i = 2 -> (a \div 65536) % 256
                [] i = 3 -> (a \div 16777216) % 256
Mul(a, b) == LET s(x) == MulByte(x, 256)
                 p3 == MulByte(a, Byte(b, 3))
                 p2 == Add(s(p3), MulByte(a, Byte(b, 2)))
                 p1 == Add(s(p2), MulByte(a, Byte(b, 1)))
             IN  Add(s(p1), MulByte(a, Byte(b, 0)))

\* truncating division; callers exclude b = 0 and MinInt / -1
RECURSIVE DivT(_, _)
DivT(a, b) ==
  IF b = MinInt THEN (IF a = MinInt THEN 1 ELSE 0)
  ELSE IF b < 0 THEN Neg(DivT(a, 0 - b))
  ELSE IF a >= 0 THEN a \div b
  ELSE IF a % b = 0 THEN a \div b ELSE (a \div b) + 1
ModT(a, b) == Sub(a, Mul(DivT(a, b), b))

Pow2(n) == IF n = 31 THEN MinInt ELSE 2^n
Shl(a, n) == Mul(a, Pow2(n))
Shr(a, n) == IF n = 31 THEN (IF a < 0 THEN 0 - 1 ELSE 0) ELSE a \div (2^n)

Bool(b) == IF b THEN 1 ELSE 0
U8(a) == a % 256
Lo16(a) == Lo(a)
Lo24(a) == <<Byte(a, 0), Byte(a, 1), Byte(a, 2)>>
===========================================================================
