------------------------------ MODULE Bitmap ------------------------------
(***************************************************************************)
(* What including a bitmap assembles.  An image is                         *)
(*   [w, h, pal |-> colours, px |-> rows from the top of palette indices   *)
(*    (from 0), or of colours when pal is empty]                           *)
(* with colours <<r, g, b>>; the options are                               *)
(*   [shd, hdr, fmt, inv, minw, msk, msk1st, mskinv, mskrgb, map, pad]     *)
(* where -1 stands for an option not given.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

NoOpts == [shd |-> 2, hdr |-> 0 - 1, fmt |-> <<>>, inv |-> <<>>, minw |-> 0 - 1, msk |-> 0 - 1, msk1st |-> 0 - 1, mskinv |-> 0 - 1,
           mskrgb |-> <<0, 255, 0>>, map |-> <<>>, pad |-> 0 - 1]
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Colour(im, x, y) == LET v == im.px[y + 1][x + 1] IN IF Len(im.pal) = 0 THEN v ELSE im.pal[v + 1]
\* luminance in units of 1/2550000
Lum(c) == 2126 * c[1] + 7152 * c[2] + 722 * c[3]
Grey(c, n) == LET v == (2524500 - Lum(c)) * n IN IF v < 0 THEN 0 ELSE v \div 2550000
Planes(o) == CASE o.shd = 1 -> 0 [] o.shd \in 2..3 -> 1 [] o.shd \in 4..7 -> 2 [] o.shd \in 8..15 -> 3 [] OTHER -> 4

\* pixel (x, y) of a region that is w wide and begins at column l
Shade(im, o, l, t, w, x, y) ==
  IF x >= w \/ l + x >= im.w THEN 0
  ELSE LET c == Colour(im, l + x, t + y) IN IF o.inv # <<>> /\ c = o.inv THEN o.shd - 1 ELSE Grey(c, o.shd)
Masked(im, o, l, t, w, x, y) ==
  IF x >= w \/ l + x >= im.w THEN 1
  ELSE LET c == Colour(im, l + x, t + y) IN IF (o.inv # <<>> /\ c = o.inv) \/ c = o.mskrgb THEN 1 ELSE 0
Stride(o, w) == (MaxI(w, o.minw) + 7) \div 8
Pow(i) == 2^i
RECURSIVE Weigh(_, _)
Weigh(f, i) == IF i > 7 THEN 0 ELSE f[i] * Pow(7 - i) + Weigh(f, i + 1)
Cells(o, w, h, Bit(_, _)) ==
  LET s == Stride(o, w)
  IN  [k \in 1..s * h |-> LET y == (k - 1) \div s
                              x == ((k - 1) % s) * 8
                          IN  Weigh([i \in 0..7 |-> Bit(x + i, y)], 0)]
Plane(im, o, l, t, w, h, i) == LET B(x, y) == (Shade(im, o, l, t, w, x, y) \div Pow(i)) % 2 IN Cells(o, w, h, B)
RECURSIVE PlanesFrom(_, _, _, _, _, _, _)
PlanesFrom(im, o, l, t, w, h, i) == IF i < 0 THEN <<>> ELSE Plane(im, o, l, t, w, h, i) \o PlanesFrom(im, o, l, t, w, h, i - 1)
MaskOf(im, o, l, t, w, h) ==
  IF o.msk # 1 THEN <<>>
  ELSE LET B(x, y) == Masked(im, o, l, t, w, x, y)
           m == Cells(o, w, h, B)
       IN  IF o.mskinv = 1 THEN [i \in 1..Len(m) |-> 255 - m[i]] ELSE m
Strip(im, o, l, t, w, h) ==
  LET p == PlanesFrom(im, o, l, t, w, h, Planes(o) - 1)
      m == MaskOf(im, o, l, t, w, h)
  IN  IF o.msk1st = 1 THEN m \o p ELSE p \o m
\* an image wider than the minimum is emitted in strips of that width
RECURSIVE Strips(_, _, _, _, _, _)
Strips(im, o, l, t, w, h) ==
  IF w <= 0 THEN <<>> ELSE Strip(im, o, l, t, MinI(o.minw, w), h) \o Strips(im, o, l + o.minw, t, w - o.minw, h)
Region(im, o, l, t, w, h) == IF o.minw > 0 /\ w > o.minw THEN Strips(im, o, l, t, w, h) ELSE Strip(im, o, l, t, w, h)

----------------------------------------------------------------------------
(* The header.                                                             *)
Lo(v) == v % 256
W2(v) == <<v % 256, (v \div 256) % 256>>
Size(o, w, h) == ((w + 7) \div 8) * h * (Planes(o) + (IF o.msk = 1 THEN 1 ELSE 0))
Token(o, w, h, t) ==
  CASE t = "w" -> <<Lo(w)>> [] t = "ww" -> W2(w) [] t = "h" -> <<Lo(h)>> [] t = "hh" -> W2(h)
    [] t = "b" -> <<o.shd>> [] t = "s" -> <<Lo(Size(o, w, h))>> [] t = "ss" -> W2(Size(o, w, h)) [] OTHER -> <<0>>
Warns(o, w, h, t) == CASE t = "w" -> w > 255 [] t = "h" -> h > 255 [] t = "s" -> Size(o, w, h) > 255
                       [] t \in {"ww", "hh", "b", "ss"} -> FALSE [] OTHER -> TRUE
RECURSIVE Tokens(_, _, _, _)
Tokens(o, w, h, i) == IF i > Len(o.fmt) THEN <<>> ELSE Token(o, w, h, o.fmt[i]) \o Tokens(o, w, h, i + 1)
Header(o, w, h) == IF o.hdr = 1 THEN Tokens(o, w, h, 1) ELSE <<>>
NWarn(o, w, h) == IF o.hdr = 1 THEN Len(SelectSeq(o.fmt, LAMBDA t : Warns(o, w, h, t))) ELSE 0

----------------------------------------------------------------------------
(* Image maps: cells from top to bottom, column by column.                 *)
Pad(o) == IF o.pad = 0 - 1 THEN 0 ELSE o.pad
CellW(im, o) == (im.w - o.map[1] * 2 * Pad(o)) \div o.map[1]
CellH(im, o) == (im.h - o.map[2] * 2 * Pad(o)) \div o.map[2]
NCells(o) == LET n == o.map[1] * o.map[2] IN IF Len(o.map) = 3 THEN MinI(n, o.map[3]) ELSE n
CellAt(im, o, i) ==      \* i from 0
  <<(i \div o.map[2]) * (CellW(im, o) + 2 * Pad(o)) + Pad(o), (i % o.map[2]) * (CellH(im, o) + 2 * Pad(o)) + Pad(o)>>
CellBytes(im, o, i) == Header(o, CellW(im, o), CellH(im, o)) \o Region(im, o, CellAt(im, o, i)[1], CellAt(im, o, i)[2], CellW(im, o), CellH(im, o))
===========================================================================
