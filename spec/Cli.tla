--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line.  Arguments are read one by one; what they ask for     *)
(* becomes a program to assemble (as Asm says), whose output is written    *)
(* as Export says.                                                         *)
(*                                                                         *)
(* A case c has argv (strings), files [p |-> path, l |-> lines], bins      *)
(* [p |-> path, b |-> bytes], texts [t |-> text, l |-> lines] for -V and   *)
(* vals [t |-> text, b |-> body] for the values of -D.                     *)
(***************************************************************************)
EXTENDS AsmObs

X == INSTANCE Export

RECURSIVE Pos(_, _, _)
Pos(s, ch, i) == IF i > Len(s) THEN 0 ELSE IF Chr(s, i) = ch THEN i ELSE Pos(s, ch, i + 1)
RECURSIVE LastPos(_, _, _)
LastPos(s, cs, i) == IF i = 0 THEN 0 ELSE IF Chr(s, i) \in cs THEN i ELSE LastPos(s, cs, i - 1)
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)
Lows == "abcdefghijklmnopqrstuvwxyz"
Caps == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
UpChr(ch) == LET i == Pos(Lows, ch, 1) IN IF i = 0 THEN ch ELSE Chr(Caps, i)
RECURSIVE UpStr(_)
UpStr(s) == IF s = "" THEN "" ELSE UpChr(Chr(s, 1)) \o UpStr(From(s, 2))

\* where a name's extension begins (its dot), 0 if it has none
Dot(s) == LET d == LastPos(s, {".", "/", "\\"}, Len(s)) IN IF d > 0 /\ Chr(s, d) = "." THEN d ELSE 0
ChangeExt(s, e) == (IF Dot(s) = 0 THEN s ELSE Upto(s, Dot(s) - 1)) \o "." \o e
Ext(s) == IF Dot(s) = 0 THEN "" ELSE UpStr(From(s, Dot(s) + 1))
Base(s) == LET t == IF Dot(s) = 0 THEN s ELSE Upto(s, Dot(s) - 1) IN From(t, LastPos(t, {"/", "\\"}, Len(t)) + 1)

\* parts of a list separated by ; or , (empty ones do not count)
RECURSIVE Split(_, _)
Split(s, part) ==
  IF s = "" THEN IF part = "" THEN <<>> ELSE <<part>>
  ELSE IF Chr(s, 1) \in {";", ","} THEN (IF part = "" THEN <<>> ELSE <<part>>) \o Split(From(s, 2), "")
  ELSE Split(From(s, 2), part \o Chr(s, 1))

\* the path a name leads to from the current directory
RECURSIVE PathOf(_)
PathOf(s) == IF Len(s) > 1 /\ Upto(s, 2) = "./" THEN PathOf(From(s, 3))
           ELSE IF s # "" /\ Chr(s, Len(s)) = "/" THEN PathOf(Upto(s, Len(s) - 1)) ELSE s

RECURSIVE Empty(_)
Empty(s) == s = "" \/ (Chr(s, 1) = " " /\ Empty(From(s, 2)))

---------------------------------------------------------------------------
Cli0 == [k |-> 1, fl |-> {}, incs |-> <<>>, defs |-> <<>>, inp |-> "", outp |-> "", v |-> FALSE, text |-> "",
         msgs |-> <<>>, end |-> ""]
Say(s, m) == [s EXCEPT !.msgs = Append(@, m)]

\* an option with a value: joined to it or in the next argument
Valued(c, s) ==
  LET a == c.argv[s.k]
      o == Chr(a, 2)
      joined == Len(a) > 2
      none == ~joined /\ s.k = Len(c.argv)
      val == IF joined THEN From(a, 3) ELSE IF none THEN "" ELSE c.argv[s.k + 1]
      s1 == [s EXCEPT !.k = @ + (IF joined \/ none THEN 1 ELSE 2)]
  IN  CASE o = "I" /\ none -> Say(s1, "-I used without include path\n")
        [] o = "D" /\ none -> Say(s1, "-D used without define name")
        [] o = "V" /\ none -> [Say(s1, "-V used without a line to assemble\n") EXCEPT !.end = "fatal"]
        [] o = "I" -> [s1 EXCEPT !.incs = @ \o Split(val, "")]
        [] o = "D" -> [s1 EXCEPT !.defs = Append(@, val)]
        [] o = "V" -> [s1 EXCEPT !.v = TRUE, !.text = val, !.inp = "-v", !.outp = "-v.bin"]

Flags == {"O", "T", "C", "L", "S", "E", "A", "N"}
ArgStep(c, s) ==
  LET a == c.argv[s.k]
      o == IF Len(a) > 1 THEN Chr(a, 2) ELSE ""
      s1 == [s EXCEPT !.k = @ + 1]
  IN  IF a = "" \/ Chr(a, 1) # "-"
      THEN CASE s.inp = "" -> [s1 EXCEPT !.inp = a]
             [] s.inp # "" /\ s.outp = "" -> [s1 EXCEPT !.outp = a]
             [] OTHER -> s1
      ELSE CASE o \in Flags -> [s1 EXCEPT !.fl = @ \cup {o}]
             [] o \in {"I", "D", "V"} -> Valued(c, s)
             [] o \in {"H", "h"} -> [s1 EXCEPT !.end = "help"]
             [] OTHER -> [s1 EXCEPT !.end = "bad"]

RECURSIVE Which(_, _, _)
Which(xs, p, i) == IF i > Len(xs) THEN 0 ELSE IF xs[i].p = p THEN i ELSE Which(xs, p, i + 1)
RECURSIVE Text(_, _, _)
Text(xs, t, i) == IF xs[i].t = t THEN i ELSE Text(xs, t, i + 1)

\* when all arguments are read
ArgEnd(c, s) ==
  IF s.inp = "" THEN [Say(s, "No input file specified\n") EXCEPT !.end = "fatal"]
  ELSE LET s1 == IF s.outp = "" THEN [s EXCEPT !.outp = ChangeExt(s.inp, "bin")] ELSE s
       IN  IF ~s.v /\ Which(c.files, PathOf(s.inp), 1) = 0
           THEN [Say(s1, "Couldn't open input file\n") EXCEPT !.end = "fatal"]
           ELSE [s1 EXCEPT !.end = "run"]

ArgRun(c, s) == IF c.argv = <<>> THEN [s EXCEPT !.end = "help"]
                ELSE IF s.k > Len(c.argv) THEN ArgEnd(c, s) ELSE ArgStep(c, s)

Define(c, t) ==
  LET e == Pos(t, "=", 1)
      nm == IF e = 0 THEN t ELSE Upto(t, e - 1)
      v == IF e = 0 THEN "" ELSE From(t, e + 1)
  IN  [n |-> <<nm, UpStr(nm)>>, b |-> IF Empty(v) THEN [t |-> "e", e |-> Num(1), x |-> "1"] ELSE c.vals[Text(c.vals, v, 1)].b]

\* the program to assemble
Prog(c, s) ==
  LET m == IF s.v THEN 0 ELSE Which(c.files, PathOf(s.inp), 1)
      main == [n |-> s.inp, p |-> s.inp, l |-> IF s.v THEN c.texts[Text(c.texts, s.text, 1)].l ELSE c.files[m].l]
      file(i) == [n |-> c.files[i].p, p |-> c.files[i].p, l |-> c.files[i].l]
      dir(d) == [d |-> d, at |-> PathOf(d)]
  IN  [cs |-> "A" \in s.fl, ez |-> "E" \in s.fl, cc |-> "C" \in s.fl, tl |-> "T" \in s.fl, no2 |-> "O" \in s.fl /\ s.fl \cap {"T", "L"} = {},
       dd |-> [i \in 1..Len(s.defs) |-> Define(c, s.defs[i])],
       dirs |-> <<[d |-> "", at |-> ""]>> \o [i \in 1..Len(s.incs) |-> dir(s.incs[i])],
       files |-> <<main>> \o [i \in 1..Len(c.files) |-> file(i)], bins |-> c.bins]

---------------------------------------------------------------------------
(* What is to be seen after assembly ended in st.                          *)
Case(s, P, st) == [fmt |-> Ext(s.outp), name |-> Codes(Base(s.outp)), ez |-> P.ez, huge |-> FALSE, pay |-> Bytes(st)]
RECURSIVE JoinF(_, _, _)
JoinF(f, i, m) == IF i > m THEN <<>> ELSE f[i] \o JoinF(f, i + 1, m)
Written(c) == CASE X!Kind(c) = "prgm" -> JoinF([i \in 1..6 |-> X!PrgmPiece(c, i)], 1, 6)
               [] X!Kind(c) = "hex" -> JoinF([i \in 1..X!NRecs(c.pay) |-> X!HexPiece(c.pay, i)], 1, X!NRecs(c.pay)) \o X!EndRec
               [] OTHER -> c.pay
RECURSIVE CatText(_, _)
CatText(ms, i) == IF i > Len(ms) THEN <<>> ELSE [j \in 1..Len(ms[i]) |-> IF Chr(ms[i], j) = "\n" THEN 10 ELSE CodeOf[Chr(ms[i], j)]] \o CatText(ms, i + 1)

Help == "SPASM-ng Z80 Assembler by Spencer Putt and Don Straney"
\* the outcome of runs that end before assembly
Early(c, s) == [rc |-> CASE s.end = "help" -> 0 [] s.end = "bad" -> 1 [] OTHER -> 3,
                files |-> {}, txt |-> CatText(s.msgs, 1), err |-> IF s.end = "bad" THEN "Unrecognized option " \o c.argv[s.k - 1] \o "\n" ELSE ""]
Late(c, s, P, st) ==
  LET x == Case(s, P, st)
      a == Exit(P, st)
      gave == a = 3                                    \* assembly was given up
      wrote == ~gave /\ "O" \notin s.fl
      xd == IF wrote /\ ~P.cc THEN X!ExpDs(x) ELSE <<>>
      xi == IF wrote THEN X!ExpIm(x) ELSE <<>>
      xr == IF ~wrote THEN 0 ELSE IF P.cc THEN (IF Len(xi) > 0 THEN 1 ELSE 0) ELSE X!ExpRc(x)
  IN  [rc |-> Max2(a, xr), a |-> a, gave |-> gave,
       files |-> {PathOf(f) : f \in (IF wrote THEN {s.outp} ELSE {}) \cup (IF ~gave /\ "L" \in s.fl THEN {ChangeExt(s.outp, "lab")} ELSE {})
                  \cup (IF ~gave /\ "T" \in s.fl THEN {ChangeExt(s.outp, "lst")} ELSE {})},
       out |-> IF wrote THEN Written(x) ELSE <<>>, ds |-> DsSeq(P, st) \o xd, im |-> ImSeq(st) \o xi,
       txt |-> CatText(s.msgs, 1) \o AllText(st.out, 1), err |-> "",
       short |-> x.fmt = "8XP" /\ Len(x.pay) < 2]
============================================================================
