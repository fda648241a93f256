------------------------------ MODULE AsmFile ------------------------------
(***************************************************************************)
(* Whole runs into the calculators' formats: the program is assembled as   *)
(* Asm says and the file written as Export says.  A trace is one of        *)
(* AsmTrace whose program also has x |-> [fmt, name].                      *)
(***************************************************************************)
EXTENDS AsmObs, Json, IOUtils

X == INSTANCE Export
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, n, st

Case(P, s) == [fmt |-> P.x.fmt, name |-> P.x.name, ez |-> P.ez, huge |-> FALSE, pay |-> Expect(P, s, "out")]
RECURSIVE Pieces(_, _, _)
Pieces(f, i, m) == IF i > m THEN <<>> ELSE f[i] \o Pieces(f, i + 1, m)
Written(c) == CASE X!Kind(c) = "prgm" -> Pieces([i \in 1..6 |-> X!PrgmPiece(c, i)], 1, 6)
               [] X!Kind(c) = "hex" -> Pieces([i \in 1..X!NRecs(c.pay) |-> X!HexPiece(c.pay, i)], 1, X!NRecs(c.pay)) \o X!EndRec
               [] OTHER -> c.pay
Verdict(t, s) ==
  LET c == Case(t.p, s)
      wrote == Expect(t.p, s, "has")
      xd == IF wrote THEN X!ExpDs(c) ELSE <<>>
      xi == IF wrote THEN X!ExpIm(c) ELSE <<>>
      xr == IF wrote THEN X!ExpRc(c) ELSE 0
      a == Exit(t.p, s)
      ex == [has |-> wrote, out |-> IF wrote THEN Written(c) ELSE <<>>, ds |-> Expect(t.p, s, "ds") \o xd, im |-> Expect(t.p, s, "im") \o xi,
             rc |-> IF xr > a THEN xr ELSE a]
      \* what is written after errors is not specified, nor the missing bytes of a program too short for its token
      skip == (IF a >= 2 THEN {"out", "im", "rc"} ELSE {}) \cup (IF c.fmt = "8XP" /\ Len(c.pay) < 2 THEN {"im", "rc"} ELSE {})
      bad == {f \in DOMAIN ex \ skip : ex[f] # t.o[f]}
  IN  [i |-> t.i, ok |-> bad = {}, bad |-> bad, e |-> [f \in bad |-> ex[f]], steps |-> n, rc |-> ex.rc]

Init == tr \in 1..Len(Traces) /\ n = 0 /\ st = Init0(Traces[tr].p)
Next == /\ st.ph # "end"
        /\ st' = Step(Traces[tr].p, st)
        /\ n' = n + 1
        /\ tr' = tr
        /\ IF st'.ph = "end" THEN PrintT("VERDICT " \o ToJson(Verdict(Traces[tr], st'))) ELSE TRUE
View == <<tr, n>>
===========================================================================
