------------------------------ MODULE AsmObs ------------------------------
(***************************************************************************)
(* What a run of the assembler shows to the outside, and whether an        *)
(* observed run is one of the specification's.                             *)
(***************************************************************************)
EXTENDS Asm, FiniteSets

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == ("\t" :> 9) @@ [c \in {Chr(Ascii, i) : i \in 1..Len(Ascii)} |-> 31 + CHOOSE i \in 1..Len(Ascii) : Chr(Ascii, i) = c]
Codes(s) == [i \in 1..Len(s) |-> CodeOf[Chr(s, i)]]

RECURSIVE JoinNames(_, _)
JoinNames(ps, i) == IF i > Len(ps) THEN <<>>
                    ELSE (IF i > 1 THEN <<44, 32>> ELSE <<>>) \o Codes(ps[i]) \o JoinNames(ps, i + 1)
BodyText(b) ==
  IF "xs" \in DOMAIN b THEN b.xs              \* as it was written
  ELSE IF "x" \in DOMAIN b THEN Codes(b.x)
  ELSE CASE b.t = "e" /\ b.e.k = "n" -> Dec(b.e.v)
         [] b.t = "e" /\ b.e.k = "lit" -> Codes(b.e.d)
         [] b.t = "e" /\ b.e.k = "sym" -> Codes(b.e.n[1])
         [] OTHER -> <<>>
OutText(o) ==
  IF o.k = "text" THEN Append(o.t, 10)
  ELSE Codes(o.n) \o (IF Len(o.ps) = 0 THEN <<>> ELSE <<40>> \o JoinNames(o.ps, 1) \o <<41>>)
       \o (IF o.b.t = "none" THEN <<>> ELSE <<58, 32>> \o BodyText(o.b)) \o <<10>>
RECURSIVE AllText(_, _)
AllText(out, i) == IF i > Len(out) THEN <<>> ELSE OutText(out[i]) \o AllText(out, i + 1)

\* immediate problems; how grave an error is cannot be told from its line
ImSeq(st) == [i \in 1..Len(st.im) |-> [c |-> IF st.im[i].c = "F" THEN "E" ELSE st.im[i].c, f |-> st.im[i].f, l |-> st.im[i].l]]
DsSeq(P, st) == IF P.cc THEN <<>> ELSE IF st.stop THEN st.ds1 ELSE st.ds

RECURSIVE SeqLess(_, _, _)
SeqLess(a, b, i) == CASE i > Len(a) -> TRUE
                      [] i > Len(b) -> FALSE
                      [] a[i] # b[i] -> a[i] < b[i]
                      [] OTHER -> SeqLess(a, b, i + 1)
Sorted(ks) == \A i \in 1..Len(ks) - 1 : SeqLess(ks[i], ks[i + 1], 1)

\* what field f of a run must look like
Expect(P, st, f) ==
  CASE f = "rc"  -> Exit(P, st)
    [] f = "has" -> Exit(P, st) # 3
    [] f = "out" -> IF Exit(P, st) <= 1 THEN Bytes(st) ELSE <<>>
    [] f = "ds"  -> DsSeq(P, st)
    [] f = "im"  -> ImSeq(st)
    [] f = "txt" -> AllText(st.out, 1)
    [] f = "lab" -> IF Exit(P, st) = 3 THEN EmptyMap ELSE SymTab(P, st)
    [] f = "lst" -> IF Exit(P, st) = 3 THEN <<>> ELSE Listing(P, st)
    [] f = "fl"  -> st.fl
    [] f = "cnt" -> <<st.cs, st.tmin, st.tmax>>
    [] f = "sta" -> <<Cardinality(DOMAIN st.labs), st.cs, st.dsz, st.cs + st.dsz>>

Agrees(P, st, f, o) ==
  LET e == Expect(P, st, f)
  IN  CASE f = "out" -> Exit(P, st) >= 2 \/ o.out = e
        [] f = "lst" -> Exit(P, st) = 3 \/ o.lst = e
        [] f = "lab" -> \/ Exit(P, st) = 3
                        \/ \* a macro that happens to read like an expression may be listed
                           \* and a define whose value depends on the place has none, or any
                           /\ LET any == ({k \in DOMAIN st.defs : st.defs[k].b.t \in {"m", "s"}} \cup PlacedDefs(P, st)) \ DOMAIN st.labs
                                  lab == SelectSeq(o.lab, LAMBDA x : x[1] \notin any)
                                  ks == DOMAIN e \ any
                              IN  /\ Len(lab) = Cardinality(ks)
                                  /\ {<<lab[i][1], lab[i][2]>> : i \in 1..Len(lab)} = {<<k, e[k]>> : k \in ks}
                           /\ Sorted(o.labk)
        [] f = "cnt" -> Exit(P, st) >= 2 \/ o.cnt = e
        [] f = "sta" -> Exit(P, st) >= 2 \/ o.sta = e
        [] f = "txt" -> st.stop \/ o.txt = e
        [] OTHER -> o[f] = e
===========================================================================
