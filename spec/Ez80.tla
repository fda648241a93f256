------------------------------- MODULE Ez80 -------------------------------
(***************************************************************************)
(* The eZ80 instruction set: the documented Z80 forms (plus IX/IY halves), *)
(* the Z180-style additions and the 24-bit register-pair moves, again by   *)
(* opcode fields.  Prefix bytes and operand widths are in Asm.tla, where   *)
(* the ADL mode is known.                                                  *)
(***************************************************************************)
EXTENDS Z80

E0(es) == I(es, 0, 0)
ED(v) == E0(<<B(237), B(v)>>)

EzSimple ==
  ("SLP" :> 118) @@ ("STMIX" :> 125) @@ ("RSMIX" :> 126) @@
  \* 1 0 0/1 ... : y = I/D and single/repeat, z = 2 (in, memory), 3 (out, memory), 4 (two-byte port)
  ("INIM" :> 130) @@ ("OTIM" :> 131) @@ ("INI2" :> 132) @@ ("INDM" :> 138) @@ ("OTDM" :> 139) @@ ("IND2" :> 140) @@
  ("INIMR" :> 146) @@ ("OTIMR" :> 147) @@ ("INI2R" :> 148) @@ ("INDMR" :> 154) @@ ("OTDMR" :> 155) @@ ("IND2R" :> 156) @@
  ("OUTI2" :> 164) @@ ("OUTD2" :> 172) @@ ("OTI2R" :> 180) @@ ("OTD2R" :> 188) @@
  ("INIRX" :> 194) @@ ("OTIRX" :> 195) @@ ("INDRX" :> 202) @@ ("OTDRX" :> 203)

MnEz80 == (MnZ80 \ {"SLL","SL1"}) \cup DOMAIN EzSimple \cup {"LEA","PEA","MLT","TST","TSTIO","IN0","OUT0"}

Wide == {"BC","DE","HL"}
\* second opcode byte of a 24-bit move through memory; same = register is the index register itself
RdOp(r, px) == CASE r \in Wide -> 7 + 16 * RP[r] [] Pfx[r] = px -> 55 [] OTHER -> 49
WrOp(r, px) == CASE r \in Wide -> 15 + 16 * RP[r] [] Pfx[r] = px -> 63 [] OTHER -> 62
BCp(s) == s \in {"(C)", "(BC)"}
BcTok(k) == [i \in 1..Len(k) |-> IF k[i] = "(BC)" THEN "(C)" ELSE k[i]]

EzExtra(mn, k) ==
  CASE Len(k) = 0 /\ mn \in DOMAIN EzSimple -> ED(EzSimple[mn])
    [] mn = "LD" /\ Len(k) = 2 ->
         LET d == k[1] s == k[2] IN
         CASE d \in Wide /\ s = "(HL)" -> ED(7 + 16 * RP[d])
           [] d = "IX" /\ s = "(HL)" -> ED(55)   [] d = "IY" /\ s = "(HL)" -> ED(49)
           [] d = "(HL)" /\ s \in Wide -> ED(15 + 16 * RP[s])
           [] d = "(HL)" /\ s = "IX" -> ED(63)   [] d = "(HL)" /\ s = "IY" -> ED(62)
           [] d \in Wide \cup Ixs /\ s \in Ixd -> E0(<<B(Pfx[s]), B(RdOp(d, Pfx[s])), <<"d", 2>>>>)
           [] d \in Ixd /\ s \in Wide \cup Ixs -> E0(<<B(Pfx[d]), B(WrOp(s, Pfx[d])), <<"d", 1>>>>)
           [] d = "A" /\ s = "MB" -> ED(110)     [] d = "MB" /\ s = "A" -> ED(109)
           [] d = "I" /\ s = "HL" -> ED(199)     [] d = "HL" /\ s = "I" -> ED(215)
           [] OTHER -> None
    [] mn = "LEA" /\ Len(k) = 2 /\ k[2] \in {"IX@","IY@"} ->
         LET y == IF k[2] = "IY@" THEN 1 ELSE 0 IN
         CASE k[1] \in Wide -> E0(<<B(237), B(2 + y + 16 * RP[k[1]]), <<"d", 2>>>>)
           [] k[1] = "IX" -> E0(<<B(237), B(IF y = 0 THEN 50 ELSE 84), <<"d", 2>>>>)
           [] k[1] = "IY" -> E0(<<B(237), B(IF y = 0 THEN 85 ELSE 51), <<"d", 2>>>>)
           [] OTHER -> None
    [] mn = "PEA" /\ Len(k) = 1 /\ k[1] \in {"IX@","IY@"} ->
         E0(<<B(237), B(IF k[1] = "IX@" THEN 101 ELSE 102), <<"d", 1>>>>)
    [] mn = "MLT" /\ Len(k) = 1 /\ k[1] \in RPs -> ED(76 + 16 * RP[k[1]])
    [] mn = "TST" /\ Len(k) = 2 /\ k[1] = "A" ->
         CASE k[2] \in R8s -> ED(4 + 8 * R8[k[2]])
           [] k[2] = "*" -> E0(<<B(237), B(100), <<"n8", 2>>>>)
           [] OTHER -> None
    [] mn = "TSTIO" /\ k = <<"*">> -> E0(<<B(237), B(116), <<"n8", 1>>>>)
    [] mn = "IN0" /\ Len(k) = 2 /\ k[1] \in Reg8s /\ k[2] = "(*)" ->
         E0(<<B(237), B(8 * R8[k[1]]), <<"n8", 2>>>>)
    [] mn = "IN0" /\ k = <<"F", "(*)">> -> E0(<<B(237), B(48), <<"n8", 2>>>>)
    [] mn = "IN0" /\ k = <<"(*)">> -> E0(<<B(237), B(48), <<"n8", 1>>>>)
    [] mn = "OUT0" /\ Len(k) = 2 /\ k[1] = "(*)" /\ k[2] \in Reg8s ->
         E0(<<B(237), B(1 + 8 * R8[k[2]]), <<"n8", 1>>>>)
    [] mn = "IN" /\ Len(k) = 1 /\ BCp(k[1]) -> ED(112)
    [] OTHER -> None

\* undocumented Z80 forms the eZ80 does not have, and the moves whose opcodes are its suffixes
NotEz(mn, k) ==
  \/ mn = "LD" /\ Len(k) = 2 /\ k[1] \in {"B","C","D","E"} /\ k[1] = k[2]
  \/ mn \in {"SLL", "SL1"}
  \/ mn \in Rots /\ Len(k) = 2
  \/ mn \in {"SET","RES"} /\ Len(k) = 3
  \/ mn = "OUT" /\ Len(k) = 2 /\ BCp(k[1]) /\ k[2] = "0"

EncEz80(mn, k) ==
  LET x == EzExtra(mn, k)
      k2 == IF mn \in {"IN", "OUT"} THEN BcTok(k) ELSE k
  IN  IF x.e # <<>> THEN x ELSE IF NotEz(mn, k) THEN None ELSE EncZ80(mn, k2)

(***************************************************************************)
(* Cycles (without wait states) beyond one for each byte of the            *)
(* instruction: <<least, most, more in ADL mode>>.  A byte of memory or a  *)
(* port takes one, a word two (three in ADL mode).                         *)
(***************************************************************************)
EzMem == {"(HL)", "IX+", "IY+", "(BC)", "(DE)"}
EzOnce == {"INI","IND","OUTI","OUTD","LDI","LDD","INI2","IND2","INIM","INDM","OTIM","OTDM","OUTI2","OUTD2","RLD","RRD"}
EzRep == {"INIR","INDR","OTIR","OTDR","LDIR","LDDR","INI2R","IND2R","INIMR","INDMR","OTIMR","OTDMR","OTI2R","OTD2R",
          "INIRX","INDRX","OTIRX","OTDRX"}
EzExtraTime(mn, k) ==
  LET n == Len(k)
      mem == \E i \in 1..n : k[i] \in EzMem
      one(c) == IF c THEN <<1, 1, 0>> ELSE <<0, 0, 0>>
  IN  CASE mn \in {"ADD","ADC","SUB","SBC","AND","OR","XOR","CP","BIT","TST"} -> one(mem)
        [] mn \in {"INC","DEC","SET","RES"} \cup Rots -> IF mem THEN <<3, 3, 0>> ELSE <<0, 0, 0>>
        [] mn = "EX" -> IF k[1] = "(SP)" THEN <<4, 4, 2>> ELSE <<0, 0, 0>>
        [] mn \in {"IN","OUT","IN0","OUT0","TSTIO","CPI","CPD"} -> <<1, 1, 0>>
        [] mn = "CPIR" \/ mn = "CPDR" -> <<1, 2, 0>>
        [] mn \in EzOnce -> <<3, 3, 0>>
        [] mn \in EzRep -> <<1, 3, 0>>
        [] mn = "JP" -> IF k[1] \in {"(HL)","(IX)","(IY)"} THEN <<2, 2, 0>> ELSE <<2 - n, 1, 1>>
        [] mn = "JR" -> <<2 - n, 1, 0>>
        [] mn = "DJNZ" -> <<0, 2, 0>>
        [] mn = "CALL" -> IF n = 1 THEN <<2, 2, 2>> ELSE <<0, 3, 1>>
        [] mn = "RET" /\ n = 1 -> <<1, 5, 1>>
        [] mn \in {"RET","RETI","RETN","RST"} -> <<4, 4, 1>>
        [] mn \in {"PUSH","POP","PEA"} -> <<2, 2, 1>>
        [] mn = "MLT" -> <<4, 4, 0>>
        [] mn = "LD" ->
             LET big == \E i \in 1..2 : k[i] \in {"BC","DE","HL","SP","IX","IY"} IN
             CASE \E i \in 1..2 : k[i] = "(*)" -> IF big THEN <<2, 2, 2>> ELSE <<1, 1, 1>>
               [] mem -> IF big THEN <<2, 2, 1>> ELSE <<1, 1, 0>>
               [] big /\ k[2] = "*" -> <<0, 0, 1>>
               [] OTHER -> <<0, 0, 0>>
        [] OTHER -> <<0, 0, 0>>
============================================================================
