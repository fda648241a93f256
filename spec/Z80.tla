-------------------------------- MODULE Z80 --------------------------------
(***************************************************************************)
(* The Z80 instruction set, given algebraically (opcode = fields x,y,z of  *)
(* the architecture manual) rather than as a table of byte strings.        *)
(*                                                                         *)
(* An operand pattern is a sequence of tokens: a register / condition /    *)
(* indirection spelled in capitals ("B", "HL", "(HL)", "NZ", "AF'"), or    *)
(*   an asterisk: an expression; the same in parentheses: a parenthesised  *)
(*   expression                                                            *)
(*   "(IX)" / "(IY)" with displacement  is written "IX+" / "IY+"           *)
(*   "IX@" / "IY@"  an unparenthesised IX/IY with displacement (LEA, PEA)  *)
(*                                                                         *)
(* Enc(mn, k) is [e |-> elements, t |-> <<min, max>> T-states], where an   *)
(* element is <<"b", byte>> or a slot <<kind, operand index, ...>>:        *)
(*   n8 byte, nn address-sized word, rel relative jump, d displacement,    *)
(*   bit bit-number byte OR-ed with a base, rst restart vector.            *)
(* [e |-> <<>>] means that no form of the mnemonic takes these operands.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

R8s == {"B","C","D","E","H","L","(HL)","A"}
R8 == ("B" :> 0) @@ ("C" :> 1) @@ ("D" :> 2) @@ ("E" :> 3) @@ ("H" :> 4) @@
      ("L" :> 5) @@ ("(HL)" :> 6) @@ ("A" :> 7)
Reg8s == R8s \ {"(HL)"}
Halves == {"IXH","IXL","IYH","IYL"}
HalfCode == ("IXH" :> 4) @@ ("IXL" :> 5) @@ ("IYH" :> 4) @@ ("IYL" :> 5)
Pfx == ("IX" :> 221) @@ ("IXH" :> 221) @@ ("IXL" :> 221) @@ ("IX+" :> 221) @@ ("(IX)" :> 221) @@ ("IX@" :> 221)
    @@ ("IY" :> 253) @@ ("IYH" :> 253) @@ ("IYL" :> 253) @@ ("IY+" :> 253) @@ ("(IY)" :> 253) @@ ("IY@" :> 253)
RPs == {"BC","DE","HL","SP"}
RP == ("BC" :> 0) @@ ("DE" :> 1) @@ ("HL" :> 2) @@ ("SP" :> 3) @@ ("AF" :> 3)
Ixs == {"IX","IY"}
Ixd == {"IX+","IY+"}
CCs == {"NZ","Z","NC","C","PO","PE","P","M"}
CC == ("NZ" :> 0) @@ ("Z" :> 1) @@ ("NC" :> 2) @@ ("C" :> 3) @@ ("PO" :> 4) @@ ("PE" :> 5) @@ ("P" :> 6) @@ ("M" :> 7)

Alus == {"ADD","ADC","SUB","SBC","AND","XOR","OR","CP"}
Alu == ("ADD" :> 0) @@ ("ADC" :> 1) @@ ("SUB" :> 2) @@ ("SBC" :> 3) @@ ("AND" :> 4) @@ ("XOR" :> 5) @@ ("OR" :> 6) @@ ("CP" :> 7)
Rots == {"RLC","RRC","RL","RR","SLA","SRA","SLL","SL1","SRL"}
Rot == ("RLC" :> 0) @@ ("RRC" :> 1) @@ ("RL" :> 2) @@ ("RR" :> 3) @@ ("SLA" :> 4) @@ ("SRA" :> 5) @@ ("SLL" :> 6) @@ ("SL1" :> 6) @@ ("SRL" :> 7)
BitOps == {"BIT","RES","SET"}
BitX == ("BIT" :> 64) @@ ("RES" :> 128) @@ ("SET" :> 192)

B(v) == <<"b", v>>
None == [e |-> <<>>, t |-> <<0, 0>>]
I(es, a, b) == [e |-> es, t |-> <<a, b>>]
One(v, a) == I(<<B(v)>>, a, a)
Two(p, v, a, b) == I(<<B(p), B(v)>>, a, b)

\* instructions without operands
Simple(mn) ==
  CASE mn = "NOP"  -> One(0, 4)    [] mn = "RLCA" -> One(7, 4)   [] mn = "RRCA" -> One(15, 4)
    [] mn = "RLA"  -> One(23, 4)   [] mn = "RRA"  -> One(31, 4)  [] mn = "DAA"  -> One(39, 4)
    [] mn = "CPL"  -> One(47, 4)   [] mn = "SCF"  -> One(55, 4)  [] mn = "CCF"  -> One(63, 4)
    [] mn = "HALT" -> One(118, 4)  [] mn = "RET"  -> One(201, 10) [] mn = "EXX" -> One(217, 4)
    [] mn = "DI"   -> One(243, 4)  [] mn = "EI"   -> One(251, 4)
    [] mn = "NEG"  -> Two(237, 68, 8, 8)   [] mn = "RETN" -> Two(237, 69, 14, 14)
    [] mn = "RETI" -> Two(237, 77, 14, 14) [] mn = "RRD"  -> Two(237, 103, 18, 18)
    [] mn = "RLD"  -> Two(237, 111, 18, 18)
    \* block instructions: 10 1yy 0zz, y selects I/D and repetition, z the operation
    [] mn = "LDI"  -> Two(237, 160, 16, 16) [] mn = "CPI"  -> Two(237, 161, 16, 16)
    [] mn = "INI"  -> Two(237, 162, 16, 16) [] mn = "OUTI" -> Two(237, 163, 16, 16)
    [] mn = "LDD"  -> Two(237, 168, 16, 16) [] mn = "CPD"  -> Two(237, 169, 16, 16)
    [] mn = "IND"  -> Two(237, 170, 16, 16) [] mn = "OUTD" -> Two(237, 171, 16, 16)
    [] mn = "LDIR" -> Two(237, 176, 16, 21) [] mn = "CPIR" -> Two(237, 177, 16, 21)
    [] mn = "INIR" -> Two(237, 178, 16, 21) [] mn = "OTIR" -> Two(237, 179, 16, 21)
    [] mn = "LDDR" -> Two(237, 184, 16, 21) [] mn = "CPDR" -> Two(237, 185, 16, 21)
    [] mn = "INDR" -> Two(237, 186, 16, 21) [] mn = "OTDR" -> Two(237, 187, 16, 21)
    [] OTHER -> None

\* 8-bit ALU operation with source token s at operand index i
AluOp(mn, s, i) ==
  CASE s \in Reg8s  -> One(128 + 8 * Alu[mn] + R8[s], 4)
    [] s = "(HL)"   -> One(128 + 8 * Alu[mn] + 6, 7)
    [] s \in Halves -> Two(Pfx[s], 128 + 8 * Alu[mn] + HalfCode[s], 8, 8)
    [] s \in Ixd    -> I(<<B(Pfx[s]), B(128 + 8 * Alu[mn] + 6), <<"d", i>>>>, 19, 19)
    [] s = "*"      -> I(<<B(192 + 8 * Alu[mn] + 6), <<"n8", i>>>>, 7, 7)
    [] OTHER        -> None

RotOp(mn, s, i) ==
  CASE s \in Reg8s -> Two(203, 8 * Rot[mn] + R8[s], 8, 8)
    [] s = "(HL)"  -> Two(203, 8 * Rot[mn] + 6, 15, 15)
    [] s \in Ixd   -> I(<<B(Pfx[s]), B(203), <<"d", i>>, B(8 * Rot[mn] + 6)>>, 23, 23)
    [] OTHER       -> None

LdOp(d, s) ==
  CASE d \in Reg8s /\ s \in Reg8s -> One(64 + 8 * R8[d] + R8[s], 4)
    [] d \in Reg8s /\ s = "(HL)"  -> One(64 + 8 * R8[d] + 6, 7)
    [] d = "(HL)" /\ s \in Reg8s  -> One(112 + R8[s], 7)
    [] d \in Reg8s /\ s = "*"     -> I(<<B(6 + 8 * R8[d]), <<"n8", 2>>>>, 7, 7)
    [] d = "(HL)" /\ s = "*"      -> I(<<B(54), <<"n8", 2>>>>, 10, 10)
    [] d \in Reg8s /\ s \in Ixd   -> I(<<B(Pfx[s]), B(70 + 8 * R8[d]), <<"d", 2>>>>, 19, 19)
    [] d \in Ixd /\ s \in Reg8s   -> I(<<B(Pfx[d]), B(112 + R8[s]), <<"d", 1>>>>, 19, 19)
    [] d \in Ixd /\ s = "*"       -> I(<<B(Pfx[d]), B(54), <<"d", 1>>, <<"n8", 2>>>>, 19, 19)
    \* IX/IY halves combine with B C D E A and with the halves of the same register
    [] d \in Halves /\ s \in Reg8s \ {"H","L"} -> Two(Pfx[d], 64 + 8 * HalfCode[d] + R8[s], 8, 8)
    [] d \in Reg8s \ {"H","L"} /\ s \in Halves -> Two(Pfx[s], 64 + 8 * R8[d] + HalfCode[s], 8, 8)
    [] d \in Halves /\ s \in Halves /\ Pfx[d] = Pfx[s] ->
           Two(Pfx[d], 64 + 8 * HalfCode[d] + HalfCode[s], 8, 8)
    [] d \in Halves /\ s = "*" -> I(<<B(Pfx[d]), B(6 + 8 * HalfCode[d]), <<"n8", 2>>>>, 11, 11)
    [] d = "A" /\ s = "(BC)" -> One(10, 7)   [] d = "A" /\ s = "(DE)" -> One(26, 7)
    [] d = "(BC)" /\ s = "A" -> One(2, 7)    [] d = "(DE)" /\ s = "A" -> One(18, 7)
    [] d = "A" /\ s = "(*)" -> I(<<B(58), <<"nn", 2>>>>, 13, 13)
    [] d = "(*)" /\ s = "A" -> I(<<B(50), <<"nn", 1>>>>, 13, 13)
    [] d = "A" /\ s = "I" -> Two(237, 87, 9, 9)   [] d = "A" /\ s = "R" -> Two(237, 95, 9, 9)
    [] d = "I" /\ s = "A" -> Two(237, 71, 9, 9)   [] d = "R" /\ s = "A" -> Two(237, 79, 9, 9)
    [] d \in RPs /\ s = "*" -> I(<<B(1 + 16 * RP[d]), <<"nn", 2>>>>, 10, 10)
    [] d \in Ixs /\ s = "*" -> I(<<B(Pfx[d]), B(33), <<"nn", 2>>>>, 14, 14)
    [] d = "HL" /\ s = "(*)" -> I(<<B(42), <<"nn", 2>>>>, 16, 16)
    [] d = "(*)" /\ s = "HL" -> I(<<B(34), <<"nn", 1>>>>, 16, 16)
    [] d \in RPs /\ s = "(*)" -> I(<<B(237), B(75 + 16 * RP[d]), <<"nn", 2>>>>, 20, 20)
    [] d = "(*)" /\ s \in RPs -> I(<<B(237), B(67 + 16 * RP[s]), <<"nn", 1>>>>, 20, 20)
    [] d \in Ixs /\ s = "(*)" -> I(<<B(Pfx[d]), B(42), <<"nn", 2>>>>, 20, 20)
    [] d = "(*)" /\ s \in Ixs -> I(<<B(Pfx[s]), B(34), <<"nn", 1>>>>, 20, 20)
    [] d = "SP" /\ s = "HL" -> One(249, 6)
    [] d = "SP" /\ s \in Ixs -> Two(Pfx[s], 249, 10, 10)
    [] OTHER -> None

Enc1(mn, s) ==
  CASE mn \in Alus \ {"ADD","ADC","SBC"} -> AluOp(mn, s, 1)
    [] mn \in Rots -> RotOp(mn, s, 1)
    [] mn \in {"INC","DEC"} ->
         LET z == IF mn = "INC" THEN 4 ELSE 5
             q == IF mn = "INC" THEN 3 ELSE 11
         IN  CASE s \in Reg8s  -> One(8 * R8[s] + z, 4)
               [] s = "(HL)"   -> One(48 + z, 11)
               [] s \in Halves -> Two(Pfx[s], 8 * HalfCode[s] + z, 8, 8)
               [] s \in Ixd    -> I(<<B(Pfx[s]), B(48 + z), <<"d", 1>>>>, 23, 23)
               [] s \in RPs    -> One(16 * RP[s] + q, 6)
               [] s \in Ixs    -> Two(Pfx[s], 32 + q, 10, 10)
               [] OTHER        -> None
    [] mn \in {"PUSH","POP"} ->
         LET q == IF mn = "PUSH" THEN 197 ELSE 193
             t == IF mn = "PUSH" THEN 11 ELSE 10
         IN  CASE s \in {"BC","DE","HL","AF"} -> One(q + 16 * RP[s], t)
               [] s \in Ixs -> Two(Pfx[s], q + 32, t + 4, t + 4)
               [] OTHER -> None
    [] mn = "RET" /\ s \in CCs -> I(<<B(192 + 8 * CC[s])>>, 5, 11)
    [] mn = "JP" ->
         CASE s = "(HL)" -> One(233, 4)
           [] s \in {"(IX)","(IY)"} -> Two(Pfx[s], 233, 8, 8)
           [] s = "*" -> I(<<B(195), <<"nn", 1>>>>, 10, 10)
           [] OTHER -> None
    [] mn = "CALL" /\ s = "*" -> I(<<B(205), <<"nn", 1>>>>, 17, 17)
    [] mn = "JR" /\ s = "*" -> I(<<B(24), <<"rel", 1>>>>, 12, 12)
    [] mn = "DJNZ" /\ s = "*" -> I(<<B(16), <<"rel", 1>>>>, 8, 13)
    [] mn = "RST" /\ s = "*" -> I(<<<<"rst", 1>>>>, 11, 11)
    [] mn = "IM" ->
         CASE s = "0" -> Two(237, 70, 8, 8) [] s = "1" -> Two(237, 86, 8, 8)
           [] s = "2" -> Two(237, 94, 8, 8) [] OTHER -> None
    [] OTHER -> None

Enc2(mn, d, s) ==
  CASE mn = "LD" -> LdOp(d, s)
    [] mn \in Alus /\ d = "A" -> AluOp(mn, s, 2)
    [] mn = "ADD" /\ d = "HL" /\ s \in RPs -> One(9 + 16 * RP[s], 11)
    [] mn = "ADD" /\ d \in Ixs ->
         CASE s \in {"BC","DE","SP"} -> Two(Pfx[d], 9 + 16 * RP[s], 15, 15)
           [] s = d -> Two(Pfx[d], 41, 15, 15)
           [] OTHER -> None
    [] mn = "ADC" /\ d = "HL" /\ s \in RPs -> Two(237, 74 + 16 * RP[s], 15, 15)
    [] mn = "SBC" /\ d = "HL" /\ s \in RPs -> Two(237, 66 + 16 * RP[s], 15, 15)
    [] mn \in BitOps /\ d = "*" ->
         CASE s \in Reg8s -> I(<<B(203), <<"bit", 1, BitX[mn] + R8[s]>>>>, 8, 8)
           [] s = "(HL)"  -> LET t == IF mn = "BIT" THEN 12 ELSE 15
                             IN I(<<B(203), <<"bit", 1, BitX[mn] + 6>>>>, t, t)
           [] s \in Ixd   -> LET t == IF mn = "BIT" THEN 20 ELSE 23
                             IN I(<<B(Pfx[s]), B(203), <<"d", 2>>, <<"bit", 1, BitX[mn] + 6>>>>, t, t)
           [] OTHER -> None
    \* undocumented: rotate (IX+d) and copy the result to a register
    [] mn \in Rots /\ d \in Reg8s /\ s \in Ixd ->
         I(<<B(Pfx[s]), B(203), <<"d", 2>>, B(8 * Rot[mn] + R8[d])>>, 23, 23)
    [] mn = "EX" ->
         CASE d = "AF" /\ s = "AF'" -> One(8, 4)
           [] d = "DE" /\ s = "HL" -> One(235, 4)
           [] d = "(SP)" /\ s = "HL" -> One(227, 19)
           [] d = "(SP)" /\ s \in Ixs -> Two(Pfx[s], 227, 23, 23)
           [] OTHER -> None
    [] mn = "JP" /\ d \in CCs /\ s = "*" -> I(<<B(194 + 8 * CC[d]), <<"nn", 2>>>>, 10, 10)
    [] mn = "CALL" /\ d \in CCs /\ s = "*" -> I(<<B(196 + 8 * CC[d]), <<"nn", 2>>>>, 10, 17)
    [] mn = "JR" /\ d \in {"NZ","Z","NC","C"} /\ s = "*" -> I(<<B(32 + 8 * CC[d]), <<"rel", 2>>>>, 7, 12)
    [] mn = "IN" ->
         CASE d = "A" /\ s = "(*)" -> I(<<B(219), <<"n8", 2>>>>, 11, 11)
           [] d \in Reg8s /\ s = "(C)" -> Two(237, 64 + 8 * R8[d], 12, 12)
           [] d = "F" /\ s = "(C)" -> Two(237, 112, 12, 12)
           [] OTHER -> None
    [] mn = "OUT" ->
         CASE d = "(*)" /\ s = "A" -> I(<<B(211), <<"n8", 1>>>>, 11, 11)
           [] d = "(C)" /\ s \in Reg8s -> Two(237, 65 + 8 * R8[s], 12, 12)
           [] d = "(C)" /\ s = "0" -> Two(237, 113, 12, 12)
           [] OTHER -> None
    [] OTHER -> None

\* undocumented SET/RES b,(IX+d) with a copy to a register
Enc3(mn, r, b, s) ==
  IF mn \in {"SET","RES"} /\ r \in Reg8s /\ b = "*" /\ s \in Ixd
  THEN I(<<B(Pfx[s]), B(203), <<"d", 3>>, <<"bit", 2, BitX[mn] + R8[r]>>>>, 23, 23)
  ELSE None

MnZ80 == {"NOP","RLCA","RRCA","RLA","RRA","DAA","CPL","SCF","CCF","HALT","RET","EXX","DI","EI","NEG","RETN","RETI",
          "RRD","RLD","LDI","CPI","INI","OUTI","LDD","CPD","IND","OUTD","LDIR","CPIR","INIR","OTIR","LDDR","CPDR",
          "INDR","OTDR","INC","DEC","PUSH","POP","JP","CALL","JR","DJNZ","RST","IM","LD","EX","IN","OUT"}
          \cup Alus \cup Rots \cup BitOps

EncZ80(mn, k) ==
  CASE Len(k) = 0 -> Simple(mn)
    [] Len(k) = 1 -> Enc1(mn, k[1])
    [] Len(k) = 2 -> Enc2(mn, k[1], k[2])
    [] Len(k) = 3 -> Enc3(mn, k[1], k[2], k[3])
    [] OTHER -> None
============================================================================
