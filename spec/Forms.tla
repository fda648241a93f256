------------------------------- MODULE Forms -------------------------------
(***************************************************************************)
(* Enumerates every instruction form of the two instruction sets: all      *)
(* mnemonics with all operand patterns of up to three operands.  A state   *)
(* is a mnemonic with a pattern; the forms are printed, and what must hold *)
(* of every encoding is checked.                                           *)
(***************************************************************************)
EXTENDS Ez80, Json, FiniteSets

Tokens == {"A","B","C","D","E","H","L","F","I","R","MB","IXH","IXL","IYH","IYL","AF","AF'","BC","DE","HL","SP","IX","IY",
           "NZ","Z","NC","PO","PE","P","M","(HL)","(BC)","(DE)","(SP)","(C)","(IX)","(IY)","*","(*)","IX+","IY+","IX@","IY@",
           "0","1","2"}
Patterns == {<<>>} \cup {<<a>> : a \in Tokens} \cup {<<a, b>> : a \in Tokens, b \in Tokens}
Three(mn) == IF mn \in {"SET","RES"} THEN {<<a, b, c>> : a \in Tokens, b \in {"*", "A", "(HL)"}, c \in Tokens} ELSE {}

VARIABLES mn, k, ez, go
EncOf(m, p) == IF ez THEN EncEz80(m, p) ELSE EncZ80(m, p)
Enc == EncOf(mn, k)
Init == /\ ez \in BOOLEAN
        /\ mn \in IF ez THEN MnEz80 ELSE MnZ80
        /\ k = <<"-">> /\ go = FALSE
Next == /\ ~go /\ go' = TRUE
        /\ k' \in {p \in Patterns \cup Three(mn) : EncOf(mn, p).e # <<>>}
        /\ UNCHANGED <<mn, ez>>

Slot(el) == el[1] # "b"
Uses(x) == [i \in {i \in 1..Len(x.e) : Slot(x.e[i])} |-> x.e[i][2]]
\* every operand that has a value is put exactly once, every other one not at all
Once == go /\ Enc.e # <<>> =>
          \A i \in 1..Len(k) :
            LET n == Cardinality({j \in 1..Len(Enc.e) : Slot(Enc.e[j]) /\ Enc.e[j][2] = i})
            IN  IF k[i] \in {"*", "(*)", "IX+", "IY+", "IX@", "IY@"} THEN n = 1 ELSE n = 0
\* opcode bytes are bytes, timings are positive on the Z80 and ordered
Sane == go /\ Enc.e # <<>> => /\ \A j \in 1..Len(Enc.e) : ~Slot(Enc.e[j]) => Enc.e[j][2] \in 0..255
                        /\ Enc.t[1] <= Enc.t[2]
                        /\ (~ez => Enc.t[1] >= 4)
                        /\ Len(Enc.e) <= 4
Report == go => PrintT("FORM " \o ToJson([m |-> mn, k |-> k, ez |-> ez, e |-> Enc.e]))
============================================================================
