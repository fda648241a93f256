---------------------------- MODULE ExportTrace ----------------------------
(***************************************************************************)
(* Checks files written by the real assembler against Export.  A trace is  *)
(*   [p |-> case, o |-> [rc, ds, im, has, out, ff, k, pages]]              *)
(* where out followed by ff bytes 255 is the file, k is a quotient that    *)
(* witnesses the signature and pages the page records of a huge hex file.  *)
(* Each is a behaviour that goes along the file piece by piece.            *)
(***************************************************************************)
EXTENDS Export, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, ph, pc, pos, bad, q, img
vars == <<tr, ph, pc, pos, bad, q, img>>
T == Traces[tr]
C == T.p
F == T.o.out

Chunk == 4096
NChunks(b) == (Len(b) + Chunk - 1) \div Chunk
ChunkOf(b, i) == SubSeq(b, (i - 1) * Chunk + 1, IF i * Chunk < Len(b) THEN i * Chunk ELSE Len(b))

Start(t) == CASE Kind(t.p) = "prgm" -> "prgm"
              [] Kind(t.p) = "app" -> IF AppOk(t.p) THEN "md5" ELSE "end"
              [] Kind(t.p) = "hex" -> IF t.p.huge THEN "pages" ELSE "hex"
              [] OTHER -> "raw"
Init == /\ tr \in 1..Len(Traces) /\ pc = 1 /\ pos = 0 /\ bad = "" /\ ph = Start(Traces[tr])
        /\ q = Md5Init
        /\ img = IF ph = "md5" THEN Padded(Patched(Traces[tr].p)) ELSE Traces[tr].p.pay

Fits(x) == pos + Len(x) <= Len(F) /\ SubSeq(F, pos + 1, pos + Len(x)) = x
\* the next piece of the file is x
Piece(x) == /\ pos' = pos + Len(x)
            /\ bad' = IF bad = "" /\ ~Fits(x) THEN ph \o " " \o ToString(pc) ELSE bad
Prgm1 == ph = "prgm" /\ Piece(PrgmPiece(C, pc)) /\ pc' = pc + 1 /\ ph' = (IF pc = 6 THEN "end" ELSE ph) /\ UNCHANGED <<tr, q, img>>
Raw1 == ph = "raw" /\ (IF pc > NChunks(img) THEN ph' = "end" /\ UNCHANGED <<pc, pos, bad>>
                       ELSE Piece(ChunkOf(img, pc)) /\ pc' = pc + 1 /\ ph' = ph) /\ UNCHANGED <<tr, q, img>>
Hex1 == ph = "hex" /\ (IF pc > NRecs(img) THEN Piece(EndRec) /\ ph' = "end" /\ pc' = pc
                       ELSE Piece(HexPiece(img, pc)) /\ pc' = pc + 1 /\ ph' = ph) /\ UNCHANGED <<tr, q, img>>
Pages1 == /\ ph = "pages"
          /\ bad' = IF bad = "" /\ T.o.pages # [p \in 1..((C.len + 16383) \div 16384) |-> Record(2, 0, 2, <<(p - 1) \div 256, (p - 1) % 256>>)] THEN "pages" ELSE bad
          /\ pos' = Len(F) /\ ph' = "end" /\ UNCHANGED <<tr, pc, q, img>>
Md5 == ph = "md5" /\ q' = Md5Block(img, pc - 1, q) /\ pc' = pc + 1 /\ ph' = (IF 64 * pc = Len(img) THEN "sign" ELSE ph)
       /\ UNCHANGED <<tr, pos, bad, img>>
\* the signature is whatever verifies
Sign == /\ ph = "sign"
        /\ LET n == Len(C.pay)
               l == ByteAt(F, n + 2)
               s == BytesAt(F, n + 3, IF l > 80 THEN 80 ELSE l)
               f == IF ByteAt(F, n + 3 + l) = 0 THEN 0 ELSE ByteAt(F, n + 4 + l)
           IN  /\ bad' = IF bad = "" /\ ~RabinOk(Md5Bytes(q), s, f, T.o.k) THEN "signature" ELSE bad
               /\ img' = Patched(C) \o SigBlock(s, f)
        /\ ph' = "head" /\ pc' = 1 /\ UNCHANGED <<tr, pos, q>>
AppHead1 == ph = "head" /\ Piece(AppHead(C)) /\ ph' = "hex" /\ UNCHANGED <<tr, pc, q, img>>

Verdict ==
  LET rest == Len(F) - pos + T.o.ff
      want == IF Kind(C) = "rom" /\ Len(C.pay) < 524288 THEN 524288 - Len(C.pay) ELSE 0
      b == (IF bad # "" THEN {"file"} ELSE {})
           \cup (IF rest # want \/ (Kind(C) = "rom" /\ pos # Len(F)) THEN {"length"} ELSE {})
           \cup (IF T.o.has # TRUE THEN {"has"} ELSE {})
           \cup (IF T.o.ds # ExpDs(C) THEN {"ds"} ELSE {})
           \cup (IF T.o.im # ExpIm(C) THEN {"im"} ELSE {})
           \cup (IF T.o.rc # ExpRc(C) THEN {"rc"} ELSE {})
      E(f) == CASE f = "file" -> bad [] f = "length" -> want [] f = "has" -> TRUE [] f = "ds" -> ExpDs(C) [] f = "im" -> ExpIm(C) [] f = "rc" -> ExpRc(C)
  IN  [i |-> T.i, ok |-> b = {}, bad |-> b, e |-> [f \in b |-> E(f)], steps |-> pc, rc |-> ExpRc(C)]
End == ph = "end" /\ PrintT("VERDICT " \o ToJson(Verdict)) /\ ph' = "done" /\ UNCHANGED <<tr, pc, pos, bad, q, img>>

Next == Prgm1 \/ Raw1 \/ Hex1 \/ Pages1 \/ Md5 \/ Sign \/ AppHead1 \/ End
View == <<tr, ph, pc>>

\* the position never goes back
Forward == [][pos' >= pos]_vars
TypeOK == pc \in Nat /\ pos \in Nat /\ tr \in 1..Len(Traces)
===========================================================================
