---------------------------- MODULE BitmapTrace ----------------------------
(***************************************************************************)
(* Checks runs of the real assembler on programs of options, labels, data  *)
(* and included bitmaps.  A trace's program is a sequence of acts:         *)
(*   [a |-> "opt", n |-> field of the options, v |-> value]                *)
(*   [a |-> "lab", n]  [a |-> "org", v]  [a |-> "db", b]                    *)
(*   [a |-> "bmp", im, l |-> line]  [a |-> "bad", l |-> line]               *)
(* An image map is assembled cell by cell.                                 *)
(***************************************************************************)
EXTENDS Bitmap, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, at, cell, opts, pc, last, out, labs, im
vars == <<tr, at, cell, opts, pc, last, out, labs, im>>
T == Traces[tr]
Acts == T.p.acts
A == Acts[at]

Init == /\ tr \in 1..Len(Traces) /\ at = 1 /\ cell = 0 - 1 /\ opts = NoOpts /\ pc = 0
        /\ last = [n |-> "", v |-> 0] /\ out = <<>> /\ labs = <<>> /\ im = <<>>
Sfx(n, s) == n \o s
Named == last.n # "" /\ last.v = pc
Msg(c, l) == [c |-> c, f |-> T.p.file, l |-> l]
Warned(k, l) == [i \in 1..k |-> Msg("W", l)]
Emit(b) == out' = out \o b /\ pc' = pc + Len(b)
Quiet == UNCHANGED <<tr, cell>>

Opt == A.a = "opt" /\ opts' = [opts EXCEPT ![A.n] = A.v] /\ at' = at + 1 /\ Quiet /\ UNCHANGED <<pc, last, out, labs, im>>
Lab == A.a = "lab" /\ last' = [n |-> A.n, v |-> pc] /\ labs' = Append(labs, <<A.n, pc>>) /\ at' = at + 1 /\ Quiet /\ UNCHANGED <<opts, pc, out, im>>
Org == A.a = "org" /\ pc' = A.v /\ at' = at + 1 /\ Quiet /\ UNCHANGED <<opts, last, out, labs, im>>
Db == A.a = "db" /\ Emit(A.b) /\ at' = at + 1 /\ Quiet /\ UNCHANGED <<opts, last, labs, im>>
Bad == A.a = "bad" /\ im' = Append(im, Msg("E", A.l)) /\ at' = at + 1 /\ Quiet /\ UNCHANGED <<opts, pc, last, out, labs>>
Bmp == /\ A.a = "bmp" /\ opts.map = <<>>
       /\ Emit(Header(opts, A.im.w, A.im.h) \o Region(A.im, opts, 0, 0, A.im.w, A.im.h))
       /\ labs' = labs \o (IF Named THEN <<<<Sfx(last.n, "_WIDTH"), A.im.w>>, <<Sfx(last.n, "_HEIGHT"), A.im.h>>>> ELSE <<>>)
       /\ im' = im \o Warned(NWarn(opts, A.im.w, A.im.h), A.l)
       /\ at' = at + 1 /\ Quiet /\ UNCHANGED <<opts, last>>
\* the first cell's name is decided before it moves the counter
MapStart == /\ A.a = "bmp" /\ opts.map # <<>> /\ cell = 0 - 1
            /\ cell' = 0
            /\ last' = (IF Named THEN [last EXCEPT !.v = 0 - 1] ELSE [n |-> "", v |-> last.v])
            /\ labs' = labs \o (IF Named THEN <<<<Sfx(last.n, "_WIDTH"), CellW(A.im, opts)>>, <<Sfx(last.n, "_HEIGHT"), CellH(A.im, opts)>>>> ELSE <<>>)
            /\ UNCHANGED <<tr, at, opts, pc, out, im>>
MapCell == /\ A.a = "bmp" /\ opts.map # <<>> /\ cell \in 0..NCells(opts) - 1
           /\ Emit(CellBytes(A.im, opts, cell))
           /\ labs' = labs \o (IF last.n # "" THEN <<<<Sfx(last.n, ToString(cell + 1)), pc>>>> ELSE <<>>)
           /\ im' = im \o Warned(NWarn(opts, CellW(A.im, opts), CellH(A.im, opts)), A.l)
           /\ cell' = cell + 1
           /\ UNCHANGED <<tr, at, opts, last>>
MapEnd == /\ A.a = "bmp" /\ opts.map # <<>> /\ cell = NCells(opts)
          /\ labs' = labs \o (IF last.n # "" THEN <<<<Sfx(last.n, "_COUNT"), cell>>>> ELSE <<>>)
          /\ opts' = [opts EXCEPT !.map = <<>>]
          /\ cell' = 0 - 1 /\ at' = at + 1
          /\ last' = [n |-> "", v |-> 0]
          /\ UNCHANGED <<tr, pc, out, im>>

SetOf(s) == {s[i] : i \in 1..Len(s)}
Rc == IF \E i \in 1..Len(im) : im[i].c = "E" THEN 2 ELSE IF im # <<>> THEN 1 ELSE 0
Verdict ==
  LET ex == [out |-> out, lab |-> SetOf(labs), im |-> im, ds |-> <<>>, rc |-> Rc, has |-> TRUE]
      bad == {f \in DOMAIN ex : IF f = "lab" THEN SetOf(T.o.lab) # ex.lab \/ Len(T.o.lab) # Len(labs)
                                ELSE IF f = "rc" /\ Rc = 2 THEN T.o.rc < 2 ELSE T.o[f] # ex[f]}
  IN  [i |-> T.i, ok |-> bad = {}, bad |-> bad, e |-> [f \in bad |-> ex[f]], steps |-> at, rc |-> Rc]
End == at = Len(Acts) + 1 /\ PrintT("VERDICT " \o ToJson(Verdict)) /\ at' = at + 1 /\ UNCHANGED <<tr, cell, opts, pc, last, out, labs, im>>
Next == (at <= Len(Acts) /\ (Opt \/ Lab \/ Org \/ Db \/ Bad \/ Bmp \/ MapStart \/ MapCell \/ MapEnd)) \/ End
View == <<tr, at, cell>>
\* the counter moves with the bytes (no act but org moves it otherwise), and bytes are bytes
BytesAre == \A i \in 1..Len(out) : out[i] \in 0..255
OnlyGrows == [][Len(out') >= Len(out) /\ SubSeq(out', 1, Len(out)) = out]_vars
===========================================================================
