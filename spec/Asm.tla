-------------------------------- MODULE Asm --------------------------------
(***************************************************************************)
(* The two-pass assembler as a state machine.                              *)
(*                                                                         *)
(* A program P is a record                                                 *)
(*   cs, ez, cc, tl   -A, -E, -C, -T given                                 *)
(*   files            <<[n |-> name, l |-> lines]>>, files[1] is assembled *)
(*   dd               -D definitions <<[n, b]>>                            *)
(* a line is [s |-> statements, x |-> text]; statements are records with   *)
(* kind k (see Exec).  The state st is a record; Init0(P) is the state     *)
(* before the first pass and Step(P, st) performs one transition: one      *)
(* statement of the first pass, the end of a line or of a file, one put-   *)
(* off expression or one queued message of the second pass.  It ends in    *)
(* phase "end".  Result(P, st) is what can be observed from outside.       *)
(***************************************************************************)
EXTENDS AsmExpr, Ez80

(* A buffer of generated text: has anything been written since it was last *)
(* run, and its lines.                                                     *)
Nil == [has |-> FALSE, ls |-> <<>>]
MaxMacroDepth == 512

Top(st) == st.fr[Len(st.fr)]
SetTop(st, fr) == [st EXCEPT !.fr = [@ EXCEPT ![Len(@)] = fr]]
Max2(a, b) == IF a > b THEN a ELSE b

FLines(P, fr) == CASE fr.t \in {"f","m"} -> fr.hi
                   [] fr.t = "b" -> Len(fr.b)
                   [] OTHER -> 1
FStmts(P, fr, ln) == CASE fr.t \in {"f","m"} -> P.files[fr.i].l[ln].s
                       [] fr.t = "b" -> fr.b[ln].s
                       [] OTHER -> fr.s
FileOf(fr) == fr.f
LineOf(fr) == IF fr.t = "s" THEN fr.l ELSE fr.ln

Frame(t, f, i, lo, hi, id) ==
  [t |-> t, f |-> f, i |-> i, ln |-> lo, si |-> 1, hi |-> hi, id |-> id, l |-> lo,
   b |-> <<>>, s |-> <<>>, pop |-> FALSE, sv |-> [l |-> 0, pc |-> 0, from |-> 1]]

---------------------------------------------------------------------------
(* Built-in defines.                                                       *)
NumDef(v) == MkDef(<<>>, BE(Num(v)), [cf |-> "Commandline", cl |-> 0], 0)
RgbBody == [k |-> "ch", h |-> [k |-> "par", e |-> [k |-> "ch", h |-> [k |-> "par", e |-> [k |-> "sym", n |-> <<"__R","__R">>]],
                                                     t |-> <<[o |-> "<<", x |-> Num(16)]>>]],
            t |-> <<[o |-> "|", x |-> [k |-> "par", e |-> [k |-> "ch", h |-> [k |-> "par", e |-> [k |-> "sym", n |-> <<"__G","__G">>]],
                                                     t |-> <<[o |-> "<<", x |-> Num(8)]>>]]],
                    [o |-> "|", x |-> [k |-> "par", e |-> [k |-> "sym", n |-> <<"__B","__B">>]]]>>]
Builtins(P) ==
  ("SPASM" :> NumDef(1)) @@ ("SPASMVER" :> NumDef(2)) @@ ("__LINE" :> NumDef(0)) @@ ("TRUE" :> NumDef(1)) @@
  ("FALSE" :> NumDef(0)) @@ ("__BM_SHD" :> NumDef(2)) @@ ("__BM_MSK_RGB" :> NumDef(65280)) @@
  ("__FILE" :> [NumDef(0) EXCEPT !.b = [t |-> "i", i |-> <<[k |-> "str", b |-> IF "fc" \in DOMAIN P THEN P.fc ELSE <<>>]>>]]) @@ ("GETC" :> [NumDef(0) EXCEPT !.ps = <<"__A","__N">>]) @@
  ("RGB" :> [NumDef(0) EXCEPT !.ps = <<"__R","__G","__B">>, !.b = BE(RgbBody)])

RECURSIVE CmdDefs(_, _, _)
CmdDefs(P, i, m) ==
  IF i > Len(P.dd) THEN m
  ELSE CmdDefs(P, i + 1, (Key(P, P.dd[i].n) :> [NumDef(0) EXCEPT !.b = P.dd[i].b]) @@ m)

Row(st, l) == [l |-> l, pc |-> st.pc, from |-> Len(st.em) + 1]

Init0(P) ==
  LET s0 == [ph |-> "1", fr |-> <<Frame("f", P.files[1].n, 1, 1, Len(P.files[1].l), 1)>>,
             pc |-> 0, op |-> 0, em |-> <<>>, fx |-> <<>>, q |-> <<>>,
             ds |-> <<>>, ds1 |-> <<>>, im |-> <<>>, labs |-> EmptyMap, defs |-> CmdDefs(P, 1, Builtins(P)), args |-> <<>>,
             rt |-> <<>>, rc |-> 0, last |-> "", lastd |-> "", il |-> 0, adl |-> P.ez,
             bufs |-> [i \in 0..9 |-> Nil], cb |-> 0, ins |-> <<>>, lst |-> <<>>, lon |-> TRUE, done |-> FALSE,
             lb |-> 0, nid |-> 2, md |-> 0, cf |-> P.files[1].n, cl |-> 1, row |-> [l |-> 1, pc |-> 0, from |-> 1],
             cs |-> 0, dsz |-> 0, tmin |-> 0, tmax |-> 0, stop |-> FALSE, out |-> <<>>, fl |-> EmptyMap, i2 |-> 1]
  IN  s0

---------------------------------------------------------------------------
Prob(st, ds) == IF Len(ds) = 0 THEN st ELSE [st EXCEPT !.ds = @ \o ds]
Err(st, c) == Prob(st, <<Diag(st, c)>>)
Imm(st, im) == IF Len(im) = 0 THEN st ELSE [st EXCEPT !.im = @ \o im]
Seen(st, x) == Imm(Prob(st, x.ds), x.im)
Emit(st, b) == [st EXCEPT !.em = Append(@, [p |-> st.op, b |-> b]), !.op = @ + Len(b)]

(* The bytes of a value in its place, and the problems with it.            *)
WArg(P, st, kd, v, size, or) ==
  LET R(b, ds) == [b |-> b, ds |-> ds, im |-> <<>>]
  IN  CASE kd = "n8"  -> R(<<U8(v)>>, IF v < 0 - 128 \/ v > 255 THEN <<Diag(st, "SW800")>> ELSE <<>>)
        [] kd = "n16" -> R(<<Byte(v, 0), Byte(v, 1)>>,
                           IF P.ez /\ (v < 0 - 32768 \/ v > 65535) THEN <<Diag(st, "SW801")>> ELSE <<>>)
        [] kd = "n24" -> R(Lo24(v), <<>>)
        [] kd = "rel" ->
             LET m == IF P.ez THEN 16777216 ELSE 65536
                 n == (v % m) - ((st.pc % m) + size)
             IN  IF n < 0 - 128 \/ n > 127 THEN R(<<0>>, <<DiagN(st, "SE120", n)>>) ELSE R(<<U8(n)>>, <<>>)
        [] kd = "d"   -> IF v < 0 - 128 \/ v > 127 THEN R(<<0>>, <<DiagN(st, "SE121", v)>>) ELSE R(<<U8(v)>>, <<>>)
        [] kd = "rst" -> IF v \in {0, 8, 16, 24, 32, 40, 48, 56} THEN R(<<199 + v>>, <<>>)
                         ELSE R(<<>>, <<Diag(st, "SE127")>>)
        [] kd = "bit" -> IF v < 0 \/ v > 7 THEN [R(<<or>>, <<>>) EXCEPT !.im = <<Diag(st, "E")>>]
                         ELSE R(<<8 * v + or>>, <<>>)

Blank(kd) == CASE kd = "n16" -> <<0, 0>> [] kd = "n24" -> <<0, 0, 0>> [] kd = "rst" -> <<199>> [] OTHER -> <<0>>

(* Put the value of e: now if it is known, in the second pass if it is     *)
(* not known yet; nothing is put if it can never be.                       *)
Put(P, st, e, kd, size, or) ==
  LET x == Eval(P, st, e)
  IN  IF x.r = "ok"
      THEN LET w == WArg(P, st, kd, x.v, size, or)
           IN  Imm(Prob(Emit(Seen(st, x), w.b), w.ds), w.im)
      ELSE IF ~IsFatal(x.ds)
      THEN [Emit(Imm(st, x.im), Blank(kd)) EXCEPT
              !.fx = Append(@, [ch |-> Len(st.em) + 1, kd |-> kd, e |-> Expand(P, st, e, 1), pc |-> st.pc, rc |-> st.rc,
                                f |-> st.cf, l |-> st.cl, size |-> size, or |-> or])]
      ELSE Seen(st, x)

---------------------------------------------------------------------------
(* Lists of items: data, echo, error texts.  A list- or string-valued      *)
(* define stands for its items.                                            *)
DataKind(w) == CASE w = 1 -> "n8" [] w = 2 -> "n16" [] w = 3 -> "n24"

\* define (with the sets of arguments it binds) an item stands for, if it is a name
ItemDef(P, st, e) ==
  IF e.k \notin {"sym", "call"} THEN [k |-> "no"]
  ELSE LET a == LookDef(st, Key(P, e.n))
       IN  IF a.k # "def" THEN [k |-> "no"]
           ELSE IF e.k = "sym" /\ Len(a.d.ps) = 0 THEN [k |-> "def", d |-> a.d, ext |-> <<>>, ds |-> <<>>]
           ELSE LET b == Bind(P, st, a.d, IF e.k = "call" THEN e.a ELSE <<>>, 1, EmptyMap, 1)
                IN  [k |-> "def", d |-> a.d, ext |-> <<b.m>>, ds |-> b.ds]
SplitDef(d) == d.b.t = "i" /\ (Len(d.b.i) > 1 \/ d.b.i[1].k = "str")

\* the items a list- or string-valued define or macro stands for
ListOf(P, st, a) ==
  IF a.k # "def" THEN <<>>
  ELSE IF SplitDef(a.d) THEN a.d.b.i
  ELSE IF a.d.b.t = "m"
  THEN LET v == ValPick(P, [st EXCEPT !.args = @ \o a.ext], a.d.b, a.d.b.lo, OK(0), 1)
       IN  IF v.k = "val" /\ Len(v.x.ds) = 0 THEN (IF Len(v.i) > 1 \/ v.i[1].k = "str" THEN v.i ELSE <<>>) ELSE <<>>
  ELSE <<>>

RECURSIVE DataItems(_, _, _, _, _)
DataItems(P, st, w, its, i) ==
  IF i > Len(its) THEN st
  ELSE LET e == its[i]
           nx(s) == DataItems(P, s, w, its, i + 1)
       IN  IF e.k = "str"
           THEN nx([Emit(st, e.b) EXCEPT !.pc = @ + Len(e.b), !.dsz = @ + Len(e.b)])
           ELSE LET x == Eval(P, st, e)
                    a == ItemDef(P, st, e)
                    list == ListOf(P, st, a)
                IN  IF x.r = "er" /\ (list # <<>> \/ IsFatal(x.ds))
                    THEN     IF list # <<>>
                             THEN LET s1 == [DataItems(P, [Prob(st, a.ds) EXCEPT !.args = @ \o a.ext], w, list, 1)
                                               EXCEPT !.args = st.args]
                                  IN  nx(s1)
                             ELSE nx(Seen(st, x))
                    ELSE nx([Put(P, st, e, DataKind(w), 0, 0) EXCEPT !.pc = @ + w, !.dsz = @ + w])

\* what is kept of a list of items some of which have no value yet
RECURSIVE KeptItems(_, _, _, _)
KeptItems(P, st, its, i) ==
  IF i > Len(its) THEN <<>>
  ELSE LET e == its[i]
           a == IF e.k = "str" THEN [k |-> "no"] ELSE ItemDef(P, st, e)
           list == IF e.k = "str" THEN <<>> ELSE ListOf(P, st, a)
       IN  (IF e.k = "str" THEN <<e>>
            ELSE IF list # <<>> THEN KeptItems(P, [st EXCEPT !.args = @ \o a.ext], list, 1)
            ELSE <<Expand(P, st, e, 1)>>) \o KeptItems(P, st, its, i + 1)

\* text of a list of items: [t text, ds problems, bad |-> any problem]
RECURSIVE TextItems(_, _, _, _)
TextItems(P, st, its, i) ==
  IF i > Len(its) THEN [t |-> <<>>, ds |-> <<>>]
  ELSE LET e == its[i]
           rest == TextItems(P, st, its, i + 1)
           cat(t, ds) == [t |-> t \o rest.t, ds |-> ds \o rest.ds]
       IN  IF e.k = "str" THEN cat(e.b, <<>>)
           ELSE LET x == Eval(P, st, e)
                IN  IF x.r = "ok" THEN cat(Dec(x.v), x.ds)
                    ELSE LET a == ItemDef(P, st, e)
                             list == ListOf(P, st, a)
                         IN  IF list # <<>>
                             THEN LET y == TextItems(P, [st EXCEPT !.args = @ \o a.ext], list, 1)
                                  IN  cat(y.t, a.ds \o y.ds)
                             ELSE cat(<<40, 101, 114, 114, 111, 114, 41>>, x.ds)     \* (error)

---------------------------------------------------------------------------
(* Instructions.                                                           *)
SfxCode(adl, s) ==
  LET a == IF adl THEN 1 ELSE 0                \* bit 0: data width long, bit 1: instruction width long
  IN  CASE s = "" -> 0 - 1
        [] s = "S" -> 2 * a       [] s = "L" -> 1 + 2 * a
        [] s = "IS" -> a          [] s = "IL" -> a + 2
        [] s = "SIS" -> 0         [] s = "LIS" -> 1
        [] s = "SIL" -> 2         [] s = "LIL" -> 3

Toks(o) == [i \in 1..Len(o) |-> o[i].t]
TE(t, e) == [t |-> t, e |-> e]
(* What an operand can be read as, best reading first: the register or      *)
(* indirection itself, a parenthesised expression, any expression (in which *)
(* the register's name is but a name).                                      *)
XyName(t) == IF SubSeq(t, 1, 2) = "IX" THEN <<"IX", "IX">> ELSE <<"IY", "IY">>
XySum(t, e) == IF Len(e.t) = 0 THEN [k |-> "sym", n |-> XyName(t)]
               ELSE [e EXCEPT !.h = [k |-> "sym", n |-> XyName(t)]]
Alts(o) ==
  CASE o.t \in {"*", "AF'"} -> <<o>>
    [] o.t = "(*)" -> <<o, TE("*", o.e)>>
    [] o.t \in {"IX", "IY"} -> <<o, TE(o.t \o "@", Num(0)), TE("*", o.e)>>
    [] o.t = "(IX)" -> <<o, TE("IX+", Num(0)), TE("(*)", o.e), TE("*", o.e)>>
    [] o.t = "(IY)" -> <<o, TE("IY+", Num(0)), TE("(*)", o.e), TE("*", o.e)>>
    [] o.t \in {"IX+", "IY+"} -> IF o.e.k # "ch" THEN <<o>> ELSE
           LET e == [k |-> "par", e |-> XySum(o.t, o.e)] IN <<o, TE("(*)", e), TE("*", e)>>
    [] o.t \in {"IX@", "IY@"} -> IF o.e.k # "ch" THEN <<o>> ELSE <<o, TE("*", XySum(o.t, o.e))>>
    [] Chr(o.t, 1) = "(" -> <<o, TE("(*)", o.e), TE("*", o.e)>>
    [] OTHER -> <<o, TE("*", o.e)>>
RECURSIVE Readings(_, _)
\* all readings of a list of operands, best first
Readings(o, i) ==
  IF i > Len(o) THEN <<<<>>>>
  ELSE LET rest == Readings(o, i + 1)
           a == Alts(o[i])
           m == Len(rest)
       IN  [j \in 1..Len(a) * m |-> <<a[1 + (j - 1) \div m]>> \o rest[1 + ((j - 1) % m)]]

EncP(P, m, k) == IF P.ez THEN EncEz80(m, k) ELSE EncZ80(m, k)
Known(P, m) == IF P.ez THEN m \in MnEz80 ELSE m \in MnZ80

HasIns(ins, m) == \E i \in 1..Len(ins) : ins[i].m = m

ElSize(el, long) == IF el[1] = "nn" THEN (IF long THEN 3 ELSE 2) ELSE 1
RECURSIVE SizeOf(_, _, _)
SizeOf(es, long, i) == IF i > Len(es) THEN 0 ELSE ElSize(es[i], long) + SizeOf(es, long, i + 1)

RECURSIVE PutEls(_, _, _, _, _, _, _)
PutEls(P, st, es, i, o, long, size) ==
  IF i > Len(es) THEN st
  ELSE LET el == es[i]
           s1 == CASE el[1] = "b" -> Emit(st, <<el[2]>>)
                   [] el[1] = "nn" -> Put(P, st, o[el[2]].e, IF long THEN "n24" ELSE "n16", size, 0)
                   [] el[1] = "bit" -> Put(P, st, o[el[2]].e, "bit", size, el[3])
                   [] OTHER -> Put(P, st, o[el[2]].e, el[1], size, 0)
       IN  PutEls(P, s1, es, i + 1, o, long, size)

\* one warning for each operand all of which is in parentheses that mean nothing
RECURSIVE ParWarn(_, _, _)
ParWarn(st, o, i) ==
  IF i > Len(o) THEN st
  ELSE LET w == CASE o[i].t = "*" -> o[i].e.k = "par"
                  [] o[i].t = "(*)" -> o[i].e.e.k = "par"
                  [] OTHER -> FALSE
       IN  ParWarn(IF w THEN Imm(st, <<Diag(st, "W")>>) ELSE st, o, i + 1)

ExIns(P, st, s) ==
  LET rs == Readings(s.o, 1)
      RECURSIVE Pick(_)
      Pick(j) ==                        \* the latest declaration that some reading fits
        IF j = 0 THEN [j |-> 0, o |-> <<>>, x |-> None]
        ELSE LET f == {i \in 1..Len(rs) : st.ins[j].m = s.m /\ st.ins[j].k = Toks(rs[i])}
             IN  IF f = {} THEN Pick(j - 1)
                 ELSE [j |-> j, o |-> rs[CHOOSE i \in f : \A k \in f : i <= k], x |-> st.ins[j]]
      RECURSIVE PickEnc(_)
      PickEnc(i) ==
        IF i > Len(rs) THEN [j |-> 0, o |-> <<>>, x |-> None]
        ELSE LET x == EncP(P, s.m, Toks(rs[i]))
             IN  IF x.e # <<>> THEN [j |-> 0, o |-> rs[i], x |-> x] ELSE PickEnc(i + 1)
      own == IF HasIns(st.ins, s.m) THEN Pick(Len(st.ins)) ELSE [j |-> 0, o |-> <<>>, x |-> None]
      use == IF own.j > 0 THEN own ELSE PickEnc(1)
      x == use.x
      sfx == SfxCode(st.adl, s.sfx)
      long == P.ez /\ (IF sfx >= 0 THEN sfx \div 2 = 1 ELSE st.adl)
      size == SizeOf(x.e, long, 1) + (IF sfx >= 0 THEN 1 ELSE 0)
      t == IF ~P.ez THEN x.t
           ELSE LET q == IF use.j > 0 THEN <<0, 0, 0>> ELSE EzExtraTime(s.m, Toks(use.o))
                    n == (IF use.j > 0 THEN 0 ELSE SizeOf(x.e, FALSE, 1)) + (IF sfx >= 0 THEN 1 ELSE 0)
                         + (IF sfx > 0 \/ (sfx < 0 /\ st.adl) THEN q[3] ELSE 0)
                IN  <<n + q[1], n + q[2]>>
      s1 == IF sfx >= 0 THEN Emit(st, <<64 + 9 * sfx>>) ELSE st
      s2 == ParWarn(s1, use.o, 1)
      s3 == PutEls(P, s2, x.e, 1, use.o, long, size)
  IN  IF ~Known(P, s.m) /\ ~HasIns(st.ins, s.m) THEN Err(st, "SE113")
      ELSE IF x.e = <<>> THEN Err(st, "SE110")
      ELSE [s3 EXCEPT !.pc = @ + size, !.cs = @ + size, !.tmin = @ + t[1], !.tmax = @ + t[2]]

---------------------------------------------------------------------------
(* Labels and defines.                                                     *)
At(f, l, c) == [c |-> c, f |-> f, l |-> l, n |-> 0]

AddLabel(P, st, n) ==
  LET k == Key(P, n)
      a == LookDef(st, k)
  IN  IF P.cc THEN [st EXCEPT !.last = ""]
      ELSE IF a.k = "def"
      THEN [Imm(st, <<Diag(st, "E"), At(a.d.f, a.d.l, "E")>>) EXCEPT !.last = ""]
      ELSE IF Has(st.labs, k)
      THEN LET o == st.labs[k] IN
           [IF o.v = st.pc THEN st
            ELSE [Imm(st, <<Diag(st, "W"), At(o.f, o.l, "W")>>) EXCEPT !.labs = [@ EXCEPT ![k].v = st.pc]]
            EXCEPT !.last = k]
      ELSE [st EXCEPT !.labs = (k :> [v |-> st.pc, f |-> st.cf, l |-> st.cl]) @@ @, !.last = k]

\* splice the items or operands named k in b by the contents old (a redefinition that uses its own name)
RECURSIVE Spl(_, _, _, _), SplT(_, _, _, _, _)
ChOf(e) == IF e.k = "ch" THEN e ELSE [k |-> "ch", h |-> e, t |-> <<>>]
Norm(c) == IF Len(c.t) = 0 THEN c.h ELSE c
Spl(P, st, e, kb) ==
  CASE e.k = "sym" -> IF Key(P, e.n) = kb[1] THEN kb[2]
                      ELSE IF Has(st.labs, Key(P, e.n)) THEN Num(st.labs[Key(P, e.n)].v) ELSE e
    [] e.k = "par" -> [e EXCEPT !.e = Spl(P, st, @, kb)]
    [] e.k = "un"  -> LET c == ChOf(Spl(P, st, e.e, kb)) IN Norm([c EXCEPT !.h = [k |-> "un", o |-> e.o, e |-> @]])
    [] e.k = "ch"  -> LET c == ChOf(Spl(P, st, e.h, kb)) IN Norm([c EXCEPT !.t = @ \o SplT(P, st, e.t, kb, 1)])
    [] e.k = "call" -> [e EXCEPT !.a = [i \in 1..Len(e.a) |-> Spl(P, st, e.a[i], kb)]]
    [] OTHER -> e
SplT(P, st, t, kb, i) ==
  IF i > Len(t) THEN <<>>
  ELSE LET c == ChOf(Spl(P, st, t[i].x, kb))
       IN  <<[o |-> t[i].o, x |-> c.h]>> \o c.t \o SplT(P, st, t, kb, i + 1)

RECURSIVE SplItems(_, _, _, _, _, _)
SplItems(P, st, its, k, old, i) ==
  IF i > Len(its) THEN <<>>
  ELSE LET e == its[i]
           one == IF e.k = "str" THEN <<e>>
                  ELSE IF e.k = "sym" /\ Key(P, e.n) = k THEN old
                  ELSE <<Spl(P, st, e, <<k, old[1]>>)>>
       IN  one \o SplItems(P, st, its, k, old, i + 1)

ItemsOf(b) == CASE b.t = "i" -> b.i [] b.t = "e" -> <<b.e>> [] OTHER -> <<>>
BodyOf(its) == IF Len(its) = 1 /\ its[1].k # "str" THEN BE(its[1]) ELSE [t |-> "i", i |-> its]

ReBody(P, st, k, old, b) ==
  IF b.t \in {"e", "i"} /\ old.t \in {"e", "i"}
  THEN LET n == SplItems(P, st, ItemsOf(b), k, ItemsOf(old), 1)
       IN  IF n = ItemsOf(b) THEN b ELSE BodyOf(n)
  ELSE b

(* The contents given by a #define.                                        *)
RECURSIVE ConcatText(_, _, _, _)
ConcatText(P, st, ps, i) ==
  IF i > Len(ps) THEN ""
  ELSE LET p == ps[i]
           t == CASE p.k = "str" -> p.x
                  [] p.k = "sym" -> LET a == LookDef(st, Key(P, p.n)) IN
                       IF a.k = "def" /\ a.d.b.t = "e" /\ a.d.b.e.k = "n" THEN ToString(a.d.b.e.v)
                       ELSE IF a.k = "def" /\ a.d.b.t = "e" /\ a.d.b.e.k = "lit" THEN a.d.b.e.d
                       ELSE IF a.k = "def" /\ a.d.b.t = "e" /\ a.d.b.e.k = "sym" THEN a.d.b.e.n[1]
                       ELSE IF a.k = "def" /\ a.d.b.t = "i" /\ a.d.b.i[1].k = "str" THEN a.d.b.i[1].x
                       ELSE LET v == Eval(P, st, p) IN IF v.r = "ok" THEN ToString(v.v) ELSE ""
                  [] OTHER -> LET v == Eval(P, st, p) IN IF v.r = "ok" THEN ToString(v.v) ELSE ""
       IN  t \o ConcatText(P, st, ps, i + 1)

IsNumText(t) == Len(t) > 0 /\ \A i \in 1..Len(t) : DigitVal(Chr(t, i)) < 10
UpOf == ("a" :> "A") @@ ("b" :> "B") @@ ("c" :> "C") @@ ("d" :> "D") @@ ("e" :> "E") @@ ("f" :> "F") @@ ("g" :> "G") @@
        ("h" :> "H") @@ ("i" :> "I") @@ ("j" :> "J") @@ ("k" :> "K") @@ ("l" :> "L") @@ ("m" :> "M") @@ ("n" :> "N") @@
        ("o" :> "O") @@ ("p" :> "P") @@ ("q" :> "Q") @@ ("r" :> "R") @@ ("s" :> "S") @@ ("t" :> "T") @@ ("u" :> "U") @@
        ("v" :> "V") @@ ("w" :> "W") @@ ("x" :> "X") @@ ("y" :> "Y") @@ ("z" :> "Z")
RECURSIVE Up(_, _)
Up(t, i) == IF i > Len(t) THEN "" ELSE LET c == Chr(t, i) IN (IF Has(UpOf, c) THEN UpOf[c] ELSE c) \o Up(t, i + 1)
TextExpr(t) == IF IsNumText(t) THEN [k |-> "lit", b |-> 10, d |-> t]
               ELSE [k |-> "sym", n |-> <<t, Up(t, 1)>>]

HexDig == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
RECURSIVE HexUp(_)
HexUp(v) == (IF v >= 16 THEN HexUp(v \div 16) ELSE "") \o HexDig[1 + (v % 16)]
HexText(v) == IF v = MinInt THEN "-$80000000" ELSE IF v < 0 THEN "-$" \o HexUp(0 - v) ELSE "$" \o HexUp(v)

\* b as written -> contents, or "no" if there are none to be had
Contents(P, st, b) ==
  CASE b.t = "eval" ->
         LET x == Eval(P, st, b.e)
         IN  IF x.r = "ok" THEN [t |-> "e", e |-> Num(x.v), x |-> HexText(x.v)]
             ELSE IF \E i \in 1..Len(x.ds) : x.ds[i].c = "SE115" THEN [t |-> "no"]
             ELSE BE(Expand(P, st, b.e, 1))
    [] b.t = "none" -> BE(Num(1))              \* a name defined without contents is 1
    [] b.t = "concat" -> BE(TextExpr(ConcatText(P, st, b.i, 1)))
    [] OTHER -> b

SetDef(P, st, k, d) ==
  LET i == ArgIdx(st.args, k, Len(st.args))
  IN  IF i > 0 THEN [st EXCEPT !.args[i] = (k :> d) @@ @] ELSE [st EXCEPT !.defs = (k :> d) @@ @]

ExDefine(P, st, s) ==
  LET k == Key(P, s.n)
      a == LookDef(st, k)
      ps == [i \in 1..Len(s.ps) |-> Key(P, s.ps[i])]
      c == Contents(P, [st EXCEPT !.nid = @ + 1], s.b)
      sp == [i \in 1..Len(s.ps) |-> s.ps[i][1]]
      d == [MkDef(ps, IF a.k = "def" /\ a.d.b.t # "none" /\ s.b.t \notin {"eval", "none"} /\ Len(ps) = 0 THEN ReBody(P, st, k, a.d.b, c) ELSE c,
                 st, st.nid) EXCEPT !.px = sp]
  IN  IF Has(st.labs, k)
      THEN LET o == st.labs[k] IN Imm(st, <<Diag(st, "E"), At(o.f, o.l, "E")>>)
      ELSE IF Len(ps) > 0 /\ s.b.t = "none"
      THEN [SetDef(P, st, k, [MkDef(ps, NoBody, st, st.nid) EXCEPT !.px = sp]) EXCEPT !.nid = @ + 1, !.lastd = k, !.im = Append(@, Diag(st, "E"))]
      ELSE IF c.t = "no" THEN [SetDef(P, Err(st, "SE115"), k, MkDef(<<>>, IF a.k = "def" THEN a.d.b ELSE NoBody, st, st.nid)) EXCEPT !.nid = @ + 1, !.lastd = k]
      ELSE [SetDef(P, st, k, d) EXCEPT !.nid = @ + 1, !.lastd = k]

ExDefcont(P, st, s) ==
  IF st.lastd = "" THEN Err(st, "SE123")
  ELSE LET d == LookDef(st, st.lastd).d
           old == ItemsOf(d.b)
           b == CASE s.j = "," -> [t |-> "i", i |-> old \o s.i]
                  [] s.j = "\\" -> [d.b EXCEPT !.s = @ \o s.s]
                  [] OTHER -> BodyOf(SubSeq(old, 1, Len(old) - 1) \o
                                     <<[ChOf(old[Len(old)]) EXCEPT !.t = Append(@, [o |-> s.j, x |-> s.i[1]])]>>)
       IN  SetDef(P, st, st.lastd, [d EXCEPT !.b = b])

---------------------------------------------------------------------------
(* Skipping.  Statements are scanned one by one; only the word a statement *)
(* begins with counts.                                                     *)
Opens(s) == s.k \in {"if", "ifdef", "ifndef", "ifnone"}
\* <<line, statement>> of the first statement of a kind in want at level 0, from (ln, si) on; <<0, 0>> if there is none
RECURSIVE Find(_, _, _, _, _, _, _)
Find(P, fr, ln, si, want, nest, lv) ==
  IF ln > FLines(P, fr) THEN <<0, 0>>
  ELSE LET ss == FStmts(P, fr, ln)
       IN  IF si > Len(ss) THEN Find(P, fr, ln + 1, 1, want, nest, lv)
           ELSE LET s == ss[si]
                IN  CASE nest /\ Opens(s) -> Find(P, fr, ln, si + 1, want, nest, lv + 1)
                      [] lv > 0 /\ s.k = "endif" -> Find(P, fr, ln, si + 1, want, nest, lv - 1)
                      [] lv = 0 /\ s.k \in want -> <<ln, si>>
                      [] OTHER -> Find(P, fr, ln, si + 1, want, nest, lv)

Goto(st, ln, si) == SetTop(st, [Top(st) EXCEPT !.ln = ln, !.si = si])
LineEnd(P, st, ln) == Goto(st, ln, Len(FStmts(P, Top(st), ln)) + 1)
TextEnd(P, st) == LineEnd(P, st, FLines(P, Top(st)))
Close(st) == IF st.il > 0 THEN [st EXCEPT !.il = @ - 1] ELSE st

RECURSIVE DoIf(_, _, _)
\* st stands after the condition
DoIf(P, st, cond) ==
  LET fr == Top(st)
      e == Find(P, fr, fr.ln, fr.si, {"endif"}, TRUE, 0)
      n == Find(P, fr, fr.ln, fr.si, {"else", "elif", "endif"}, TRUE, 0)
      s1 == IF e = <<0, 0>> THEN Err(st, "SE116") ELSE st
  IN  IF cond THEN s1
      ELSE IF n = <<0, 0>> THEN TextEnd(P, s1)
      ELSE LET s == FStmts(P, fr, n[1])[n[2]]
               s2 == Goto(s1, n[1], n[2] + 1)
           IN  CASE s.k = "else" -> s2
                 [] s.k = "endif" -> Close(s2)
                 [] s.k = "elif" ->
                      LET s3 == IF fr.t = "s" THEN s2 ELSE [s2 EXCEPT !.cl = n[1]]
                          x == Eval(P, s3, s.e)
                      IN  IF s.e.k = "miss" THEN Err(s3, "SE118") ELSE
                          DoIf(P, Seen(s3, x), x.r = "ok" /\ x.v # 0)

ExElse(P, st) ==
  IF st.il = 0 THEN Err(st, "SE117")
  ELSE LET fr == Top(st)
           n == Find(P, fr, fr.ln, fr.si, {"else", "elif", "endif"}, TRUE, 0)
       IN  IF n = <<0, 0>> THEN TextEnd(P, st)
           ELSE IF FStmts(P, fr, n[1])[n[2]].k = "endif" THEN Close(Goto(st, n[1], n[2] + 1))
           ELSE LineEnd(P, st, n[1])

ExElif(P, st) ==
  LET fr == Top(st)
      n == Find(P, fr, fr.ln, fr.si, {"endif"}, TRUE, 0)
      s1 == IF st.il = 0 THEN Err(st, "SE124") ELSE st
  IN  IF n = <<0, 0>> THEN TextEnd(P, s1)
      ELSE IF st.il = 0 THEN LineEnd(P, s1, n[1])
      ELSE Close(Goto(s1, n[1], n[2] + 1))

ExComment(P, st) ==
  LET fr == Top(st)
      n == Find(P, fr, fr.ln, fr.si, {"endcomment"}, FALSE, 0)
  IN  IF n = <<0, 0>> THEN TextEnd(P, st) ELSE LineEnd(P, st, n[1])

ExMacro(P, st, s) ==
  LET fr == Top(st)
      n == Find(P, fr, fr.ln + 1, 1, {"endmacro"}, TRUE, 0)
      k == Key(P, s.n)
      d == [MkDef([i \in 1..Len(s.ps) |-> Key(P, s.ps[i])], [t |-> "m", i |-> fr.i, lo |-> fr.ln + 1, hi |-> n[1] - 1],
                  st, st.nid) EXCEPT !.l = @ + 1, !.px = [i \in 1..Len(s.ps) |-> s.ps[i][1]]]
      s1 == [SetDef(P, st, k, d) EXCEPT !.nid = @ + 1]
  IN  IF Has(st.labs, k)      \* the rest of this file is given up
      THEN LET o == st.labs[k] IN TextEnd(P, Imm(st, <<Diag(st, "E"), At(o.f, o.l, "E")>>))
      ELSE LineEnd(P, s1, n[1])

---------------------------------------------------------------------------
(* The listing: rows of the lines of files (and of generated text), and    *)
(* banners.  A row has the chunks of bytes emitted while its line ran.     *)
Outer(st) == CHOOSE i \in 1..Len(st.fr) : st.fr[i].t \in {"f","b"} /\ \A j \in i + 1 .. Len(st.fr) : st.fr[j].t \notin {"f","b"}
RECURSIVE MoreRows(_, _, _, _)
MoreRows(st, fi, a, b) ==
  IF a > b THEN <<>>
  ELSE <<[k |-> "r", i |-> fi, l |-> a, pc |-> st.pc, from |-> 1, to |-> 0]>> \o MoreRows(st, fi, a + 1, b)
EndRow(st, last) ==
  LET fr == st.fr[Outer(st)]
      fi == IF fr.t = "f" THEN fr.i ELSE 0
      x == IF fr.t = "f" THEN "" ELSE fr.b[st.row.l].x
  IN  [st EXCEPT !.lst = @ \o <<[k |-> "r", i |-> fi, l |-> st.row.l, x |-> x, pc |-> st.row.pc,
                                 from |-> st.row.from, to |-> Len(st.em)]>> \o MoreRows(st, fi, st.row.l + 1, last)]
Banner(st, f) == [st EXCEPT !.lst = Append(@, [k |-> "b", f |-> f])]
CloseEarly(P, st) == IF P.tl /\ st.lon /\ ~st.done THEN [EndRow(st, st.row.l) EXCEPT !.done = TRUE] ELSE st
OpenRow(P, st) == [st EXCEPT !.row = Row(st, Top(st).ln), !.done = FALSE]
Push(st, fr) == [st EXCEPT !.fr = Append(@, [fr EXCEPT !.sv = st.row])]

(* Names of files are looked up in the directory of the main input (the    *)
(* current one if its name is relative), then in those given by -I, in     *)
(* order.  P.dirs has each as it is written before a name (d) and as it    *)
(* stands in the files' paths (at).                                        *)
Join(d, n) == IF d = "" THEN n ELSE d \o "/" \o n
RECURSIVE Search(_, _, _, _)
Search(P, fs, nm, k) ==
  IF k > Len(P.dirs) THEN [i |-> 0, n |-> ""]
  ELSE LET c == {i \in 1..Len(fs) : fs[i].p = Join(P.dirs[k].at, nm)}
       IN  IF c = {} THEN Search(P, fs, nm, k + 1)
           ELSE [i |-> CHOOSE i \in c : TRUE, n |-> Join(P.dirs[k].d, nm)]
Found(P, s) == IF "dirs" \in DOMAIN P THEN Search(P, P.files, s.name, 1)
               ELSE [i |-> s.i, n |-> IF s.i = 0 THEN "" ELSE P.files[s.i].n]
Blob(P, s) == IF "dirs" \in DOMAIN P
              THEN LET x == Search(P, P.bins, s.name, 1) IN [has |-> x.i # 0, b |-> IF x.i = 0 THEN <<>> ELSE P.bins[x.i].b]
              ELSE [has |-> s.i # 0, b |-> s.b]

ExInclude(P, st, s) ==
  LET x == Found(P, s)
  IN  IF x.i = 0 THEN Imm(Err(st, "SE001"), <<Diag(st, "E")>>)
      ELSE LET s1 == CloseEarly(P, st)
               s2 == IF P.tl /\ st.lon THEN Banner(s1, x.n) ELSE s1
           IN  OpenRow(P, [Push(s2, Frame("f", x.n, x.i, 1, Len(P.files[x.i].l), st.nid)) EXCEPT !.nid = @ + 1])

FcFile == "Built-in fcreate"
ExRun(P, st) ==
  IF ~st.bufs[st.cb].has THEN Err(st, "SE301")
  ELSE LET s1 == CloseEarly(P, st)
           s2 == IF P.tl /\ st.lon /\ st.lb # 0 - 1 THEN [Banner(s1, FcFile) EXCEPT !.lb = 0 - 1] ELSE s1
       IN  OpenRow(P, Push(s2, [Frame("b", FcFile, 0, 1, 0, 0 - 1) EXCEPT !.b = st.bufs[st.cb].ls]))

SubH(e, hv) == IF e.k = "hole" THEN Num(hv[e.i])
               ELSE IF e.k = "par" /\ e.e.k = "hole" THEN [e EXCEPT !.e = Num(hv[e.e.i])] ELSE e
SubS(s, hv) ==
  CASE s.k = "ins" -> [s EXCEPT !.o = [i \in 1..Len(s.o) |-> [s.o[i] EXCEPT !.e = SubH(@, hv)]]]
    [] s.k = "data" -> [s EXCEPT !.i = [j \in 1..Len(s.i) |-> SubH(s.i[j], hv)]]
    [] s.k \in {"equ", "org", "if"} -> [s EXCEPT !.e = SubH(@, hv)]
    [] OTHER -> s
RECURSIVE EvAll(_, _, _, _)
EvAll(P, st, es, i) == IF i > Len(es) THEN [vs |-> <<>>, ds |-> <<>>]
                       ELSE LET x == Eval(P, st, es[i]) y == EvAll(P, st, es, i + 1)
                            IN  [vs |-> <<x.v>> \o y.vs, ds |-> x.ds \o y.ds]
RECURSIVE WrText(_, _, _)
WrText(tx, vs, i) == IF i > Len(tx) THEN ""
                     ELSE (IF tx[i].h = 0 THEN tx[i].t ELSE ToString(vs[tx[i].h])) \o WrText(tx, vs, i + 1)
ExWr(P, st, s) ==
  LET h == EvAll(P, st, s.e, 1)
  IN  [Prob(st, h.ds) EXCEPT !.bufs[st.cb].has = TRUE,
                             !.bufs[st.cb].ls = Append(@, [s |-> [i \in 1..Len(s.s) |-> SubS(s.s[i], h.vs)],
                                                           x |-> WrText(s.tx, h.vs, 1)])]

---------------------------------------------------------------------------
ExCall(P, st, s) ==
  LET a == LookDef(st, Key(P, s.n))
      d == a.d
      b == Bind(P, st, d, s.a, 1, EmptyMap, 1)
      s1 == [Prob(st, b.ds) EXCEPT !.args = Append(@, b.m), !.md = @ + 1]
  IN  IF a.k # "def" THEN Err(st, "SE113")
      ELSE IF b.r = "er" THEN TextEnd(P, Err(st, "SE115"))
      ELSE IF st.md >= MaxMacroDepth THEN [Err(st, "SE115") EXCEPT !.stop = TRUE]
      ELSE IF Len(b.ds) > 0 THEN Prob(st, b.ds)
      ELSE CASE d.b.t = "none" -> Err(st, "SE102")
             [] d.b.t = "s" -> Push(s1, [Frame("s", d.f, 0, 1, 1, d.id) EXCEPT !.s = d.b.s, !.l = d.l, !.pop = TRUE])
             [] d.b.t = "m" -> Push(s1, [Frame("m", d.f, d.b.i, d.b.lo, d.b.hi, d.id) EXCEPT !.pop = TRUE])
             [] OTHER -> Prob(st, <<At(d.f, d.l, "SE119")>>)

ExEqu(P, st, s) ==
  LET x == Eval(P, st, s.e)
      fwd == x.r = "er" /\ \E i \in 1..Len(x.ds) : x.ds[i].c = "SE106"
      s1 == Seen(st, x)
  IN  IF fwd \/ (s.j = "=" /\ x.r = "er") THEN s1
      ELSE IF st.last = "" THEN (IF P.cc THEN s1 ELSE Err(s1, "SE114"))
      ELSE [s1 EXCEPT !.labs[st.last].v = x.v]

ExFill(P, st, s) ==
  LET n == Eval(P, st, s.n)
      v == IF Len(s.v) = 0 THEN OK(0) ELSE Eval(P, st, s.v[1])
      s1 == Seen(Seen(st, n), v)
      s2 == IF v.v < 0 - 128 \/ v.v > 255 THEN Err(s1, "SW800") ELSE s1
  IN  IF n.v < 0 THEN Err(s1, "SE108")
      ELSE [Emit(s2, [i \in 1..n.v |-> U8(v.v)]) EXCEPT !.pc = @ + n.v, !.dsz = @ + n.v]

ExEcho(P, st, s) ==
  LET x == TextItems(P, st, s.i, 1)
      add(t) == [st EXCEPT !.q = Append(@, t)]
  IN  IF s.tg # ""
      THEN [Prob(st, x.ds) EXCEPT
              !.fl = (s.tg :> (IF s.ap /\ Has(@, s.tg) THEN @[s.tg] \o x.t ELSE x.t)) @@ @]
      ELSE IF Len(x.ds) = 0 THEN add([k |-> "t", t |-> x.t])
      ELSE add([k |-> "e", i |-> KeptItems(P, st, s.i, 1), pc |-> st.pc, rc |-> st.rc, f |-> st.cf, l |-> st.cl])

ExShow(P, st, s) ==
  LET a == LookDef(st, Key(P, s.n))
  IN  IF a.k = "def" THEN [st EXCEPT !.out = Append(@, [k |-> "show", n |-> Key(P, s.n), ps |-> a.d.px, b |-> a.d.b])]
      ELSE [st EXCEPT !.q = Append(@, [k |-> "s", n |-> s.n, pc |-> st.pc, rc |-> st.rc, f |-> st.cf, l |-> st.cl])]

OutSize == 8000000
ExSeek(P, st, s) ==
  LET x == Eval(P, st, s.e)
      s1 == Seen(st, x)
      mv == x.v - st.pc
  IN  IF x.v < 0 \/ st.op + mv < 0 \/ st.op + mv > OutSize THEN [Imm(s1, <<Diag(st, "F")>>) EXCEPT !.stop = TRUE]
      ELSE [s1 EXCEPT !.op = @ + mv, !.pc = x.v]

Exec(P, st, s) ==
  CASE s.k = "ins"  -> ExIns(P, st, s)
    [] s.k = "data" -> DataItems(P, st, s.w, s.i, 1)
    [] s.k = "lab"  -> AddLabel(P, st, s.n)
    [] s.k = "reus" -> [st EXCEPT !.rt = Append(@, st.pc), !.rc = @ + 1]
    [] s.k = "equ"  -> ExEqu(P, st, s)
    [] s.k = "call" -> ExCall(P, st, s)
    [] s.k = "fill" -> ExFill(P, st, s)
    [] s.k = "org"  -> LET x == Eval(P, st, s.e) s1 == Seen(st, x)
                       IN  IF x.r = "er" THEN s1 ELSE IF x.v < 0 THEN Err(s1, "SE107") ELSE [s1 EXCEPT !.pc = x.v]
    [] s.k = "seek" -> ExSeek(P, st, s)
    [] s.k = "assume" -> IF ~P.ez THEN Err(st, "SE125")
                         ELSE LET x == Eval(P, st, s.e) IN IF x.r = "er" THEN Err(Seen(st, x), "SE125") ELSE [st EXCEPT !.adl = x.v # 0]
    [] s.k = "define" -> ExDefine(P, st, s)
    [] s.k = "defcont" -> ExDefcont(P, st, s)
    [] s.k = "undef" -> [st EXCEPT !.defs = [x \in DOMAIN @ \ {Key(P, s.n)} |-> @[x]]]
    [] s.k = "macro" -> ExMacro(P, st, s)
    [] s.k = "endmacro" -> st
    [] s.k = "ifnone" -> Err(st, "SE118")                    \* a name is missing
    [] s.k = "if" /\ s.e.k = "miss" -> [Err(st, "SE118") EXCEPT !.il = @ + 1]
    [] s.k = "if" -> LET x == Eval(P, st, s.e)
                     IN  DoIf(P, [Seen(st, x) EXCEPT !.il = @ + 1], x.r = "ok" /\ x.v # 0)
    [] s.k \in {"ifdef", "ifndef"} ->
         LET a == LookDef(st, Key(P, s.n)) d == a.k = "def" /\ a.d.b.t # "none"
         IN  DoIf(P, [st EXCEPT !.il = @ + 1], IF s.k = "ifdef" THEN d ELSE ~d)
    [] s.k = "else" -> ExElse(P, st)
    [] s.k = "elif" -> ExElif(P, st)
    [] s.k = "endif" -> IF st.il > 0 THEN Close(st) ELSE Err(st, "SE117")
    [] s.k = "comment" -> ExComment(P, st)
    [] s.k = "endcomment" -> st
    [] s.k = "include" -> ExInclude(P, st, s)
    [] s.k = "import" -> LET x == Blob(P, s)
                         IN  IF ~x.has THEN Err(st, "SE001") ELSE [Emit(st, x.b) EXCEPT !.pc = @ + Len(x.b)]
    [] s.k = "echo" -> ExEcho(P, st, s)
    [] s.k = "show" -> ExShow(P, st, s)
    [] s.k = "error" -> LET x == TextItems(P, st, s.i, 1) IN Err(Prob(st, x.ds), "SE600")
    [] s.k = "list" -> [st EXCEPT !.done = @ \/ ~st.lon, !.lon = TRUE]
    [] s.k = "nolist" -> [st EXCEPT !.lon = FALSE]
    [] s.k = "buf" -> LET x == Eval(P, st, s.e) IN [Seen(st, x) EXCEPT !.cb = x.v]
    [] s.k = "clr" -> [st EXCEPT !.bufs[st.cb] = [has |-> TRUE, ls |-> <<>>]]
    [] s.k = "wr" -> ExWr(P, st, s)
    [] s.k = "run" -> ExRun(P, st)
    [] s.k = "addi" -> [st EXCEPT !.ins = Append(@, [m |-> s.m, k |-> s.p, e |-> s.e, t |-> <<0, 0>>])]
    [] s.k = "bad" -> CASE s.c = "E" -> Imm(st, <<Diag(st, "E")>>)
                        [] s.c = "F" -> [Imm(st, <<Diag(st, "F")>>) EXCEPT !.stop = TRUE]
                        [] OTHER -> Err(st, s.c)
    [] OTHER -> st

---------------------------------------------------------------------------
(* One transition of the first pass.                                       *)
Pop(P, st) ==
  LET fr == Top(st)
      s0 == [st EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1)]
      s1 == IF fr.pop THEN [s0 EXCEPT !.args = SubSeq(@, 1, Len(@) - 1), !.md = @ - 1] ELSE s0
      up == IF Len(s1.fr) = 0 THEN fr ELSE Top(s1)
  IN  CASE Len(st.fr) = 1 -> [st EXCEPT !.ph = "m"]
        [] fr.t \in {"m", "s"} ->
             IF P.tl /\ st.lon /\ st.done /\ st.lb # up.id THEN [Banner(s1, up.f) EXCEPT !.lb = up.id] ELSE s1
        [] fr.t = "f" ->
             LET s2 == [s1 EXCEPT !.row = fr.sv]
             IN  IF P.tl /\ st.lon THEN [Banner(s2, up.f) EXCEPT !.done = TRUE] ELSE s2
        [] fr.t = "b" ->
             LET s2 == [s1 EXCEPT !.row = fr.sv, !.bufs[st.cb] = Nil]
                 s3 == IF P.tl /\ st.lon THEN [s2 EXCEPT !.done = TRUE] ELSE s2
             IN  IF P.tl /\ st.lon /\ st.lb # up.id THEN [Banner(s3, up.f) EXCEPT !.lb = up.id] ELSE s3

EndLine(P, st) ==
  LET fr == Top(st)
      s1 == IF fr.t \in {"f","b"} /\ P.tl /\ st.lon /\ ~st.done THEN EndRow(st, fr.ln) ELSE st
      s2 == SetTop(s1, [fr EXCEPT !.ln = @ + 1, !.si = 1])
  IN  IF fr.t \in {"f","b"} THEN OpenRow(P, s2) ELSE s2

Step1(P, st) ==
  LET fr == Top(st)
  IN  IF st.stop THEN [st EXCEPT !.ph = "m"]
      ELSE IF fr.ln > FLines(P, fr) THEN Pop(P, st)
      ELSE LET ss == FStmts(P, fr, fr.ln)
           IN  IF fr.si > Len(ss) THEN EndLine(P, st)
               ELSE Exec(P, [SetTop(st, [fr EXCEPT !.si = @ + 1]) EXCEPT !.cf = FileOf(fr), !.cl = LineOf(fr)], ss[fr.si])

(* Between the passes: what can never be put right ends the run.           *)
Hard(ds) == SelectSeq(ds, LAMBDA d : d.c \notin Soft)
StepM(P, st) ==
  IF st.stop \/ Aborts(st.ds) THEN [st EXCEPT !.ph = "end", !.ds1 = Hard(st.ds), !.ds = <<>>, !.stop = TRUE]
  ELSE IF "no2" \in DOMAIN P /\ P.no2 THEN [st EXCEPT !.ph = "end", !.ds = Hard(@), !.args = <<>>]     \* nothing to write
  ELSE [st EXCEPT !.ph = "2", !.ds = Hard(st.ds), !.args = <<>>]

(* One put-off expression.                                                 *)
Step2(P, st) ==
  IF st.i2 > Len(st.fx) THEN [st EXCEPT !.ph = "3", !.i2 = 1]
  ELSE LET x == st.fx[st.i2]
           s1 == [st EXCEPT !.cf = x.f, !.cl = x.l, !.pc = x.pc, !.rc = x.rc, !.i2 = @ + 1]
           v == Eval(P, s1, x.e)
           s2 == Seen(s1, v)
           w == WArg(P, s1, x.kd, v.v, x.size, x.or)
       IN  IF v.r = "er" THEN s2
           ELSE LET s3 == Imm(Prob(s2, w.ds), w.im)
                IN  IF Len(w.b) = 0 THEN s3 ELSE [s3 EXCEPT !.em[x.ch].b = w.b]

(* One queued message.                                                     *)
Step3(P, st) ==
  IF st.i2 > Len(st.q) THEN [st EXCEPT !.ph = "end"]
  ELSE LET m == st.q[st.i2]
           s1 == [st EXCEPT !.i2 = @ + 1]
           s2 == IF m.k = "t" THEN s1 ELSE [s1 EXCEPT !.cf = m.f, !.cl = m.l, !.pc = m.pc, !.rc = m.rc]
       IN  CASE m.k = "t" -> [s1 EXCEPT !.out = Append(@, [k |-> "text", t |-> m.t])]
             [] m.k = "e" -> LET x == TextItems(P, s2, m.i, 1)
                             IN  [Prob(s2, x.ds) EXCEPT !.out = Append(@, [k |-> "text", t |-> x.t])]
             [] m.k = "s" -> LET a == LookDef(s2, Key(P, m.n))
                             IN  IF a.k # "def" THEN Err(s2, "SE106")
                                 ELSE [s2 EXCEPT !.out = Append(@, [k |-> "show", n |-> Key(P, m.n), ps |-> a.d.px, b |-> a.d.b])]

Step(P, st) == CASE st.ph = "1" -> Step1(P, st)
                 [] st.ph = "m" -> StepM(P, st)
                 [] st.ph = "2" -> Step2(P, st)
                 [] st.ph = "3" -> Step3(P, st)

---------------------------------------------------------------------------
(* What can be observed.                                                   *)
Zeros(n) == [i \in 1..n |-> 0]
Over(mem, p, b) ==                               \* b written at position p (0-based)
  IF p = Len(mem) THEN mem \o b
  ELSE IF p > Len(mem) THEN mem \o Zeros(p - Len(mem)) \o b
  ELSE SubSeq(mem, 1, p) \o b \o SubSeq(mem, p + Len(b) + 1, Len(mem))
RECURSIVE Image(_, _, _)
Image(em, i, mem) == IF i > Len(em) THEN mem ELSE Image(em, i + 1, Over(mem, em[i].p, em[i].b))
Bytes(st) == LET m == Image(st.em, 1, <<>>)
             IN  IF Len(m) >= st.op THEN SubSeq(m, 1, st.op) ELSE m \o Zeros(st.op - Len(m))

Sev(d) == CASE d.c = "W" -> 1 [] d.c = "E" -> 2 [] d.c = "F" -> 3 [] OTHER -> IF Chr(d.c, 2) = "W" THEN 1 ELSE 2
RECURSIVE MaxSev(_, _)
MaxSev(ds, i) == IF i > Len(ds) THEN 0 ELSE Max2(Sev(ds[i]), MaxSev(ds, i + 1))
Exit(P, st) ==
  IF st.stop \/ Aborts(st.ds) THEN 3
  ELSE Max2(MaxSev(st.im, 1), IF P.cc THEN 0 ELSE MaxSev(st.ds, 1))

RECURSIVE CatChunks(_, _, _)
CatChunks(em, a, b) == IF a > b THEN <<>> ELSE em[a].b \o CatChunks(em, a + 1, b)
ListItem(P, st, r) ==
  IF r.k = "b" THEN [k |-> "b", f |-> r.f]
  ELSE [k |-> "r", l |-> r.l, pc |-> r.pc, b |-> CatChunks(st.em, r.from, r.to),
        x |-> IF r.i = 0 THEN r.x ELSE P.files[r.i].l[r.l].x]
Listing(P, st) == [i \in 1..Len(st.lst) |-> ListItem(P, st, st.lst[i])]

(* Does the value of an expression depend on where it is used ($ or an     *)
(* anonymous label)?  A define that does has no one value to be listed.    *)
RECURSIVE Placed(_, _, _, _)
Placed(P, st, e, d) ==
  d < MaxDepth /\
  CASE e.k \in {"pc", "re"} -> TRUE
    [] e.k \in {"par", "un"} -> Placed(P, st, e.e, d + 1)
    [] e.k = "ch" -> Placed(P, st, e.h, d + 1) \/ \E i \in 1..Len(e.t) : Placed(P, st, e.t[i].x, d + 1)
    [] e.k \in {"sym", "call"} ->
         \/ e.k = "call" /\ \E i \in 1..Len(e.a) : Placed(P, st, e.a[i], d + 1)
         \/ Key(P, e.n) = "__LINE"
         \/ LET k == Key(P, e.n) IN
            /\ ~Has(st.labs, k) /\ Has(st.defs, k)
            /\ CASE st.defs[k].b.t = "e" -> Placed(P, st, st.defs[k].b.e, d + 1)
                 [] st.defs[k].b.t = "i" -> Placed(P, st, st.defs[k].b.i[1], d + 1)
                 [] OTHER -> FALSE
    [] OTHER -> FALSE
PlacedDefs(P, st) == {k \in DOMAIN st.defs : Placed(P, st, [k |-> "sym", n |-> <<k, k>>], 1)}

\* names and values of the symbol table, as a function
SymTab(P, st) ==
  LET s1 == [st EXCEPT !.args = <<>>]
      val == [k \in {k \in DOMAIN st.defs : k # "__LINE" /\ Len(st.defs[k].ps) = 0 /\ st.defs[k].b.t \in {"e", "i"}} |->
                EvDef(P, s1, st.defs[k], <<>>, 0)]
  IN  [k \in DOMAIN st.labs |-> st.labs[k].v] @@
      [k \in {k \in DOMAIN val : val[k].r = "ok"} |-> val[k].v]
============================================================================
