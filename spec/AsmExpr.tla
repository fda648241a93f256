------------------------------ MODULE AsmExpr ------------------------------
(***************************************************************************)
(* Expressions: names, literals, 32-bit left-to-right evaluation, defines  *)
(* as values, binding of arguments, anonymous labels, and what is kept of  *)
(* an expression whose value is not known yet.                             *)
(*                                                                         *)
(* Every operator takes the program P and the assembler state st (see      *)
(* Asm.tla).  An evaluation is a record                                    *)
(*    [r |-> "ok" | "er", v |-> value, ds |-> problems, im |-> problems    *)
(*     shown at once]                                                      *)
(* A problem is [c |-> code, f |-> file, l |-> line, n |-> number].        *)
(* An "er" evaluation all of whose problems are SE100/SE106 is a forward   *)
(* reference: it is put off to the second pass.                            *)
(***************************************************************************)
EXTENDS Word32, TLC

Key(P, n) == IF P.cs THEN n[1] ELSE n[2]       \* n = <<as written, upper case>>

Diag(st, c) == [c |-> c, f |-> st.cf, l |-> st.cl, n |-> 0]
DiagN(st, c, n) == [c |-> c, f |-> st.cf, l |-> st.cl, n |-> n]
Soft == {"SE100", "SE106", "SE129"}
IsFatal(ds) == \E i \in 1..Len(ds) : ds[i].c \notin Soft
\* warnings don't end the assembly
Aborts(ds) == \E i \in 1..Len(ds) : ds[i].c \notin Soft /\ SubSeq(ds[i].c, 2, 2) # "W"

OK(v) == [r |-> "ok", v |-> v, ds |-> <<>>, im |-> <<>>]
ER(st, c) == [r |-> "er", v |-> 0, ds |-> <<Diag(st, c)>>, im |-> <<>>]
IsFwd(x) == x.r = "er" /\ ~IsFatal(x.ds)

MaxDepth == 20
Has(f, k) == k \in DOMAIN f
EmptyMap == [x \in {} |-> 0]

---------------------------------------------------------------------------
(* Literals: a digit string in a base.  Exact value if it fits 32 bits     *)
(* (as signed or unsigned), SE204 otherwise; a bad digit is SE200-SE202.   *)
DigitOf ==
  ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4) @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@
  ("8" :> 8) @@ ("9" :> 9) @@ ("a" :> 10) @@ ("b" :> 11) @@ ("c" :> 12) @@ ("d" :> 13) @@ ("e" :> 14) @@ ("f" :> 15) @@
  ("A" :> 10) @@ ("B" :> 11) @@ ("C" :> 12) @@ ("D" :> 13) @@ ("E" :> 14) @@ ("F" :> 15)
Chr(s, i) == SubSeq(s, i, i)
DigitVal(c) == IF Has(DigitOf, c) THEN DigitOf[c] ELSE 99

\* magnitude so far as <<high 16 bits, low 16 bits>>; overflow leaves hi > 65535
RECURSIVE LitFold(_, _, _, _, _)
LitFold(s, b, i, hi, lo) ==
  IF i > Len(s) THEN <<"ok", hi, lo>>
  ELSE IF DigitVal(Chr(s, i)) >= b THEN <<"dig", 0, 0>>
  ELSE LET l == lo * b + DigitVal(Chr(s, i))
           h == hi * b + l \div 65536
       IN  LitFold(s, b, i + 1, IF h > 65535 THEN 65536 ELSE h, l % 65536)

EvLit(st, e) ==
  LET x == LitFold(e.d, e.b, 1, 0, 0)
  IN  CASE x[1] = "dig" -> ER(st, CASE e.b = 16 -> "SE201" [] e.b = 2 -> "SE202" [] OTHER -> "SE200")
        [] x[2] > 65535 -> ER(st, "SE204")
        [] OTHER -> OK(Mk(x[2], x[3]))

---------------------------------------------------------------------------
(* Names.  Bindings of arguments (innermost first), then labels, then      *)
(* defines.                                                                *)
RECURSIVE ArgIdx(_, _, _)
ArgIdx(args, k, i) ==
  IF i = 0 THEN 0 ELSE IF Has(args[i], k) THEN i ELSE ArgIdx(args, k, i - 1)

Look(st, k) ==
  LET i == ArgIdx(st.args, k, Len(st.args))
  IN  IF i > 0 THEN [k |-> "def", d |-> st.args[i][k]]
      ELSE IF Has(st.labs, k) THEN [k |-> "lab", v |-> st.labs[k].v]
      ELSE IF Has(st.defs, k) THEN [k |-> "def", d |-> st.defs[k]]
      ELSE [k |-> "no"]

\* as Look, but only names that stand for contents
LookDef(st, k) ==
  LET i == ArgIdx(st.args, k, Len(st.args))
  IN  IF i > 0 THEN [k |-> "def", d |-> st.args[i][k]]
      ELSE IF Has(st.defs, k) THEN [k |-> "def", d |-> st.defs[k]]
      ELSE [k |-> "no"]

Num(v) == [k |-> "n", v |-> v]
BE(e) == [t |-> "e", e |-> e]                   \* define body that is an expression
NoBody == [t |-> "none"]
\* a define: parameters (keys), contents, where it was made, and which one it is
MkDef(ps, b, st, id) == [ps |-> ps, px |-> ps, b |-> b, f |-> st.cf, l |-> st.cl, id |-> id]

---------------------------------------------------------------------------
BinOp(st, op, a, b) ==
  CASE op = "+" -> OK(Add(a, b))
    [] op = "-" -> OK(Sub(a, b))
    [] op = "*" -> OK(Mul(a, b))
    [] op \in {"/", "%"} ->
         IF b = 0 THEN ER(st, "SE203")
         ELSE IF a = MinInt /\ b = 0 - 1 THEN ER(st, "SE205")
         ELSE OK(IF op = "/" THEN DivT(a, b) ELSE ModT(a, b))
    [] op = "^" -> OK(a ^^ b)
    [] op = "&" -> OK(a & b)
    [] op = "|" -> OK(a | b)
    [] op = "<<" -> OK(IF b \in 0..31 THEN Shl(a, b) ELSE 0)
    [] op = ">>" -> OK(IF b \in 0..31 THEN Shr(a, b) ELSE 0)
    [] op = "&&" -> OK(Bool(a # 0 /\ b # 0))
    [] op = "||" -> OK(Bool(a # 0 \/ b # 0))
    [] op = "<"  -> OK(Bool(a < b))
    [] op = ">"  -> OK(Bool(a > b))
    [] op = "<=" -> OK(Bool(a <= b))
    [] op = ">=" -> OK(Bool(a >= b))
    [] op \in {"=", "=="} -> OK(Bool(a = b))
    [] op = "!=" -> OK(Bool(a # b))

UnOp(op, a) == CASE op = "-" -> Neg(a) [] op = "~" -> BNot(a) [] OTHER -> a

\* y evaluated after x: problems accumulate
Then(x, y) == [y EXCEPT !.ds = x.ds \o @, !.im = x.im \o @]

RECURSIVE Ev(_, _, _, _), EvChain(_, _, _, _, _, _), EvDef(_, _, _, _, _), EvItems(_, _, _, _),
          ValPick(_, _, _, _, _, _), ValIf(_, _, _, _, _, _), Branch(_, _, _, _, _, _, _), Bind(_, _, _, _, _, _, _), Expand(_, _, _, _), ExpandSeq(_, _, _, _), ArgBody(_, _, _, _)

(* Anonymous labels: st.rc is the number defined before the reference,     *)
(* st.rt the table of all of them.                                         *)
EvRe(st, n) ==
  IF n > 0
  THEN IF st.rc + n > Len(st.rt) THEN ER(st, "SE100") ELSE OK(st.rt[st.rc + n])
  ELSE LET m == 0 - n                           \* how many back, 1 = most recent
       IN  IF st.rc >= m THEN OK(st.rt[st.rc - m + 1])
           ELSE ER(st, "SE101")

Ev(P, st, e, d) ==
  IF d > MaxDepth THEN ER(st, "SE115") ELSE
  CASE e.k \in {"n", "chr"} -> OK(e.v)
    [] e.k = "lit" -> EvLit(st, e)
    [] e.k = "pc"  -> OK(st.pc)
    [] e.k = "miss" -> ER(st, "SE104")
    [] e.k = "re"  -> EvRe(st, e.d)
    \* getc(file, n): a byte of a file, -1 behind its end
    [] e.k = "getc" -> IF ~e.ok THEN ER(st, "SE001")
                       ELSE LET x == Ev(P, st, e.i, d + 1)
                            IN  IF x.r = "er" THEN x ELSE [x EXCEPT !.v = IF @ < Len(e.b) THEN e.b[@ + 1] ELSE 0 - 1]
    [] e.k = "bad" -> ER(st, e.c)
    [] e.k = "par" -> Ev(P, st, e.e, d + 1)
    [] e.k = "un"  -> LET x == Ev(P, st, e.e, d)
                      IN  IF x.r = "er" THEN x ELSE [x EXCEPT !.v = UnOp(e.o, @)]
    [] e.k = "ch"  -> LET x == Ev(P, st, e.h, d)
                      IN  IF x.r = "er" THEN x ELSE EvChain(P, st, e.t, 1, x, d)
    [] e.k = "sym" ->
         LET k == Key(P, e.n)
             a == Look(st, k)
         IN  CASE a.k = "lab" -> OK(a.v)
               [] a.k = "def" -> IF k = "__LINE" THEN OK(st.cl) ELSE EvDef(P, st, a.d, <<>>, d)
               [] OTHER -> ER(st, "SE106")
    [] e.k = "call" ->
         LET a == Look(st, Key(P, e.n))
         IN  CASE a.k = "def" ->
                    LET b == Bind(P, st, a.d, e.a, 1, EmptyMap, d)
                    IN  IF b.r = "er" THEN ER(st, "SE115")
                        ELSE LET x == EvDef(P, st, a.d, <<b.m>>, d)
                             IN  IF Len(b.ds) = 0 THEN x ELSE [x EXCEPT !.ds = b.ds \o @]
               [] OTHER -> ER(st, "SE106")

EvChain(P, st, t, i, acc, d) ==
  IF i > Len(t) THEN acc
  ELSE IF t[i].o = "" THEN Then(acc, ER(st, "SE103"))     \* operator missing
  ELSE IF t[i].x.k = "miss" THEN Then(acc, ER(st, "SE104"))
  ELSE LET x == Ev(P, st, t[i].x, d)
       IN  IF x.r = "er" THEN Then(acc, x)
           ELSE LET y == BinOp(st, t[i].o, acc.v, x.v)
                    z == Then(acc, Then(x, y))
                IN  IF y.r = "er" THEN z ELSE EvChain(P, st, t, i + 1, z, d)

(* The value of a define: its contents evaluated where it was defined (for *)
(* the problems), with ext = the sets of arguments bound by this use.      *)
EvDef(P, st, def, ext, d) ==
  LET st2 == [st EXCEPT !.args = @ \o ext, !.cf = def.f, !.cl = def.l]
      b == def.b
      x == CASE b.t = "none" -> ER(st2, "SE102")
             [] b.t = "e" -> Ev(P, st2, b.e, d + 1)
             [] b.t = "i" -> EvItems(P, st2, b.i, d)
             [] b.t = "m" ->
                  LET v == ValPick(P, st2, b, b.lo, OK(0), d)
                      w == IF v.k = "no" THEN ER([st2 EXCEPT !.cl = v.ln], "SE102")
                           ELSE EvItems(P, [st2 EXCEPT !.cl = v.ln], v.i, d)
                  IN  Then(v.x, w)
             [] OTHER -> ER(st2, "SE106")
  IN  IF Len(x.ds) > 0 THEN [x EXCEPT !.r = "er"] ELSE x

\* a list is not a number
EvItems(P, st, i, d) ==
  IF i[1].k = "str" THEN ER(st, "SE105") ELSE
  LET y == Ev(P, st, i[1], d + 1)
  IN  IF y.r = "er" \/ Len(i) = 1 THEN y ELSE Then(y, ER(st, "SE103"))

(* The value of a macro is that of the first line that is one, conditionals *)
(* (of one statement a line) being followed; x holds their problems.        *)
ValLine(P, b, ln) == LET ss == P.files[b.i].l[ln].s IN IF Len(ss) = 0 THEN [k |-> "blank"] ELSE ss[1]
RECURSIVE ValNext(_, _, _, _, _)
ValNext(P, b, ln, want, lv) ==
  IF ln > b.hi THEN ln
  ELSE LET s == ValLine(P, b, ln)
       IN  CASE s.k \in {"if", "ifdef", "ifndef"} -> ValNext(P, b, ln + 1, want, lv + 1)
             [] lv > 0 /\ s.k = "endif" -> ValNext(P, b, ln + 1, want, lv - 1)
             [] lv = 0 /\ s.k \in want -> ln
             [] OTHER -> ValNext(P, b, ln + 1, want, lv)
ValPick(P, st, b, ln, x, d) ==
  IF ln > b.hi THEN [k |-> "no", ln |-> ln, x |-> x]
  ELSE LET s == ValLine(P, b, ln)
           set == LET a == LookDef(st, Key(P, s.n)) IN a.k = "def" /\ a.d.b.t # "none"
       IN  CASE s.k = "val" -> [k |-> "val", i |-> s.i, ln |-> ln, x |-> x]
             [] s.k = "if" -> ValIf(P, st, b, ln, x, d)
             [] s.k = "ifdef" -> Branch(P, st, b, ln, set, x, d)
             [] s.k = "ifndef" -> Branch(P, st, b, ln, ~set, x, d)
             \* the end of a branch that had no value
             [] s.k \in {"else", "elif"} -> ValPick(P, st, b, ValNext(P, b, ln + 1, {"endif"}, 0) + 1, x, d)
             [] OTHER -> ValPick(P, st, b, ln + 1, x, d)
ValIf(P, st, b, ln, x, d) ==
  LET c == Ev(P, [st EXCEPT !.cl = ln], ValLine(P, b, ln).e, d + 1)
  IN  Branch(P, st, b, ln, c.r = "ok" /\ c.v # 0, Then(x, c), d)
Branch(P, st, b, ln, taken, x, d) ==
  LET els == ValNext(P, b, ln + 1, {"else", "elif", "endif"}, 0)
  IN  IF taken THEN ValPick(P, st, b, ln + 1, x, d)
      ELSE IF els > b.hi THEN ValPick(P, st, b, els, x, d)
      ELSE IF ValLine(P, b, els).k = "elif" THEN ValIf(P, st, b, els, x, d)
      ELSE ValPick(P, st, b, els + 1, x, d)

(* Bind the arguments as of a use in state st: each is evaluated in the    *)
(* scope of the caller; what has no value yet is bound expanded.           *)
Bind(P, st, def, as, i, m, d) ==
  IF i > Len(as)
  THEN [r |-> "ok", ds |-> <<>>,
        m |-> [k \in {def.ps[j] : j \in Len(as) + 1 .. Len(def.ps)} |->
                 MkDef(<<>>, NoBody, st, 0)] @@ m]
  ELSE IF i > Len(def.ps)
  THEN [r |-> "ok", ds |-> <<Diag(st, "SW804")>>, m |-> m]
  ELSE LET b == ArgBody(P, st, as[i], d)
       IN  IF b.t = "deep" THEN [r |-> "er", ds |-> <<>>, m |-> m]
           ELSE Bind(P, st, def, as, i + 1,
                     (def.ps[i] :> MkDef(<<>>, b, st, 0)) @@ m, d)

ArgBody(P, st, a, d) ==
  IF a.k = "str" THEN [t |-> "i", i |-> <<a>>]
  ELSE LET x == Ev(P, st, a, d + 1)
       IN  IF x.r = "ok" THEN BE(Num(x.v))
           ELSE IF \E i \in 1..Len(x.ds) : x.ds[i].c = "SE115" THEN [t |-> "deep"]
           ELSE IF a.k = "sym" /\ LookDef(st, Key(P, a.n)).k = "def" /\ LookDef(st, Key(P, a.n)).d.b.t # "none" /\ IsFatal(x.ds)
                THEN LookDef(st, Key(P, a.n)).d.b      \* a list or string stays what it is
           ELSE BE(Expand(P, st, a, d))

(* What is kept of an expression without a value: known names are replaced *)
(* by their values, names that are not known yet stay.                     *)
Par(e) == [k |-> "par", e |-> e]
ExpandDef(P, st, e, def, ext, d) ==
  LET st2 == [st EXCEPT !.args = @ \o ext]
      p == IF def.b.t = "m" THEN ValPick(P, st2, def.b, def.b.lo, OK(0), d) ELSE [k |-> "no"]
      x == CASE def.b.t = "e" -> Ev(P, st2, def.b.e, d)
             [] OTHER -> ER(st2, "SE105")
  IN  IF (IF p.k = "val" THEN Len(p.i) = 1 /\ p.i[1].k # "str" /\ Len(p.x.ds) = 0 ELSE FALSE) THEN
        LET y == Ev(P, st2, p.i[1], d)
        IN  IF y.r = "ok" THEN Par(Num(y.v)) ELSE Par(Expand(P, st2, p.i[1], d + 1))
      ELSE IF def.b.t = "i"                    \* a list is not a number, and neither is a string
           THEN Par(IF def.b.i[1].k = "str" THEN [k |-> "bad", c |-> "SE105"]
                    ELSE [k |-> "ch", h |-> Par(Expand(P, st2, def.b.i[1], d + 1)), t |-> <<[o |-> "", x |-> Num(0)]>>])
      ELSE IF def.b.t # "e" THEN e
      ELSE IF x.r = "ok" THEN Par(Num(x.v))
      ELSE IF \E i \in 1..Len(x.ds) : x.ds[i].c = "SE115" THEN Par(def.b.e)       \* names itself: evaluating it will tell
      ELSE IF ~IsFatal(x.ds) THEN Par(Expand(P, st2, def.b.e, d + 1))
      ELSE Expand(P, st2, def.b.e, d + 1)

Expand(P, st, e, d) ==
  CASE e.k = "par" -> [e EXCEPT !.e = Expand(P, st, @, d)]
    [] e.k = "un"  -> [e EXCEPT !.e = Expand(P, st, @, d)]
    [] e.k = "ch"  -> [e EXCEPT !.h = Expand(P, st, @, d),
                                !.t = [i \in 1..Len(e.t) |->
                                         IF e.t[i].x.k = "miss" THEN e.t[i]
                                         ELSE [e.t[i] EXCEPT !.x = Expand(P, st, @, d)]]]
    [] e.k = "sym" ->
         LET k == Key(P, e.n)
             a == LookDef(st, k)
         IN  IF a.k = "def" /\ a.d.b.t # "none" THEN
               IF k = "__LINE" THEN Par(Num(st.cl)) ELSE ExpandDef(P, st, e, a.d, <<>>, d)
             ELSE IF Has(st.labs, k) THEN Par(Num(st.labs[k].v))
             ELSE e
    [] e.k = "call" ->
         LET a == LookDef(st, Key(P, e.n))
         IN  IF a.k = "def" /\ a.d.b.t # "none" THEN
               LET b == Bind(P, st, a.d, e.a, 1, EmptyMap, d)
               IN  IF b.r = "er" THEN e ELSE ExpandDef(P, st, e, a.d, <<b.m>>, d)
             ELSE [e EXCEPT !.a = ExpandSeq(P, st, e.a, d)]
    [] OTHER -> e
ExpandSeq(P, st, s, d) == [i \in 1..Len(s) |-> IF s[i].k = "str" THEN s[i] ELSE Expand(P, st, s[i], d)]

Eval(P, st, e) == Ev(P, st, e, 1)

---------------------------------------------------------------------------
(* Text of a value: signed decimal, as a sequence of character codes.      *)
RECURSIVE DecPos(_)
DecPos(v) == IF v < 10 THEN <<48 + v>> ELSE Append(DecPos(v \div 10), 48 + (v % 10))
Dec(v) == IF v >= 0 THEN DecPos(v)
          ELSE <<45>> \o (IF v = MinInt THEN DecPos(214748364) \o <<56>> ELSE DecPos(0 - v))
===========================================================================
