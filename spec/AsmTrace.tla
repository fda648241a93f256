----------------------------- MODULE AsmTrace -----------------------------
(***************************************************************************)
(* Checks recorded runs of the real assembler against the specification.   *)
(* A trace is [p |-> program, o |-> what was observed, cmp |-> fields that *)
(* count].  Each is a behaviour of its own; at its end the verdict is      *)
(* printed.                                                                *)
(***************************************************************************)
EXTENDS AsmObs, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, n, st

Verdict(t, s) ==
  LET bad == {f \in {t.cmp[i] : i \in 1..Len(t.cmp)} : ~Agrees(t.p, s, f, t.o)}
  IN  [i |-> t.i, ok |-> bad = {}, bad |-> bad, e |-> [f \in bad |-> Expect(t.p, s, f)], steps |-> n, rc |-> Exit(t.p, s)]

Init == tr \in 1..Len(Traces) /\ n = 0 /\ st = Init0(Traces[tr].p)
Next == /\ st.ph # "end"
        /\ st' = Step(Traces[tr].p, st)
        /\ n' = n + 1
        /\ tr' = tr
        /\ IF st'.ph = "end" THEN PrintT("VERDICT " \o ToJson(Verdict(Traces[tr], st'))) ELSE TRUE
View == <<tr, n>>

(* The second pass changes no layout: labels, addresses, sizes and order   *)
(* of what the first pass emitted stay (C03).                              *)
Layout(s) == <<s.labs, s.op, s.lst, [i \in 1..Len(s.em) |-> <<s.em[i].p, Len(s.em[i].b)>>]>>
SecondPassKeepsLayout == [][st.ph \in {"2", "3"} => Layout(st') = Layout(st)]_<<tr, n, st>>
\* the scopes of arguments are those of the invocations under way (C10)
ScopesMatch == st.ph = "1" => Len(st.args) = Cardinality({i \in 1..Len(st.fr) : st.fr[i].pop})
\* every byte is a byte, every message is about a line of the program
BytesAre == st.ph = "end" => \A i \in 1..Len(st.em) : \A j \in 1..Len(st.em[i].b) : st.em[i].b[j] \in 0..255
===========================================================================
